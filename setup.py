# Nothing to build ahead: every check compiles what it needs from /repo. Verifies that the tools are there.
import shutil, subprocess, sys
for t in ('g++', 'python3'):
    if not shutil.which(t): sys.exit('missing ' + t)
print(subprocess.run(['g++', '--version'], stdout=subprocess.PIPE, text=True).stdout.split('\n')[0])
