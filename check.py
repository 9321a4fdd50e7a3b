#!/usr/bin/env python3
"""Decides one property by running the real code of /repo under monitors.

  check.py PROPERTY            tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py PROPERTY --replay F runs the single case recorded in a replay file

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check itself failed (nothing observed, or the runner broke)."""
import sys, os, json, subprocess, shutil, time, hashlib, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs

REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(HERE, 'harness')
JOBS = os.cpu_count() or 4
PROFILES = {
    'plain':    ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS'],
    'asan':     ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'tsan':     ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=thread', '-fno-omit-frame-pointer'],
    'debug':    ['-O0', '-g1', '-D_GLIBCXX_ASSERTIONS'],
    'release':  ['-O2', '-g1', '-march=native', '-mtune=native', '-funroll-loops', '-ftree-vectorize', '-ffast-math', '-fstrict-aliasing', '-DNDEBUG'],   # as in CMakeLists.txt
    'clang':    ['-O0', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-fbracket-depth=1024'],
    'clang-release': ['-O3', '-g1', '-march=native', '-DNDEBUG', '-fbracket-depth=1024'],
}
LINK = {'asan': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread'], 'clang': ['-fsanitize=address,undefined']}


def die(msg):
    print('ERROR: ' + msg); sys.exit(2)


def compile_one(job):
    cmd, out = job
    cache = os.environ.get('VF_CACHE')   # development only: objects keyed by preprocessed source and flags
    key = None
    if cache:
        pre = subprocess.run(cmd[:1] + ['-E', '-P'] + [c for c in cmd[1:] if c != '-c'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        key = os.path.join(cache, hashlib.sha256(pre.stdout + repr(cmd).encode()).hexdigest())
        if os.path.exists(key):
            shutil.copyfile(key, out); return None
    r = None
    for _ in range(2):
        r = subprocess.run(cmd + ['-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            if key:
                os.makedirs(cache, exist_ok=True); shutil.copyfile(out, key)
            return None
    return (cmd, r.stdout)


def build_all(binaries, work):
    """Compiles everything the check needs at once; returns name -> (executable or None, errors)."""
    d = os.path.join(work, 'obj'); os.makedirs(d, exist_ok=True)
    jobs, parts = {}, {}
    for b in binaries:
        flags = ['-std=c++' + b.get('std', '17'), '-w'] + PROFILES[b['profile']] + b.get('flags', []) + ['-I' + REPO, '-I' + SRC]
        for src, defs in b['tus']:
            cmd = [b.get('cxx', 'g++')] + flags + list(defs) + ['-c', os.path.join(SRC, src)]
            o = jobs.setdefault(tuple(cmd), os.path.join(d, '%d.o' % len(jobs)))
            parts.setdefault(b['name'], []).append((tuple(cmd), o))
    order = sorted(jobs, key=lambda c: 0 if c[-1].endswith('prop_cont.cpp') or c[-1].endswith('prop_maze.cpp') else 1)   # the longest first
    with ThreadPoolExecutor(JOBS) as ex:
        res = dict(zip(order, ex.map(compile_one, [(list(c), jobs[c]) for c in order])))

    def link(b):
        errs = [res[c] for c, _ in parts[b['name']] if res[c]]
        if errs: return b['name'], (None, errs)
        exe = os.path.join(work, b['name'])
        r = subprocess.run([b.get('cxx', 'g++')] + LINK.get(b['profile'], []) + [o for _, o in parts[b['name']]] + ['-o', exe, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return b['name'], ((exe, []) if r.returncode == 0 else (None, [(['link'], r.stdout)]))
    with ThreadPoolExecutor(JOBS) as ex:
        out = dict(ex.map(link, binaries))
    shutil.rmtree(d)
    return out


def env_for(d):
    e = dict(os.environ)
    san = os.path.join(d, 'san')
    e['ASAN_OPTIONS'] = 'log_path=%s:exitcode=99:detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0' % san
    e['UBSAN_OPTIONS'] = 'log_path=%s:print_stacktrace=1:exitcode=99' % san
    e['TSAN_OPTIONS'] = 'log_path=%s:exitcode=99:halt_on_error=1:report_signal_unsafe=0' % san
    return e


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in specs.SPECS:
        die('usage: check.py PROPERTY [--replay FILE]; properties: ' + ' '.join(sorted(specs.SPECS)))
    prop = sys.argv[1]; spec = specs.SPECS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    if replay:
        tier, seed = replay['tier'], replay['seed']
    t0 = time.time()
    work = os.path.join(HERE, '.work', prop); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(HERE, 'replays')
    if not replay:
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))

    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['known'] if k['property'] == prop]
    found, stats, samples, total, distinct, used = {}, {}, [], 0, 0, set()
    runs = [r for r in spec['runs'] if tier in r.get('tiers', ('quick', 'thorough'))]
    need = list(dict.fromkeys(r['bin'] for ri, r in enumerate(runs) if not replay or replay.get('run') in (ri, None)))
    built = build_all([specs.BINARIES[n] for n in need], work)
    failed, records = set(), []
    if os.environ.get('VF_TIME'): print('built after %.1f s' % (time.time() - t0))

    for ri, run in enumerate(runs):
        b = specs.BINARIES[run['bin']]
        if replay and replay.get('run') != ri: continue
        if run['bin'] not in failed:
            exe, errs = built[run['bin']]
            if exe is None:
                failed.add(run['bin'])
                txt = '\n'.join(l for c, o in errs for l in o.splitlines() if 'error' in l or 'required from' in l)[:4000] or errs[0][1][-2000:]
                what = ' '.join(errs[0][0][-6:])
                print('the code does not build: ' + what + '\n' + txt)
                found['build:' + run['bin']] = dict(key='build:' + run['bin'], case=-1, msg=txt, run=ri)
        exe = built[run['bin']][0]
        if exe is None: continue
        d = os.path.join(work, 'out%d' % ri); os.makedirs(d)
        n = int(run[tier]) if tier in run else int(run['quick'])
        wrap = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=30', '--log-file=%s/san.%%p' % d] if run.get('wrap') == 'valgrind' else []
        env = env_for(d); env.update(run.get('env', {}))
        cmd = wrap + [exe, '--prop', run.get('as', prop), '--seed', str(seed * 1000 + (0 if run.get('record') else ri)), '--tier', tier, '--dir', d, '--jobs', str(run.get('jobs', JOBS)), '--timeout', str(run.get('timeout', 20))] + run.get('args', [])
        if replay:
            cmd += ['--single', str(replay['case'])]
            r = subprocess.run(cmd, env=env); 
            for f in os.listdir(d):
                if f.startswith('san.'): sys.stdout.write(open(os.path.join(d, f)).read())
            print('replayed; violated' if r.returncode == 1 else 'replayed; not violated'); sys.exit(r.returncode)
        cmd += ['--count', str(n)]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1):
            die('runner ended with %d: %s' % (r.returncode, r.stdout[-2000:]))
        s = json.load(open(os.path.join(d, 'summary.json')))
        total += s['cases']; distinct += s['distinct']
        for k, v in s['counters'].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith('max') else stats.get(k, 0) + v
        samples += open(os.path.join(d, 'samples.txt')).read().rstrip('\n').split('\n')[:40]
        for l in open(os.path.join(d, 'violations.jsonl')):
            v = json.loads(l); v['run'] = ri
            k = v['key']; found.setdefault(k, v)
        if s['cases'] < n and not s['stopped'] and s['violations'] == 0:
            die('only %d of %d cases ran' % (s['cases'], n))
        for c in run.get('needs', []):
            if not s['counters'].get(c) and s['violations'] == 0: die('the monitors observed nothing for "%s"' % c)
        if os.environ.get('VF_TIME'): print('%s x%d after %.1f s' % (run['bin'], n, time.time() - t0))
        if run.get('record'):
            log = {}
            for l in open(os.path.join(d, 'records.txt')):
                f = l.rstrip('\n').split(' ', 3)
                if len(f) == 4: log[int(f[0])] = f[1:]
            records.append((ri, run['bin'], log))
        shutil.rmtree(d)
    # offline: the answers recorded by each build against those of the first
    for ri, name, log in records[1:]:
        ref = records[0][2]; both = [c for c in ref if c in log]; same = [c for c in both if ref[c][0] == log[c][0]]
        stats['answers compared between builds'] = stats.get('answers compared between builds', 0) + len(same)
        if len(same) < 0.9 * len(both) or (not same and not found): die('builds were asked different queries (%d of %d alike)' % (len(same), len(both)))
        for c in same:
            if ref[c][1] != log[c][1]:
                k = 'differs:%s:%s' % (name, ref[c][2].split(':')[0]); found.setdefault(k, dict(key=k, case=c, run=ri, msg='build %s answers or searches otherwise than %s: %s (replay runs the case in the former)' % (name, records[0][1], ref[c][2])))
    if replay: die('nothing to replay')

    bad = []
    for k in sorted(found):
        m = [f for f in known if f['key'] == k]
        if m: used.add(k)
        else: bad.append(found[k])
    for f in known:
        if f['key'] in used: print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
    for i, v in enumerate(bad[:40]):
        p = os.path.join(rdir, '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, tier=tier, seed=seed, run=v['run'], case=v['case'], key=v['key'], msg=v['msg']), open(p, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, p)); print('   %s: %s' % (v['key'], v['msg'][:700].replace('\n', '\n   ')))
    if not bad and (distinct == 0 or total == 0): die('nothing was observed')

    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), wall_s=round(time.time() - t0, 2), violations=len(bad),
              assumptions=spec.get('assumptions', []),
              coverage=dict(evaluations=total, distinct_nontrivial=distinct, rule=spec['rule'], samples=samples[:24] or ['(none)'], observed=stats,
                            known_findings_seen=sorted(used), runs=['%s: %s x %s' % (r['bin'], r.get('as', prop), r.get(tier, r['quick'])) for r in runs]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s %s seed %d: %d cases, %d distinct, %d violations, %.1f s' % (prop, tier, seed, total, distinct, len(bad), time.time() - t0))
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
