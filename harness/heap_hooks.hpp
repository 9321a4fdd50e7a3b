// The global allocator under observation: every block is registered, and the n-th request of an armed section can be made to fail.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <string>
namespace hooks {
    // Bookkeeping uses malloc directly, so that it never feeds back into the counters.
    template <typename T> struct mal { using value_type = T; mal() = default; template <typename U> mal(const mal<U>&) {} T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); } void deallocate(T* p, size_t) { free(p); } friend bool operator==(const mal&, const mal&) { return true; } friend bool operator!=(const mal&, const mal&) { return false; } };
    struct Blk { size_t n, al; bool aligned; };
    using Map = std::map<uintptr_t, Blk, std::less<uintptr_t>, mal<std::pair<const uintptr_t, Blk>>>;
    inline thread_local Map* live = nullptr; inline thread_local bool armed = false, tracking = false; inline thread_local int64_t calls = 0, fail_at = -1, failed = 0, bad = 0; inline thread_local const char* why = "";
    inline thread_local uint64_t aligned_bytes = 0, aligned_blocks = 0, plain_blocks = 0, max_request = size_t(1) << 32;
    struct Hdr { uint64_t magic; void* base; };
    inline void* get(size_t n, size_t al, bool aligned) {
        if (armed && calls++ == fail_at) { ++failed; return nullptr; }
        if (n > max_request) return nullptr;
        if (al < 16) al = 16;
        char* b = static_cast<char*>(malloc(n + al + sizeof(Hdr))); if (!b) return nullptr;
        const auto a = (reinterpret_cast<uintptr_t>(b) + sizeof(Hdr) + al - 1) & ~uintptr_t(al - 1);
        auto* h = reinterpret_cast<Hdr*>(a) - 1; h->base = b; h->magic = 0x2222;
        if (tracking) { h->magic = 0x1111; if (!live) live = new (malloc(sizeof(Map))) Map(); (*live)[a] = { n, al, aligned }; if (aligned) { aligned_bytes += n; ++aligned_blocks; } else ++plain_blocks; }
        return reinterpret_cast<void*>(a);
    }
    inline void put(void* p, size_t al) {
        if (!p) return;
        auto* h = static_cast<Hdr*>(p) - 1;
        if (live && tracking) { // a pool may only give back what it took, with the alignment it took it with
            auto it = live->find(reinterpret_cast<uintptr_t>(p));
            if (it == live->end()) { ++bad; why = "gives back a heap block it does not own (or twice)"; return; }
            if (it->second.aligned && al && it->second.al != (al < 16 ? 16 : al)) { ++bad; why = "gives a heap block back with another alignment"; }
        }
        if (h->magic == 0x1111 && live) { auto it = live->find(reinterpret_cast<uintptr_t>(p)); if (it != live->end()) { if (it->second.aligned) { aligned_bytes -= it->second.n; --aligned_blocks; } else --plain_blocks; live->erase(it); } }
        free(h->base);
    }
    // The registered block that holds [p, p+n), if any.
    inline bool inside(const void* p, size_t n) { if (!live) return false; const auto a = reinterpret_cast<uintptr_t>(p); auto it = live->upper_bound(a); if (it == live->begin()) return false; --it; return it->second.aligned && a + n <= it->first + it->second.n; }
}
void* operator new(size_t n) { void* p = hooks::get(n, 16, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = hooks::get(n, 16, false); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = hooks::get(n, size_t(a), true); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = hooks::get(n, size_t(a), true); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return hooks::get(n, 16, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return hooks::get(n, 16, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return hooks::get(n, size_t(a), true); }
void operator delete(void* p) noexcept { hooks::put(p, 0); }
void operator delete[](void* p) noexcept { hooks::put(p, 0); }
void operator delete(void* p, size_t) noexcept { hooks::put(p, 0); }
void operator delete[](void* p, size_t) noexcept { hooks::put(p, 0); }
void operator delete(void* p, std::align_val_t a) noexcept { hooks::put(p, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { hooks::put(p, size_t(a)); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { hooks::put(p, size_t(a)); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { hooks::put(p, size_t(a)); }
