// Preloaded into the worker: keeps the set of live blocks that C++ code asked for, through operator new anywhere in the process or
// through malloc and friends from inside the core.  Read with vm_live_blocks() / vm_live_bytes().
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cerrno>
#include <new>
#include <pthread.h>

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);
}

namespace {
struct Slot { uintptr_t p; size_t n; };
const size_t CAP = size_t(1) << 21;
Slot* table = nullptr;
long blocks = 0, bytes = 0, made = 0, lost = 0;
uintptr_t lo = 0, hi = 0;
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

size_t home(uintptr_t p) { return ((p >> 4) * 0x9E3779B97F4A7C15ull) >> 43; }

void put(void* q, size_t n) {
    if (!q) return;
    pthread_mutex_lock(&mu);
    if (!table) table = (Slot*)__libc_calloc(CAP, sizeof(Slot));
    if ((size_t)blocks < CAP / 2) {
        size_t i = home((uintptr_t)q);
        while (table[i].p) i = (i + 1) & (CAP - 1);
        table[i].p = (uintptr_t)q;
        table[i].n = n;
        blocks++, bytes += n, made++;
    } else lost++;
    pthread_mutex_unlock(&mu);
}

void take(void* q) {
    if (!q || !table) return;
    pthread_mutex_lock(&mu);
    size_t i = home((uintptr_t)q);
    while (table[i].p && table[i].p != (uintptr_t)q) i = (i + 1) & (CAP - 1);
    if (table[i].p) {
        blocks--, bytes -= table[i].n;
        size_t j = i;                       // close the gap
        for (;;) {
            table[i].p = 0;
            size_t k;
            do {
                j = (j + 1) & (CAP - 1);
                if (!table[j].p) { pthread_mutex_unlock(&mu); return; }
                k = home(table[j].p);
            } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
            table[i] = table[j];
            i = j;
        }
    }
    pthread_mutex_unlock(&mu);
}

inline bool core(void* ra) { return (uintptr_t)ra >= lo && (uintptr_t)ra < hi; }

void* fresh(size_t n) {
    void* p = __libc_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    put(p, n);
    return p;
}
void* fresh_al(size_t n, size_t a) {
    void* p = __libc_memalign(a, n ? n : 1);
    if (!p) throw std::bad_alloc();
    put(p, n);
    return p;
}
void drop(void* p) { take(p); __libc_free(p); }
}

#define RA __builtin_return_address(0)
extern "C" {
long vm_live_blocks() { return blocks; }
long vm_live_bytes() { return bytes; }
long vm_made() { return made; }
long vm_lost() { return lost; }
void vm_core_range(uintptr_t a, uintptr_t b) { lo = a; hi = b; }

void* malloc(size_t n) { void* p = __libc_malloc(n); if (core(RA)) put(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (core(RA)) put(p, a * b); return p; }
void* realloc(void* q, size_t n) {
    void* ra = RA;
    take(q);
    void* p = __libc_realloc(q, n);
    if (core(ra)) put(p, n);
    return p;
}
void free(void* p) { take(p); __libc_free(p); }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (core(RA)) put(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (core(RA)) put(p, n); return p; }
int posix_memalign(void** out, size_t a, size_t n) {
    void* p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    if (core(RA)) put(p, n);
    *out = p;
    return 0;
}
}

void* operator new(size_t n) { return fresh(n); }
void* operator new[](size_t n) { return fresh(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = __libc_malloc(n ? n : 1); put(p, n); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = __libc_malloc(n ? n : 1); put(p, n); return p; }
void* operator new(size_t n, std::align_val_t a) { return fresh_al(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return fresh_al(n, (size_t)a); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
