// Happens-before checks of the library's own memory accesses: the __tsan_* entry points that gcc's -fsanitize=thread
// instrumentation calls, answered with the vector clocks of the controlled runtime.  No sanitizer runtime is linked.
#include "vx.hpp"
#include <cstdio>
#include <cxxabi.h>
#include <new>
#include <sys/single_threaded.h>
#include <unordered_map>
#include <algorithm>
namespace vx { struct Fn; }
extern "C" { extern vx::Fn __start_vxkind[] __attribute__((weak)); extern vx::Fn __stop_vxkind[] __attribute__((weak)); }

namespace vx
{
namespace
{
struct Acc { uint32_t t; uint8_t f, off, size, w; const void* pc; };
constexpr int NA = 4;
struct Word { Acc a[NA]; };
struct Page { uint64_t gen{0}; Word w[512]; };
struct Table
{
    std::unordered_map<uintptr_t, Page*> m;
    uintptr_t last{~uintptr_t(0)}; Page* lp{nullptr};
};
Table* the_table = nullptr;
Table& tab() { return *the_table; }
uint64_t gen = 1;
int mute[MAXF]{};
int busy = 1;      // inside here or inside the allocator
struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };
Page* page(uintptr_t a, bool make)
{
    Table& t = tab();
    uintptr_t k = a >> 12;
    if (t.last != k || !t.lp)
    {
        auto i = t.m.find(k);
        if (i == t.m.end())
        {
            if (!make) return nullptr;
            i = t.m.emplace(k, static_cast<Page*>(std::calloc(1, sizeof(Page)))).first;
        }
        t.last = k; t.lp = i->second;
    }
    Page* p = t.lp;
    if (p->gen != gen) { std::memset(p->w, 0, sizeof p->w); p->gen = gen; }
    return p;
}
void report(uintptr_t a, const Acc& o, int w, const void* pc)
{
    std::fprintf(stderr, "RACE %p: %s at %p by %d, before that %s at %p by %d\n", reinterpret_cast<void*>(a), w ? "write" : "read", pc, self(),
                 o.w ? "write" : "read", o.pc, o.f);
    void** fp = static_cast<void**>(__builtin_frame_address(0));
    std::fprintf(stderr, "CALLERS");
    for (int i = 0; i < 12 && fp; ++i)
    {
        std::fprintf(stderr, " %p", fp[1]);
        void** n = static_cast<void**>(fp[0]);
        if (n <= fp || n > fp + 65536) break;
        fp = n;
    }
    std::fprintf(stderr, "\n");
    busy = 0;
    abort_run("race");
}
void word(uintptr_t a, unsigned off, unsigned size, int w, const void* pc)
{
    Page* p = page(a, true);
    Word& s = p->w[(a & 4095) >> 3];
    const VC& c = clock_of_self();
    int me = self(), slot = -1;
    for (int i = 0; i < NA; ++i)
    {
        Acc& x = s.a[i];
        if (!x.size) { if (slot < 0) slot = i; continue; }
        bool over = x.off < off + size && off < x.off + x.size;
        if (over && x.f != me && (x.w || w) && x.t > c.c[x.f]) report(a + off, x, w, pc);
        // an earlier access that this one stands for
        if (over && x.off >= off && x.off + x.size <= off + size && x.t <= c.c[x.f] && (w || !x.w || x.f == me) && (w >= x.w)) { x.size = 0; slot = i; }
    }
    if (slot < 0) { static unsigned turn = 0; slot = int(turn++ % NA); }
    s.a[slot] = Acc{c.c[me], uint8_t(me), uint8_t(off), uint8_t(size), uint8_t(w), pc};
}
void access(const void* ad, size_t n, int w, const void* pc)
{
    if (busy || !active() || mute[self()]) return;
    Busy b;
    uintptr_t a = reinterpret_cast<uintptr_t>(ad);
    while (n > 0)
    {
        unsigned off = a & 7, k = unsigned(std::min<size_t>(8 - off, n));
        word(a - off, off, k, w, pc);
        a += k; n -= k;
    }
}
std::unordered_map<uintptr_t, SyncVar>& syncs() { static auto* m = new std::unordered_map<uintptr_t, SyncVar>(); return *m; }
} // namespace
// every instrumented function
struct Fn { uintptr_t at; uint64_t size, kind; };
static std::vector<Fn>* fns = nullptr;
static int kind_of(uintptr_t pc)
{
    auto i = std::upper_bound(fns->begin(), fns->end(), pc, [](uintptr_t p, const Fn& f) { return p < f.at; });
    if (i == fns->begin()) return 0;
    --i;
    return pc < i->at + i->size ? int(i->kind) : 0;
}
void race_mute(int d) { if (active()) mute[self()] += d; }
// called by the runtime
void race_run()
{
    if (!the_table) { the_table = new Table(); fns = new std::vector<Fn>(__start_vxkind, __stop_vxkind); std::sort(fns->begin(), fns->end(), [](auto& a, auto& b) { return a.at < b.at; }); busy = 0; }
    busy = 1; ++gen; syncs().clear(); std::memset(mute, 0, sizeof mute); busy = 0;
}
void race_forget(const void* ad, size_t n)
{
    if (!ad || !the_table) return;
    ++busy;
    uintptr_t a = reinterpret_cast<uintptr_t>(ad), e = a + n;
    for (uintptr_t x = a & ~uintptr_t(7); x < e;)
    {
        uintptr_t pe = std::min((x | 4095) + 1, e);
        if (Page* p = page(x, false)) std::memset(&p->w[(x & 4095) >> 3], 0, ((pe - x + 7) / 8) * sizeof(Word));
        x = (x | 4095) + 1;
    }
    --busy;
}
} // namespace vx
using namespace vx;
#define PC __builtin_return_address(0)
extern "C"
{
void __tsan_init() { __libc_single_threaded = 0; }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* a) { access(a, n, 1, PC); } \
    void __tsan_volatile_read##n(void*) {} \
    void __tsan_volatile_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
// in a function of the standard library: whose business is it?
static bool ours(void** fp)
{
    for (int i = 0; i < 60 && fp; ++i)
    {
        int k = kind_of(reinterpret_cast<uintptr_t>(fp[1]) - 1);
        if (k != 2) return k == 1;
        void** n = static_cast<void**>(fp[0]);
        if (n <= fp || n > fp + 65536) return false;
        fp = n;
    }
    return false;
}
#define STD(a, n, w) do { if (!busy && active() && ours(static_cast<void**>(__builtin_frame_address(0)))) access(a, n, w, PC); } while (0)
#define RWS(n) \
    void __tsan_std_read##n(void* a) { STD(a, n, 0); } \
    void __tsan_std_write##n(void* a) { STD(a, n, 1); } \
    void __tsan_std_unaligned_read##n(void* a) { STD(a, n, 0); } \
    void __tsan_std_unaligned_write##n(void* a) { STD(a, n, 1); } \
    void __tsan_std_volatile_read##n(void*) {} \
    void __tsan_std_volatile_write##n(void*) {}
RWS(1) RWS(2) RWS(4) RWS(8) RWS(16)
void __tsan_std_read_range(void* a, size_t n) { STD(a, n, 0); }
void __tsan_std_write_range(void* a, size_t n) { STD(a, n, 1); }
void __tsan_std_vptr_update(void** a, void* v) { if (*a != v) STD(a, sizeof(void*), 1); }
void __tsan_std_vptr_read(void** a) { STD(a, sizeof(void*), 0); }
void __tsan_read_range(void* a, size_t n) { access(a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { access(a, n, 1, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, sizeof(void*), 1, PC); }
void __tsan_vptr_read(void** a) { access(a, sizeof(void*), 0, PC); }

// atomics of the standard library (reference counts, stop tokens)
static std::memory_order mo(int m) { return static_cast<std::memory_order>(m & 0x7fff); }
static void hb(const volatile void* a, int kind, int m)   // 0 load, 1 store, 2 read-modify-write
{
    if (busy || !active()) return;
    SyncVar* s; { Busy b; s = &syncs()[reinterpret_cast<uintptr_t>(a)]; }
    Busy b;
    if (kind == 0) s->do_load(mo(m)); else if (kind == 1) s->do_store(mo(m)); else s->do_rmw(mo(m));
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int m) { hb(a, 0, m); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int m) { hb(a, 1, m); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int m) { hb(a, 2, m); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int m, int f) \
    { if (*a == *e) { hb(a, 2, m); *a = v; return 1; } hb(a, 0, f); *e = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int f) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, m, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// local statics, exceptions
int  __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
int  __wrap___cxa_guard_acquire(uint64_t* g) { int r = __real___cxa_guard_acquire(g); if (!r) hb(g, 0, 2); return r; }
void __wrap___cxa_guard_release(uint64_t* g) { hb(g, 1, 3); __real___cxa_guard_release(g); }
void* __real___cxa_allocate_exception(size_t);
void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); race_forget(p, n); return p; }
}
// fresh memory has no history
static void* get(size_t n, size_t al)
{
    if (n == 0) n = 1;
    void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n);
    if (!p) throw std::bad_alloc();
    if (!busy) race_forget(p, n);
    return p;
}
void* operator new(size_t n) { return get(n, 0); }
void* operator new[](size_t n) { return get(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, 0); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
