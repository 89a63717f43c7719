// Scheduler, happens-before race detector and synchronisation primitives behind the calls that
// -fsanitize=thread inserts. This file itself is not instrumented.
#include "rt.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(std::size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(std::size_t, std::size_t);
extern "C" void* __libc_realloc(void*, std::size_t);
extern "C" char __executable_start, __data_start;

namespace sim::rt
{
    using uptr = std::uintptr_t;
    constexpr int T = 4;
    constexpr u32 FAIR = 300000;
    struct Clock { u32 c[T]; };
    static void join(Clock& a, const Clock& b) { for (int i = 0; i < T; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

    struct Thread
    {
        int id;
        uptr lo, hi; // stack
        int go, fin;
        bool done;
        const void* blocked; // what it waits for
        Clock vc, acq, rel;
        u64 n;
        pthread_t th;
        const std::function<void()>* body;
    };
    static Thread g_th[T];
    static int g_n = 0, g_main_go = 0;
    static bool g_active = false;
    static thread_local Thread* tl = nullptr;
    static const std::vector<Switch>* g_sched = nullptr;
    static std::size_t g_pos = 0;
    static u32 g_budget = FAIR, g_burst = 0;
    static u64 g_burst_r = 0;
    static Stats g_st{};

    Stats stats() { return g_st; }
    int self() { return tl ? tl->id : -1; }

    static void fwait(int* w)
    {
        while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT, 0, nullptr, nullptr, 0);
        __atomic_store_n(w, 0, __ATOMIC_RELAXED);
    }
    static void fwake(int* w)
    {
        __atomic_store_n(w, 1, __ATOMIC_RELEASE);
        syscall(SYS_futex, w, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    }
    static void load_budget()
    {
        if (g_pos < g_sched->size()) g_budget = (*g_sched)[g_pos].after + 1;
        else g_budget = FAIR;
    }
    static int others(int me, int* out)
    {
        int k = 0;
        for (int d = 1; d < g_n; ++d) { int i = (me + d) % g_n; if (!g_th[i].done && !g_th[i].blocked) out[k++] = i; }
        return k;
    }
    static void hand(Thread* me, int to)
    {
        ++g_st.switches;
        note(mix64(0x51 + u64(me->id) * 7 + u64(to)) ^ me->n);
        fwake(&g_th[to].go);
        if (!me->done) fwait(&me->go);
    }
    static void consult(Thread* me)
    {
        u32 to = 0;
        bool sw = true;
        if (g_burst)
        {
            --g_burst;
            u64 x = g_burst_r = mix64(g_burst_r);
            sw = x & 1;
            to = u32(x >> 8);
            if (g_burst) g_budget = 1; else load_budget();
        }
        else if (g_pos < g_sched->size())
        {
            const Switch& s = (*g_sched)[g_pos++];
            to = s.to;
            if (s.burst) { g_burst = s.burst; g_burst_r = s.r; g_budget = 1; } else load_budget();
        }
        else g_budget = FAIR;
        if (!sw) return;
        int o[T], k = others(me->id, o);
        if (k) hand(me, o[to % u32(k)]);
    }
    static inline void point(Thread* t)
    {
        ++t->n;
        ++g_st.accesses;
        if (--g_budget == 0) consult(t);
    }
    static void yield_now(Thread* t)
    {
        int o[T], k = others(t->id, o);
        if (k) hand(t, o[0]);
    }
    static void block(Thread* t, const void* key)
    {
        t->blocked = key;
        int o[T], k = others(t->id, o);
        if (!k) { Pause p; fail("deadlock", "every thread waits for another one"); }
        hand(t, o[0]);
    }
    static void wake_all(const void* key) { for (int i = 0; i < g_n; ++i) if (g_th[i].blocked == key) g_th[i].blocked = nullptr; }

    // ------------------------------------------------------------ shadow ---
    struct Cell { u32 wc; u8 wt; bool freed; u32 wpc; u32 r[T]; u32 rpc[T]; u32 ar[T]; u32 aw[T]; };
    struct Gran { uptr key; Cell* cells; };
    static Gran* g_tab = nullptr;
    static std::size_t g_cap = 0, g_used = 0;
    static char* g_arena = nullptr;
    static std::size_t g_left = 0;
    static void* arena(std::size_t n)
    {
        if (n > g_left)
        {
            g_left = 8u << 20;
            if (n > g_left) g_left = n;
            g_arena = static_cast<char*>(mmap(nullptr, g_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (g_arena == MAP_FAILED) { Pause p; abandon("no memory for the race detector"); }
        }
        void* p = g_arena;
        g_arena += n;
        g_left -= n;
        return p;
    }
    static Cell* cells(uptr g)
    {
        if (g_used * 2 >= g_cap)
        {
            Gran* old = g_tab;
            std::size_t oc = g_cap;
            g_cap = g_cap ? g_cap * 4 : 1u << 13;
            g_tab = static_cast<Gran*>(arena(g_cap * sizeof(Gran)));
            for (std::size_t i = 0; i < oc; ++i)
                if (old[i].cells)
                {
                    std::size_t h = mix64(old[i].key) & (g_cap - 1);
                    while (g_tab[h].cells) h = (h + 1) & (g_cap - 1);
                    g_tab[h] = old[i];
                }
        }
        std::size_t h = mix64(g) & (g_cap - 1);
        while (g_tab[h].cells) { if (g_tab[h].key == g) return g_tab[h].cells; h = (h + 1) & (g_cap - 1); }
        g_tab[h].key = g;
        g_tab[h].cells = static_cast<Cell*>(arena(8 * sizeof(Cell)));
        ++g_used;
        return g_tab[h].cells;
    }
    static std::string where(u32 off)
    {
        if (!off) return "?";
        void* p = &__executable_start + off - 1;
        Dl_info d;
        if (!dladdr(p, &d) || !d.dli_sname) { char b[40]; snprintf(b, sizeof b, "+0x%x", off); return b; }
        int st = 0;
        char* s = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        std::string r = st == 0 && s ? s : d.dli_sname;
        if (r.size() > 260) r = r.substr(0, 260) + "...";
        return r;
    }
    [[noreturn]] static void race(Thread* t, const char* what, uptr p, u32 pc, int ot, const char* other, u32 opc, bool freed)
    {
        Pause z;
        g_active = false;
        std::string m = std::string(what) + " by thread " + std::to_string(t->id) + " in " + where(pc) + (freed ? " of memory freed" : "") + " conflicts with the unordered " + other + " by thread " + std::to_string(ot) + " in " + where(opc);
        (void) p;
        if (verbose()) { void* b[64]; int n = backtrace(b, 64); backtrace_symbols_fd(b, n, 1); }
        fail("data-race", m);
    }
    enum Kind { READ, WRITE, AREAD, AWRITE };
    static inline void check_cell(Thread* t, Cell& c, Kind k, uptr p, u32 pc)
    {
        const int me = t->id;
        const Clock& v = t->vc;
        static const char* names[] = {"a read", "a write", "an atomic read", "an atomic write"};
        if (c.wc && c.wt != me && c.wc > v.c[c.wt]) race(t, names[k], p, pc, c.wt, c.freed ? "deallocation" : "write", c.wpc, c.freed);
        if (c.freed) { Pause z; g_active = false; fail("use-after-free", std::string(names[k]) + " by thread " + std::to_string(me) + " in " + where(pc) + " of memory freed by thread " + std::to_string(c.wt)); }
        const u32 now = v.c[me];
        switch (k)
        {
            case READ:
                for (int i = 0; i < T; ++i) if (i != me && c.aw[i] > v.c[i]) race(t, names[k], p, pc, i, "atomic write", 0, false);
                c.r[me] = now; c.rpc[me] = pc;
                break;
            case WRITE:
                for (int i = 0; i < T; ++i)
                    if (i != me)
                    {
                        if (c.r[i] > v.c[i]) race(t, names[k], p, pc, i, "read", c.rpc[i], false);
                        if (c.ar[i] > v.c[i]) race(t, names[k], p, pc, i, "atomic read", 0, false);
                        if (c.aw[i] > v.c[i]) race(t, names[k], p, pc, i, "atomic write", 0, false);
                    }
                c.wc = now; c.wt = u8(me); c.wpc = pc;
                break;
            case AREAD: c.ar[me] = now; break;
            case AWRITE:
                for (int i = 0; i < T; ++i) if (i != me && c.r[i] > v.c[i]) race(t, names[k], p, pc, i, "read", c.rpc[i], false);
                c.aw[me] = now;
                break;
        }
    }
    static void check(Thread* t, uptr p, std::size_t n, Kind k, void* ra)
    {
        u32 pc = u32(static_cast<char*>(ra) - &__executable_start);
        while (n)
        {
            Cell* c = cells(p >> 3);
            std::size_t o = p & 7, m = std::min<std::size_t>(8 - o, n);
            for (std::size_t i = 0; i < m; ++i) check_cell(t, c[o + i], k, p + i, pc);
            p += m;
            n -= m;
        }
    }
    static inline bool off() { return !g_active || !tl || g_scope <= 0; }
    static inline void access(const void* q, std::size_t n, Kind k, void* ra)
    {
        if (off()) return;
        Thread* t = tl;
        uptr p = uptr(q);
        if (p >= t->lo && p < t->hi) return;
        if (p >= uptr(&__executable_start) && p < uptr(&__data_start)) return;
        if (!n) return;
        point(t);
        check(t, p, n, k, ra);
    }
    static void freed(void* q, std::size_t n)
    {
        if (!g_active || !tl) return;
        Thread* t = tl;
        uptr p = uptr(q);
        void* ra = __builtin_return_address(0);
        check(t, p, n, WRITE, ra);
        for (std::size_t i = 0; i < n; ++i) cells((p + i) >> 3)[(p + i) & 7].freed = true;
    }

    // -------------------------------------------------- synchronisation ---
    struct Sync { const void* key; Clock vc; int owner; int depth; int readers; int state; };
    static Sync g_sync[4096];
    static Sync& sync_of(const void* key)
    {
        std::size_t h = mix64(u64(key)) & 4095;
        for (int i = 0; i < 4096; ++i, h = (h + 1) & 4095)
        {
            if (g_sync[h].key == key) return g_sync[h];
            if (!g_sync[h].key) { g_sync[h].key = key; g_sync[h].owner = -2; return g_sync[h]; }
        }
        Pause p;
        abandon("too many synchronisation objects");
    }
    static void acquire(const void* key) { if (tl) join(tl->vc, sync_of(key).vc); }
    static void release(const void* key) { if (tl) { join(sync_of(key).vc, tl->vc); ++tl->vc.c[tl->id]; } }

    // an atomic access: scheduling point, race check against plain accesses, ordering
    struct At
    {
        bool on;
        At(const volatile void* q, std::size_t n, bool rd, bool wr, int mo_rd, int mo_wr, void* ra)
        {
            const void* p = const_cast<const void*>(q);
            on = !off() && !(uptr(p) >= tl->lo && uptr(p) < tl->hi);
            if (!on) return;
            ++g_st.sync;
            point(tl);
            Thread* t = tl;
            check(t, uptr(p), n, wr ? AWRITE : AREAD, ra);
            if (rd)
            {
                join(t->acq, sync_of(p).vc);
                if (mo_rd == __ATOMIC_ACQUIRE || mo_rd == __ATOMIC_ACQ_REL || mo_rd == __ATOMIC_SEQ_CST || mo_rd == __ATOMIC_CONSUME) acquire(p);
            }
            if (wr)
            {
                Sync& s = sync_of(p);
                if (!rd) s.vc = Clock{}; // a store ends the release sequence
                if (mo_wr == __ATOMIC_RELEASE || mo_wr == __ATOMIC_ACQ_REL || mo_wr == __ATOMIC_SEQ_CST) release(p);
                else join(s.vc, t->rel);
            }
        }
    };

    static void* thread_main(void* a)
    {
        Thread* t = static_cast<Thread*>(a);
        tl = t;
        fwait(&t->go);
        (*t->body)();
        t->done = true;
        int o[T], k = others(t->id, o);
        if (k) hand(t, o[0]);
        else
        {
            for (int i = 0; i < g_n; ++i) if (!g_th[i].done) { Pause p; fail("deadlock", "the remaining threads wait for each other"); }
            fwake(&g_main_go);
        }
        fwait(&t->fin); // the destructors of thread local objects run one thread at a time as well
        return nullptr;
    }
    void run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& schedule)
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(sched_getcpu(), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
        g_n = int(std::min<std::size_t>(bodies.size(), T));
        g_sched = &schedule;
        g_pos = 0;
        g_burst = 0;
        load_budget();
        const std::size_t SZ = 1u << 20;
        for (int i = 0; i < g_n; ++i)
        {
            Thread& t = g_th[i];
            t = Thread{};
            t.id = i;
            t.body = &bodies[std::size_t(i)];
            t.vc.c[i] = 1;
            void* st = mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            t.lo = uptr(st);
            t.hi = t.lo + SZ;
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, st, SZ);
            if (pthread_create(&t.th, &at, thread_main, &t) != 0) { Pause p; abandon("cannot create a thread"); }
            pthread_attr_destroy(&at);
        }
        on_free(freed);
        g_active = true;
        fwake(&g_th[0].go);
        fwait(&g_main_go);
        g_active = false;
        on_free(nullptr);
        for (int i = 0; i < g_n; ++i) { fwake(&g_th[i].fin); pthread_join(g_th[i].th, nullptr); }
    }
}
using namespace sim::rt;
using sim::g_scope;
#define RA __builtin_return_address(0)
extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, READ, RA); } \
    void __tsan_write##N(void* p) { access(p, N, WRITE, RA); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, READ, RA); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, WRITE, RA); } \
    void __tsan_read_write##N(void* p) { access(p, N, READ, RA); access(p, N, WRITE, RA); } \
    void __tsan_unaligned_read_write##N(void* p) { access(p, N, READ, RA); access(p, N, WRITE, RA); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, READ, RA); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, WRITE, RA); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { access(p, n, READ, RA); }
    void __tsan_write_range(void* p, unsigned long n) { access(p, n, WRITE, RA); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, WRITE, RA); }
    void __tsan_vptr_read(void** p) { access(p, 8, READ, RA); }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access(s, n, READ, RA); access(d, n, WRITE, RA); return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, unsigned long n) { access(s, n, READ, RA); access(d, n, WRITE, RA); return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, unsigned long n) { access(d, n, WRITE, RA); return memset(d, c, n); }

#define ATOMIC(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { At a(p, sizeof(TY), true, false, mo, 0, RA); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), false, true, 0, mo, RA); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { At a(p, sizeof(TY), true, true, mo, mo, RA); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo) \
    { At a(p, sizeof(TY), true, true, mo, mo, RA); (void) fmo; return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo) \
    { At a(p, sizeof(TY), true, true, mo, mo, RA); (void) fmo; return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo) \
    { At a(p, sizeof(TY), true, true, mo, mo, RA); (void) fmo; __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
    ATOMIC(8, sim::u8) ATOMIC(16, sim::u16) ATOMIC(32, sim::u32) ATOMIC(64, sim::u64)
    void __tsan_atomic_thread_fence(int mo)
    {
        if (off()) return;
        if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) join(tl->vc, tl->acq);
        if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { tl->rel = tl->vc; ++tl->vc.c[tl->id]; }
    }
    void __tsan_atomic_signal_fence(int) {}

    // initialisation of function-local statics
    int __cxa_guard_acquire(__cxxabiv1::__guard* g)
    {
        auto* b = reinterpret_cast<unsigned char*>(g);
        for (;;)
        {
            if (b[0]) { acquire(g); return 0; }
            if (!b[1]) { b[1] = 1; return 1; }
            if (!tl) { sim::Pause p; sim::fail("deadlock", "recursive initialisation of a static"); }
            block(tl, g);
        }
    }
    void __cxa_guard_release(__cxxabiv1::__guard* g)
    {
        auto* b = reinterpret_cast<unsigned char*>(g);
        b[0] = 1;
        b[1] = 0;
        release(g);
        wake_all(g);
    }
    void __cxa_guard_abort(__cxxabiv1::__guard* g)
    {
        reinterpret_cast<unsigned char*>(g)[1] = 0;
        wake_all(g);
    }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (tl && g_active && g_scope > 0) point(tl);
        Sync& s = sync_of(m);
        const int me = self();
        while (s.owner != -2 && s.owner != me) { if (!tl) { sim::Pause p; sim::fail("deadlock", "mutex"); } block(tl, m); }
        if (s.owner == me && tl)
        {
            if (m->__data.__kind != PTHREAD_MUTEX_RECURSIVE_NP) { sim::Pause p; sim::fail("deadlock", "a thread locks a mutex it holds"); }
        }
        s.owner = me;
        ++s.depth;
        acquire(m);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (tl && g_active && g_scope > 0) point(tl);
        Sync& s = sync_of(m);
        if (s.owner != -2) return EBUSY;
        s.owner = self();
        s.depth = 1;
        acquire(m);
        return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        Sync& s = sync_of(m);
        release(m);
        if (--s.depth <= 0) { s.depth = 0; s.owner = -2; wake_all(m); }
        if (tl && g_active && g_scope > 0) point(tl);
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (tl && g_active && g_scope > 0) point(tl);
        Sync& s = sync_of(m);
        while (s.owner != -2) { if (!tl) { sim::Pause p; sim::fail("deadlock", "rwlock"); } block(tl, m); }
        ++s.readers;
        acquire(m);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (tl && g_active && g_scope > 0) point(tl);
        Sync& s = sync_of(m);
        while (s.owner != -2 || s.readers) { if (!tl) { sim::Pause p; sim::fail("deadlock", "rwlock"); } block(tl, m); }
        s.owner = self();
        acquire(m);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        Sync& s = sync_of(m);
        release(m);
        if (s.readers) --s.readers; else s.owner = -2;
        wake_all(m);
        if (tl && g_active && g_scope > 0) point(tl);
        return 0;
    }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (tl && g_active && g_scope > 0) point(tl);
        Sync& s = sync_of(o);
        while (s.state == 1) { if (!tl) { sim::Pause p; sim::fail("deadlock", "once"); } block(tl, o); }
        if (s.state == 2) { acquire(o); return 0; }
        s.state = 1;
        try { f(); }
        catch (...) { s.state = 0; wake_all(o); throw; }
        s.state = 2;
        release(o);
        wake_all(o);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m)
    {
        pthread_mutex_unlock(m);
        if (tl) yield_now(tl);
        return pthread_mutex_lock(m); // a spurious wake-up
    }
    int sched_yield() { if (tl && g_active) yield_now(tl); return 0; }
    int nanosleep(const timespec*, timespec*) { return sched_yield(); }
    int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { return sched_yield(); }
    int usleep(unsigned) { return sched_yield(); }

    // memory given back while threads run is not used again
    void* malloc(std::size_t n) { return __libc_malloc(n); }
    void free(void* p) { if (!g_active) __libc_free(p); }
    void* calloc(std::size_t a, std::size_t b) { return __libc_calloc(a, b); }
    void* realloc(void* p, std::size_t n)
    {
        if (!g_active || !p) return __libc_realloc(p, n);
        void* q = __libc_malloc(n);
        std::size_t old = reinterpret_cast<std::size_t*>(p)[-1] & ~std::size_t(15);
        old -= 8;
        if (q) memcpy(q, p, old < n ? old : n);
        return q;
    }
}
