#include "core.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#if SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0:handle_abort=0:"
           "quarantine_size_mb=16:malloc_context_size=12:symbolize=0:detect_stack_use_after_return=0:"
           "allocator_may_return_null=1:print_summary=1:strict_string_checks=0:color=never:"
           "max_allocation_size_mb=512";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:symbolize=0:halt_on_error=1:exitcode=77"; }

namespace sim
{
    // ------------------------------------------------------------- shared ---
    constexpr std::size_t STATE_BITS = 1u << 24;
    constexpr std::size_t TRACE_BITS = 1u << 27;
    constexpr int MAXC = 160;
    struct Counter { char name[44]; std::atomic<u64> v; };
    struct Failure
    {
        std::atomic<int> state; // 0 empty 1 writing 2 ready
        u64 seed;
        char kind[160];
        char op[48];
        char msg[1400];
    };
    struct Shared
    {
        std::atomic<u64> next, runs, steps, allocs, injected, det_runs, fill_runs, nontrivial;
        std::atomic<int> stop, nfail;
        std::atomic<int> ncounters;
        std::atomic<int> clock;
        Counter counters[MAXC];
        Failure fails[16];
        std::atomic<u8> states[STATE_BITS / 8];
        std::atomic<u8> traces[TRACE_BITS / 8];
    };
    struct Slot // result of one run, written by the child
    {
        int status; // 0 running, 1 ok, 2 violation
        u64 hash, state_hash;
        u64 steps, allocs, injected, effective;
        char kind[160];
        char op[48];
        char msg[1400];
        long op_index;
    };
    static Shared* g_sh = nullptr;
    static Slot* g_slot = nullptr;
    static bool g_verbose = false;
    static u64 g_fill_seed = 0;
    static bool g_count = true;

    bool verbose() { return g_verbose; }
    void vlog(const char* fmt, ...)
    {
        if (!g_verbose) return;
        va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
        fflush(stdout);
    }

    static thread_local char g_op[48] = "start";
    void set_op(std::size_t index, const char* name)
    {
        snprintf(g_op, sizeof g_op, "%s", name);
        if (g_slot) { snprintf(g_slot->op, sizeof g_slot->op, "%s", name); g_slot->op_index = long(index); ++g_slot->steps; }
    }
    const char* current_op() { return g_op; }

    void fail(const std::string& kind, const std::string& msg) noexcept
    {
        if (g_slot)
        {
            snprintf(g_slot->kind, sizeof g_slot->kind, "%s", kind.c_str());
            snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg.c_str());
            snprintf(g_slot->op, sizeof g_slot->op, "%s", g_op);
            g_slot->status = 2;
        }
        vlog("FAIL kind=%s op=%s: %s\n", kind.c_str(), g_op, msg.c_str());
        fflush(stdout);
        _exit(66);
    }
    void abandon(const char* why) noexcept
    {
        Pause p;
        count("abandoned");
        vlog("abandoned: %s\n", why);
        if (g_slot) g_slot->status = 1;
        fflush(stdout);
        _exit(0);
    }
    void contract_failure(const char* expr, const char* msg) noexcept
    {
        Pause p;
        fail(std::string("contract:") + std::string(expr).substr(0, 100), std::string("a library contract failed in valid use: ") + expr + " / " + msg);
    }
    [[noreturn]] static void on_terminate()
    {
        Pause p;
        std::string what = "std::terminate";
        if (auto e = std::current_exception())
        {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { what += std::string(" with ") + typeid(x).name() + ": " + x.what(); }
            catch (...) { what += " with unknown exception"; }
        }
        fail("terminate", what);
    }

    void note(u64 v) { if (g_slot) { g_slot->hash = mix64(g_slot->hash ^ v) + 0x1234567; } }
    void note_state(u64 a)
    {
        if (!g_slot) return;
        ++g_slot->effective;
        if (!g_count || !g_sh) return;
        u64 h = mix64(a) % STATE_BITS;
        g_sh->states[h / 8].fetch_or(u8(1u << (h % 8)), std::memory_order_relaxed);
    }
    void count(const char* name, u64 n)
    {
        if (!g_sh || !g_count || n == 0) return;
        int k = g_sh->ncounters.load();
        for (int i = 0; i < k; ++i)
            if (strcmp(g_sh->counters[i].name, name) == 0) { g_sh->counters[i].v += n; return; }
        // registration is rare: spin lock
        static_assert(std::atomic<int>::is_always_lock_free);
        while (g_sh->clock.exchange(1)) {}
        k = g_sh->ncounters.load();
        int i = 0;
        for (; i < k; ++i) if (strcmp(g_sh->counters[i].name, name) == 0) break;
        if (i == k && k < MAXC) { snprintf(g_sh->counters[k].name, sizeof g_sh->counters[k].name, "%s", name); g_sh->ncounters = k + 1; }
        g_sh->clock = 0;
        if (i < MAXC) g_sh->counters[i].v += n;
    }

    // ------------------------------------------------------------- ledger ---
    struct Block { void* p; std::size_t size; std::size_t align; u64 serial; char op[24]; };
    static Block* g_tab = nullptr;     // open addressing
    static std::size_t g_cap = 0, g_used = 0, g_live = 0;
    static u64 g_live_bytes = 0, g_serial = 0;
    thread_local int g_scope = 0;
    static thread_local u32 g_countdown = 0; static thread_local bool g_sustain = false; static thread_local u32 g_fired = 0; static thread_local u64 g_opallocs = 0;
    static void (*g_on_free)(void*, std::size_t) = nullptr;
    void on_free(void (*f)(void*, std::size_t)) { g_on_free = f; }
    void memory_freed(void* p, std::size_t n) { if (g_on_free) g_on_free(p, n); }
    static u64 g_total = 0, g_failed = 0;
    static const std::size_t MEM_CAP = 192u << 20;
    static void* const TOMB = reinterpret_cast<void*>(1);

    static std::size_t hptr(void* p) { return mix64(reinterpret_cast<u64>(p)) & (g_cap - 1); }
    static void tab_insert(const Block& b)
    {
        if (g_cap == 0 || g_used * 2 >= g_cap)
        {
            Block* old = g_tab; std::size_t oc = g_cap;
            std::size_t want = 1024; while (want < g_live * 4 + 16) want *= 2;
            g_cap = want; g_tab = static_cast<Block*>(calloc(g_cap, sizeof(Block))); g_used = 0;
            for (std::size_t i = 0; i < oc; ++i)
                if (old[i].p && old[i].p != TOMB)
                {
                    std::size_t h = hptr(old[i].p);
                    while (g_tab[h].p) h = (h + 1) & (g_cap - 1);
                    g_tab[h] = old[i]; ++g_used;
                }
            free(old);
        }
        std::size_t h = hptr(b.p);
        while (g_tab[h].p && g_tab[h].p != TOMB) h = (h + 1) & (g_cap - 1);
        if (!g_tab[h].p) ++g_used;
        g_tab[h] = b; ++g_live; g_live_bytes += b.size;
    }
    static Block* tab_find(void* p)
    {
        if (!g_cap) return nullptr;
        std::size_t h = hptr(p);
        while (g_tab[h].p) { if (g_tab[h].p == p) return &g_tab[h]; h = (h + 1) & (g_cap - 1); }
        return nullptr;
    }
    Scope::Scope() { ++g_scope; }
    Scope::~Scope() { --g_scope; }
    Pause::Pause() : saved(g_scope) { g_scope = 0; }
    Pause::~Pause() { g_scope = saved; }
    void arm_fault(u32 nth, bool sustained) { g_countdown = nth; g_sustain = sustained; g_fired = 0; g_opallocs = 0; }
    u32 disarm_fault() { g_countdown = 0; g_sustain = false; u32 f = g_fired; g_fired = 0; return f; }
    u64 allocs_in_op() { return g_opallocs; }
    u64 ledger_mark() { return g_serial; }
    AllocStats alloc_stats() { return {g_live, g_live_bytes, g_total, g_failed}; }
    std::string describe_live_blocks(std::size_t max)
    {
        Pause p;
        std::vector<Block> v;
        for (std::size_t i = 0; i < g_cap; ++i) if (g_tab[i].p && g_tab[i].p != TOMB) v.push_back(g_tab[i]);
        std::sort(v.begin(), v.end(), [](const Block& a, const Block& b) { return a.serial < b.serial; });
        std::string s;
        for (std::size_t i = 0; i < v.size() && i < max; ++i)
            s += (i ? ", " : "") + std::string("#") + std::to_string(v[i].serial) + " " + std::to_string(v[i].size) + "B from " + v[i].op;
        return s;
    }

    static void* do_alloc(std::size_t n, std::size_t align, bool nothrow)
    {
        if (g_scope > 0)
        {
            ++g_opallocs; ++g_total;
            if (g_slot) ++g_slot->allocs;
            bool f = false;
            if (g_countdown > 0) { if (--g_countdown == 0) { f = true; if (g_sustain) g_countdown = 1; } }
            if (f)
            {
                ++g_fired; ++g_failed;
                if (g_slot) ++g_slot->injected;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
            if (n > MEM_CAP || g_live_bytes + n > MEM_CAP) 
            {
                fail("memory-blowup", "library asked for " + std::to_string(n) + " bytes with " + std::to_string(g_live_bytes) + " live");
            }
        }
        void* p = nullptr;
        std::size_t m = n ? n : 1;
        if (align > alignof(std::max_align_t)) { if (posix_memalign(&p, align, m) != 0) p = nullptr; }
        else p = malloc(m);
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        if (g_scope > 0)
        {
            Block b{p, n, align, g_serial++, {}};
            snprintf(b.op, sizeof b.op, "%s", g_op);
            tab_insert(b);
            memset(p, int(u8(mix64(g_fill_seed ^ b.serial))), m);
        }
        return p;
    }
    static void do_free(void* p, std::size_t n, bool sized)
    {
        if (!p) return;
        if (Block* b = tab_find(p))
        {
            if (sized && n != b->size)
            {
                Pause z;
                fail("sized-delete-mismatch", "block of " + std::to_string(b->size) + " bytes freed as " + std::to_string(n) + " bytes");
            }
            --g_live; g_live_bytes -= b->size;
            memory_freed(p, b->size);
            b->p = TOMB;
        }
        free(p);
    }
}

void* operator new(std::size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new[](std::size_t n) { return sim::do_alloc(n, 0, false); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::do_alloc(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::do_alloc(n, std::size_t(a), false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::do_alloc(n, 0, true); }
void operator delete(void* p) noexcept { sim::do_free(p, 0, false); }
void operator delete[](void* p) noexcept { sim::do_free(p, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { sim::do_free(p, n, true); }
void operator delete[](void* p, std::size_t n) noexcept { sim::do_free(p, n, true); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_free(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_free(p, 0, false); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { sim::do_free(p, n, true); }
void operator delete[](void* p, std::size_t n, std::align_val_t) noexcept { sim::do_free(p, n, true); }

namespace sim
{
    // ------------------------------------------------------------- runner ---
    static double now()
    {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
    }
    struct Outcome
    {
        bool ok = true; std::string kind, op, msg; u64 hash = 0; long op_index = -1;
        u64 allocs = 0, injected = 0, steps = 0, effective = 0;
    };

    static int g_errfd = -1;

    static std::string read_err()
    {
        std::string s; if (g_errfd < 0) return s;
        off_t n = lseek(g_errfd, 0, SEEK_END); if (n > 20000) n = 20000;
        s.resize(std::size_t(n)); 
        ssize_t k = pread(g_errfd, s.data(), std::size_t(n), 0); if (k < 0) k = 0; s.resize(std::size_t(k));
        return s;
    }

    // Runs a program in a forked child. Every run starts from the same pristine process image.
    static Outcome run_forked(World& w, const Program& p, bool counted, bool keep_err = false)
    {
        std::memset(static_cast<void*>(g_slot), 0, sizeof *g_slot);
        if (g_errfd >= 0 && !keep_err) { if (ftruncate(g_errfd, 0) != 0) {} lseek(g_errfd, 0, SEEK_SET); }
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0)
        {
            if (g_errfd >= 0 && !keep_err) dup2(g_errfd, 2);
            rlimit rl{40, 41}; setrlimit(RLIMIT_CPU, &rl);
            rlimit co{0, 0}; setrlimit(RLIMIT_CORE, &co);
            g_count = counted; g_fill_seed = p.fill;
            std::set_terminate(on_terminate);
            // the program lives in harness memory; the world reports through fail()
            w.run(p);
            set_op(p.ops.size(), "end");
            auto st = alloc_stats();
            if (st.live_blocks)
                fail("leak", std::to_string(st.live_blocks) + " library allocations still live after every owner is gone: " + describe_live_blocks());
            g_slot->status = 1;
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        Outcome o;
        o.hash = g_slot->hash; o.op_index = g_slot->op_index; o.op = g_slot->op;
        o.allocs = g_slot->allocs; o.injected = g_slot->injected; o.steps = g_slot->steps; o.effective = g_slot->effective;
        if (g_slot->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
        o.ok = false;
        if (g_slot->status == 2) { o.kind = g_slot->kind; o.msg = g_slot->msg; return o; }
        std::string e = keep_err ? std::string() : read_err();
        auto pos = e.find("AddressSanitizer");
        if (pos != std::string::npos || e.find("runtime error:") != std::string::npos)
        {
            auto rp = e.find("runtime error:");
            std::string line;
            if (rp != std::string::npos)
            {
                line = e.substr(rp, e.find('\n', rp) - rp);
                o.kind = "undefined-behaviour";
            }
            else
            {
                line = e.substr(pos, e.find('\n', pos) - pos);
                auto q = line.find(": ");
                std::string what = q == std::string::npos ? line : line.substr(q + 2);
                what = what.substr(0, what.find(' '));
                if (what == "attempting") what = line.find("double-free") != std::string::npos ? "double-free" : "bad-free";
                if (what == "requested") what = "allocation-size-too-big";
                o.kind = "memory-error:" + what;
            }
            o.msg = line;
            return o;
        }
        if (WIFSIGNALED(st))
        {
            int s = WTERMSIG(st);
            if (s == SIGXCPU || s == SIGKILL) { o.kind = "no-progress"; o.msg = "the step did not finish within 40 s of CPU time"; }
            else { o.kind = std::string("signal:") + strsignal(s); o.msg = "process died"; }
            return o;
        }
        o.kind = "abnormal-exit"; o.msg = "exit status " + std::to_string(WEXITSTATUS(st)) + " " + e.substr(0, 600);
        return o;
    }

    // A run of a world in which several parties act on objects of their own: a violation that one of the
    // parties shows when it is alone is a violation of some other property.
    static Outcome judge(World& w, const Program& p, bool counted, bool keep_err = false)
    {
        Outcome o = run_forked(w, p, counted, keep_err);
        if (o.ok) return o;
        std::vector<Program> parts = w.alone(p, o.kind);
        for (auto& q : parts)
        {
            Outcome a = run_forked(w, q, false, keep_err);
            if (!a.ok) { o.ok = true; if (counted) { g_count = true; count("also-when-alone"); } return o; }
        }
        if (!parts.empty()) run_forked(w, p, false, keep_err); // its diagnostics are the ones to keep
        return o;
    }

    static Program make_program(World& w, const std::string& profile, u64 base, u64 index)
    {
        Program p; p.profile = profile; p.seed = mix64(base * 0x1000003ull + index); p.fill = u32(mix64(p.seed ^ 77) & 0xffffff);
        Rng rng(p.seed); w.generate(p, rng);
        return p;
    }

    static void write_program(const Program& p, const std::string& path, const World& w, const Outcome* o)
    {
        std::ofstream f(path);
        f << "sparrow-sim-replay 1\nprofile " << p.profile << "\nseed " << p.seed << "\nfill " << p.fill << "\nconfig " << p.config << "\n";
        if (o) f << "expect " << o->kind << "\nexpect-op " << o->op << "\nexpect-hash " << o->hash << "\n";
        auto infos = w.ops();
        for (auto& op : p.ops)
            f << "op " << op.code << " " << op.a << " " << op.b << " " << op.c << " " << op.r << " " << op.fault << " " << op.sustain
              << "  # " << (op.code < infos.size() ? infos[op.code].name : "?") << "\n";
        if (o) { std::string m = o->msg; for (auto& c : m) if (c == '\n') c = ' '; f << "# " << m << "\n"; }
        std::string d = w.describe(p);
        std::istringstream is(d); std::string line;
        while (std::getline(is, line)) f << "# " << line << "\n";
    }
    static bool read_program(const std::string& path, Program& p, std::string& expect, std::string& expect_op, u64& expect_hash)
    {
        std::ifstream f(path); if (!f) return false;
        std::string line;
        std::getline(f, line); if (line.rfind("sparrow-sim-replay", 0) != 0) return false;
        expect_hash = 0;
        while (std::getline(f, line))
        {
            auto h = line.find('#'); if (h != std::string::npos) line = line.substr(0, h);
            std::istringstream is(line); std::string k; is >> k;
            if (k == "profile") is >> p.profile;
            else if (k == "seed") is >> p.seed;
            else if (k == "fill") is >> p.fill;
            else if (k == "config") is >> p.config;
            else if (k == "expect") { std::getline(is, expect); while (!expect.empty() && expect[0] == ' ') expect.erase(0, 1); while (!expect.empty() && expect.back() == ' ') expect.pop_back(); }
            else if (k == "expect-op") is >> expect_op;
            else if (k == "expect-hash") is >> expect_hash;
            else if (k == "op") { Op o; is >> o.code >> o.a >> o.b >> o.c >> o.r >> o.fault >> o.sustain; p.ops.push_back(o); }
        }
        return true;
    }

    static bool same_failure(const Outcome& a, const Outcome& b) { return !b.ok && a.kind == b.kind; }

    static Program minimise(World& w, Program p, const Outcome& target, double budget, u64& tried)
    {
        double t0 = now();
        auto fails = [&](const Program& q) { ++tried; return same_failure(target, judge(w, q, false)); };
        // cut the tail
        if (target.op_index >= 0 && std::size_t(target.op_index) + 1 < p.ops.size())
        {
            Program q = p; q.ops.resize(std::size_t(target.op_index) + 1);
            if (fails(q)) p = q;
        }
        std::size_t chunk = std::max<std::size_t>(1, p.ops.size() / 2);
        while (now() - t0 < budget)
        {
            bool any = false;
            for (std::size_t i = 0; i < p.ops.size() && now() - t0 < budget;)
            {
                Program q = p;
                std::size_t e = std::min(p.ops.size(), i + chunk);
                q.ops.erase(q.ops.begin() + long(i), q.ops.begin() + long(e));
                if (fails(q)) { p = q; any = true; } else i += chunk;
            }
            if (chunk == 1) { if (!any) break; }
            else chunk = std::max<std::size_t>(1, chunk / 2);
        }
        for (std::size_t i = 0; i < p.ops.size() && now() - t0 < budget; ++i)
        {
            if (p.ops[i].fault) { Program q = p; q.ops[i].fault = 0; q.ops[i].sustain = 0; if (fails(q)) p = q; }
            if (p.ops[i].sustain) { Program q = p; q.ops[i].sustain = 0; if (fails(q)) p = q; }
            for (int k = 0; k < 3; ++k)
            {
                u32 Op::*m = k == 0 ? &Op::a : k == 1 ? &Op::b : &Op::c;
                for (u32 v : {0u, 1u, 2u, 3u})
                    if (p.ops[i].*m > v) { Program q = p; q.ops[i].*m = v; if (fails(q)) { p = q; break; } }
            }
            for (u64 r : {0ull, 1ull, 2ull, 3ull, 4ull})
                if (p.ops[i].r > r) { Program q = p; q.ops[i].r = r; if (fails(q)) { p = q; break; } }
        }
        return p;
    }

    static std::string json_escape(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o;
    }

    int sim_main(int argc, char** argv, const WorldFactory& make)
    {
        std::string profile, out, replay, outdir = ".";
        u64 seed = 1, max_runs = 0; double secs = 10; int workers = 8; bool one = false; u64 one_index = 0; int max_fail = 1;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
            if (a == "--profile") profile = val();
            else if (a == "--seed") seed = std::stoull(val());
            else if (a == "--time") secs = std::stod(val());
            else if (a == "--workers") workers = std::stoi(val());
            else if (a == "--max-runs") max_runs = std::stoull(val());
            else if (a == "--out") out = val();
            else if (a == "--outdir") outdir = val();
            else if (a == "--replay") replay = val();
            else if (a == "--one") { one = true; one_index = std::stoull(val()); }
            else if (a == "--max-fail") max_fail = std::stoi(val());
            else if (a == "--verbose") g_verbose = true;
            else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
        }
        // the same address space layout in every process: nothing may depend on it, but if it does it repeats
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
        setvbuf(stdout, nullptr, _IOLBF, 0);
        g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (g_sh == MAP_FAILED || g_slot == MAP_FAILED) { perror("mmap"); return 2; }
        g_errfd = memfd_create("err", 0);

        if (!replay.empty())
        {
            Program p; std::string ex, exop; u64 eh = 0;
            if (!read_program(replay, p, ex, exop, eh)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
            std::unique_ptr<World> w(make(p.profile));
            if (!w) { fprintf(stderr, "unknown profile %s\n", p.profile.c_str()); return 2; }
            Outcome o = judge(*w, p, false, false);
            if (g_verbose && !o.ok && o.kind.rfind("memory-error", 0) == 0) fprintf(stderr, "%s\n", read_err().c_str());
            if (o.ok) { printf("REPLAY ok hash=%llu\n", (unsigned long long) o.hash); return 0; }
            printf("REPLAY violation kind=%s op=%s hash=%llu: %s\n", o.kind.c_str(), o.op.c_str(), (unsigned long long) o.hash, o.msg.c_str());
            if (!ex.empty() && (ex != o.kind || (!exop.empty() && exop != o.op) || (eh && eh != o.hash))) { printf("REPLAY differs from the recorded violation (%s)\n", ex.c_str()); return 3; }
            return 1;
        }

        std::unique_ptr<World> w(make(profile));
        if (!w) { fprintf(stderr, "unknown profile %s\n", profile.c_str()); return 2; }
        if (one)
        {
            Program p = make_program(*w, profile, seed, one_index);
            Outcome o = judge(*w, p, false);
            if (o.ok) printf("ok hash=%llu steps=%llu allocs=%llu\n", (unsigned long long) o.hash, (unsigned long long) o.steps, (unsigned long long) o.allocs);
            else { printf("violation kind=%s op=%s: %s\n", o.kind.c_str(), o.op.c_str(), o.msg.c_str()); if (g_verbose) fprintf(stderr, "%s\n", read_err().c_str()); }
            return o.ok ? 0 : 1;
        }

        double t0 = now();
        std::vector<pid_t> kids;
        for (int k = 0; k < workers; ++k)
        {
            fflush(stdout);
            pid_t pid = fork();
            if (pid != 0) { kids.push_back(pid); continue; }
            g_slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
            g_errfd = memfd_create("err", 0);
            while (now() - t0 < secs && !g_sh->stop)
            {
                u64 i = g_sh->next++;
                if (max_runs && i >= max_runs) break;
                Program p = make_program(*w, profile, seed, i);
                Outcome o = judge(*w, p, true);
                ++g_sh->runs; g_sh->steps += o.steps; g_sh->allocs += o.allocs; g_sh->injected += o.injected;
                if (o.ok && o.effective >= 4)
                {
                    ++g_sh->nontrivial;
                    u64 h = mix64(o.hash) % TRACE_BITS;
                    g_sh->traces[h / 8].fetch_or(u8(1u << (h % 8)));
                }
                if (o.ok && i % 32 == 0) // determinism of the simulation itself
                {
                    Outcome o2 = judge(*w, p, false); ++g_sh->det_runs;
                    if (!o2.ok || o2.hash != o.hash)
                    { o = o2; o.ok = false; o.kind = "nondeterminism"; o.msg = "two runs of one seed differ (uncontrolled input reaches the results)"; }
                    else
                    {
                        Program q = p; q.fill = u32(mix64(p.fill + 1));
                        Outcome o3 = judge(*w, q, false); ++g_sh->fill_runs;
                        if (!o3.ok || o3.hash != o.hash)
                        { o.ok = false; o.kind = o3.ok ? "uninitialised-read" : o3.kind; o.msg = "results depend on the content of fresh memory; " + o3.msg; }
                    }
                }
                if (!o.ok)
                {
                    int f = g_sh->nfail++;
                    if (f < 16)
                    {
                        Failure& F = g_sh->fails[f]; F.seed = i;
                        snprintf(F.kind, sizeof F.kind, "%s", o.kind.c_str()); snprintf(F.op, sizeof F.op, "%s", o.op.c_str());
                        snprintf(F.msg, sizeof F.msg, "%s", o.msg.c_str()); F.state = 2;
                    }
                    if (f + 1 >= max_fail) g_sh->stop = 1;
                }
            }
            _exit(0);
        }
        for (pid_t pid : kids) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died: %d\n", st); return 2; } }
        double search_s = now() - t0;

        int rc = 0;
        std::set<std::string> seen;
        std::string vio_json;
        int nf = std::min<int>(16, g_sh->nfail);
        for (int f = 0; f < nf; ++f)
        {
            Failure& F = g_sh->fails[f]; if (F.state != 2) continue;
            std::string sig = std::string(F.kind) + "@" + F.op;
            if (!seen.insert(sig).second) continue;
            Program p = make_program(*w, profile, seed, F.seed);
            if (std::string(F.kind) == "uninitialised-read" || std::string(F.kind) == "nondeterminism")
            {
                // confirmed by hash comparison: compare again
                Outcome a = judge(*w, p, false), b = judge(*w, p, false);
                Program q = p; q.fill = u32(mix64(p.fill + 1)); Outcome c = judge(*w, q, false);
                if (a.ok && b.ok && c.ok && a.hash == b.hash && a.hash == c.hash) { fprintf(stderr, "unconfirmed %s for seed %llu\n", F.kind, (unsigned long long) F.seed); rc = rc ? rc : 2; continue; }
                if (a.hash != b.hash) { fprintf(stderr, "harness nondeterminism, seed %llu\n", (unsigned long long) F.seed); rc = rc ? rc : 2; continue; }
                if (c.ok && a.ok) { // value differs with fill: shrink on that
                    u64 tried = 0; double m0 = now();
                    auto bad = [&](const Program& x) { ++tried; Program y = x; y.fill = u32(mix64(x.fill + 1)); Outcome u = judge(*w, x, false), v = judge(*w, y, false); return u.ok && v.ok && u.hash != v.hash; };
                    for (std::size_t i = 0; i < p.ops.size() && now() - m0 < 15;) { Program z = p; z.ops.erase(z.ops.begin() + long(i)); if (bad(z)) p = z; else ++i; }
                    std::string path = outdir + "/" + profile + "-uninitialised-read.replay";
                    write_program(p, path, *w, nullptr);
                    printf("VIOLATION-FOUND kind=uninitialised-read op=%s replay=%s: %s\n", F.op, path.c_str(), F.msg);
                    vio_json += std::string(vio_json.empty() ? "" : ",") + "{\"kind\":\"uninitialised-read\",\"op\":\"\",\"replay\":\"" + json_escape(path) + "\",\"message\":\"" + json_escape(F.msg) + "\"}";
                    rc = 1; continue;
                }
                p = q;
            }
            Outcome a = judge(*w, p, false), b = judge(*w, p, false);
            if (a.ok || b.ok || a.kind != b.kind || a.hash != b.hash) { fprintf(stderr, "harness problem: seed %llu not repeatable (%s: %s / %s / %s)\n", (unsigned long long) F.seed, F.kind, F.msg, a.kind.c_str(), b.kind.c_str()); rc = rc ? rc : 2; continue; }
            u64 tried = 0;
            Program m = minimise(*w, p, a, 25, tried);
            Outcome mo = judge(*w, m, false), mo2 = judge(*w, m, false);
            if (mo.ok || mo.kind != a.kind || mo.hash != mo2.hash) { m = p; mo = a; }
            std::string kk = mo.kind; for (auto& c : kk) if (!isalnum((unsigned char) c)) c = '-';
            std::string path = outdir + "/" + profile + "-" + kk + "-" + std::to_string(m.seed % 1000000) + ".replay";
            write_program(m, path, *w, &mo);
            // replay in a fresh process must reproduce it exactly
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); execl("/proc/self/exe", argv[0], "--replay", path.c_str(), (char*) nullptr); _exit(99); }
            int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "harness problem: replay of %s gave %d\n", path.c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : -1); rc = rc ? rc : 2; continue; }
            printf("VIOLATION-FOUND kind=%s op=%s seed=%llu ops=%zu->%zu replay=%s: %s\n", mo.kind.c_str(), mo.op.c_str(), (unsigned long long) F.seed, p.ops.size(), m.ops.size(), path.c_str(), mo.msg.c_str());
            vio_json += std::string(vio_json.empty() ? "" : ",") + "{\"kind\":\"" + json_escape(mo.kind) + "\",\"op\":\"" + json_escape(mo.op) + "\",\"replay\":\"" + json_escape(path) + "\",\"message\":\"" + json_escape(mo.msg) + "\"}";
            rc = 1;
        }
        u64 nstates = 0, ntraces = 0;
        for (auto& b : g_sh->states) nstates += u64(__builtin_popcount(b.load()));
        for (auto& b : g_sh->traces) ntraces += u64(__builtin_popcount(b.load()));
        std::string js = "{";
        auto kv = [&](const char* k, u64 v) { js += std::string(js.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
        kv("runs", g_sh->runs); kv("steps", g_sh->steps); kv("library_allocations", g_sh->allocs); kv("injected_failures", g_sh->injected);
        kv("distinct_traces", ntraces); kv("nontrivial_runs", g_sh->nontrivial); kv("distinct_states", nstates); kv("determinism_reruns", g_sh->det_runs); kv("fresh_memory_reruns", g_sh->fill_runs);
        js += ",\"search_s\":" + std::to_string(search_s);
        js += ",\"counters\":{";
        for (int i = 0; i < g_sh->ncounters; ++i) js += std::string(i ? "," : "") + "\"" + g_sh->counters[i].name + "\":" + std::to_string(g_sh->counters[i].v.load());
        js += "},\"violations\":[" + vio_json + "],\"samples\":[";
        for (u64 i = 0; i < 2; ++i)
        {
            Program p = make_program(*w, profile, seed, i); auto infos = w->ops();
            std::string s = "seed-index " + std::to_string(i) + " (" + std::to_string(p.ops.size()) + " steps):";
            for (std::size_t k = 0; k < p.ops.size() && k < 14; ++k)
                s += std::string(" ") + (p.ops[k].code < infos.size() ? infos[p.ops[k].code].name : "?") + (p.ops[k].fault ? "!alloc" + std::to_string(p.ops[k].fault) : "");
            js += std::string(i ? "," : "") + "\"" + json_escape(s) + "\"";
        }
        js += "]}";
        if (!out.empty()) { std::ofstream(out) << js << "\n"; } else printf("%s\n", js.c_str());
        return rc;
    }
}
