// Deterministic simulation core: seeded programs, allocation ledger with fault
// injection, violation reporting, state-coverage accounting.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <new>
#include <string>
#include <vector>

namespace sim
{
    using u8 = std::uint8_t;
    using u16 = std::uint16_t;
    using u32 = std::uint32_t;
    using u64 = std::uint64_t;
    using i64 = std::int64_t;

    inline u64 mix64(u64 x)
    {
        x += 0x9E3779B97F4A7C15ull;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

    struct Rng
    {
        u64 s;
        explicit Rng(u64 seed) : s(mix64(seed ^ 0xA5A5F00Dull)) {}
        u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
        u32 below(u32 n) { return n == 0 ? 0 : u32((next() >> 11) % n); }
        i64 range(i64 lo, i64 hi) { return lo + i64(next() % u64(hi - lo + 1)); }
        bool chance(u32 num, u32 den) { return below(den) < num; }
        template <class T> const T& pick(const std::vector<T>& v) { return v[below(u32(v.size()))]; }
    };

    // One step of a simulated execution. Arguments are interpreted relative to the
    // current state, so any sub-sequence of a program is again a program.
    struct Op
    {
        u32 code = 0;
        u32 a = 0, b = 0, c = 0;
        u64 r = 0;       // seed of the step's own content generator
        u32 fault = 0;   // 0: none; n: the n-th allocation of the step fails
        u32 sustain = 0; // 1: every later allocation of the step fails too
    };

    struct Program
    {
        std::string profile;
        u64 seed = 0;
        u32 fill = 0;      // what fresh memory contains
        u64 config = 0;    // world specific swarm configuration
        std::vector<Op> ops;
    };

    struct OpInfo { const char* name; u32 weight; };

    // A world executes programs.
    struct World
    {
        virtual ~World() = default;
        virtual std::vector<OpInfo> ops() const = 0;
        virtual void generate(Program& p, Rng& rng) const = 0; // fills config and ops
        virtual void run(const Program& p) = 0;
        // the programs of the single parties of p. If one of them fails alone, the failure `kind` of p does not count
        virtual std::vector<Program> alone(const Program& p, const std::string& kind) const { (void) p; (void) kind; return {}; }
        virtual std::string describe(const Program& p) const { (void) p; return {}; }
    };
    using WorldFactory = std::function<World*(const std::string& profile)>;
    int sim_main(int argc, char** argv, const WorldFactory& make);

    // ---- violations -------------------------------------------------------
    [[noreturn]] void fail(const std::string& kind, const std::string& msg) noexcept;
    [[noreturn]] void abandon(const char* why) noexcept; // ends the run without a verdict
    [[noreturn]] void contract_failure(const char* expr, const char* msg) noexcept;
    #define SIM_CHECK(cond, kind, msg) do { if (!(cond)) ::sim::fail((kind), (msg)); } while (0)

    // ---- trace, coverage --------------------------------------------------
    void note(u64 v);                 // folded in the trace hash
    void note_state(u64 abstract);    // abstract state reached (counted, not traced)
    void count(const char* name, u64 n = 1); // named counters (fault kinds, ops...)
    void set_op(std::size_t index, const char* name);
    const char* current_op();
    bool verbose();
    void vlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

    // ---- allocation ledger ------------------------------------------------
    struct AllocStats { u64 live_blocks, live_bytes, total, failed; };
    AllocStats alloc_stats();
    // inside a Scope every allocation belongs to the library and may be failed
    struct Scope { Scope(); ~Scope(); };
    // inside a Pause allocations belong to the harness (used by foreign callbacks)
    struct Pause { int saved; Pause(); ~Pause(); };
    extern thread_local int g_scope;
    void on_free(void (*f)(void*, std::size_t)); // told about memory that is given back
    void memory_freed(void* p, std::size_t n);
    void arm_fault(u32 nth, bool sustained); // counts from the next allocation in scope
    u32 disarm_fault();                      // returns how many failures were injected since arm
    u64 allocs_in_op();
    std::string describe_live_blocks(std::size_t max = 6);
    u64 ledger_mark();                       // serial of the next library allocation

    template <class F>
    decltype(auto) lib(F&& f) { Scope s; return f(); }
}
