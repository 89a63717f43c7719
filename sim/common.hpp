// Helpers shared by the worlds.
#pragma once
#include "core.hpp"
#include <exception>
#include <stdexcept>
#include <optional>
#include <typeinfo>

namespace sim
{
    enum class Res { ok, nomem, threw };

    // Executes one library call under the fault schedule of the step. std::bad_alloc is the only
    // acceptable exception unless `may_throw`, and only if a failure was injected.
    template <class F>
    Res guarded(const Op& op, F&& f, std::string* what = nullptr)
    {
        arm_fault(op.fault, op.sustain != 0);
        Res r = Res::ok;
        std::string w;
        try
        {
            Scope s;
            f();
        }
        catch (const std::bad_alloc&)
        {
            r = Res::nomem;
        }
        catch (const std::exception& e)
        {
            u32 fired = disarm_fault();
            (void) fired;
            r = Res::threw;
            w = std::string(typeid(e).name()) + ": " + e.what();
        }
        catch (...)
        {
            disarm_fault();
            r = Res::threw;
            w = "unknown exception type";
        }
        u32 fired = disarm_fault();
        if (r == Res::nomem)
        {
            if (!fired) fail("spurious-bad_alloc", "std::bad_alloc although no allocation failed");
            count("fault:allocation_failed", fired);
            note(0xBADA);
        }
        if (r == Res::threw)
        {
            if (what) *what = w;
            else fail("unexpected-exception", w);
            note(0x7777);
        }
        if (fired && r == Res::ok) count("fault:failure_absorbed", fired);
        return r;
    }

    // swarm style op generation: a random subset of the operations, random weights
    inline void generate_ops(const World& w, Program& p, Rng& rng, u32 min_ops, u32 max_ops, u32 fault_num, u32 fault_den,
                             u32 max_nth = 12)
    {
        auto infos = w.ops();
        std::vector<u32> wt;
        for (auto& i : infos)
        {
            u32 k = i.weight;
            if (k >= 1000) { wt.push_back(k - 1000); continue; } // never disabled
            if (rng.chance(1, 4)) k = 0;
            else if (rng.chance(1, 5)) k *= 4;
            wt.push_back(k);
        }
        u64 tot = 0;
        for (u32 k : wt) tot += k;
        if (!tot) { wt.assign(wt.size(), 1); tot = wt.size(); }
        u32 n = min_ops + rng.below(max_ops - min_ops + 1);
        if (rng.chance(1, 6)) n = min_ops;
        bool faulty = fault_num && !rng.chance(1, 8);
        for (u32 i = 0; i < n; ++i)
        {
            Op o;
            u64 x = rng.next() % tot;
            for (u32 k = 0; k < wt.size(); ++k)
            {
                if (x < wt[k]) { o.code = k; break; }
                x -= wt[k];
            }
            o.a = rng.below(1u << 16);
            o.b = rng.below(1u << 16);
            o.c = rng.below(1u << 16);
            o.r = rng.next() >> 16;
            if (faulty && rng.chance(fault_num, fault_den))
            {
                o.fault = 1 + (rng.chance(1, 2) ? rng.below(4) : rng.below(max_nth));
                if (rng.chance(1, 10)) o.fault = 1 + rng.below(max_nth * 5);
                o.sustain = rng.chance(1, 4);
            }
            p.ops.push_back(o);
        }
    }

    inline std::string num(long long v) { return std::to_string(v); }

    template <class T>
    void note_obj(const T& v)
    {
        const unsigned char* c = reinterpret_cast<const unsigned char*>(&v);
        u64 h = sizeof(T);
        for (std::size_t i = 0; i < sizeof(T); ++i) h = h * 1099511628211ull + c[i];
        note(h);
    }
    inline u64 hash_str(const std::string& s)
    {
        u64 h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    // logarithmic size class used by state abstractions
    inline u64 cls(u64 n) { return n <= 3 ? n : n < 8 ? 4 : n == 8 ? 5 : n < 16 ? 6 : n == 16 ? 7 : n < 64 ? 8 : n == 64 ? 9 : 10; }
}
