// Threads under the simulated scheduler: readers that share objects (T01), and threads that each
// work on objects of their own (T02).
#include "w_inter.cpp"
#include "rt.hpp"

namespace sim::inter
{
    constexpr u32 MAXT = 3;
    static const char* const TP[] = {"t0:", "t1:", "t2:"};

    static rt::Switch switch_of(const Op& op)
    {
        rt::Switch s;
        s.after = u32((op.r >> 20) % (u64(1) << (op.a % 16)));
        s.to = op.b;
        s.burst = op.c % 6 == 5 ? 1 + (op.c >> 3) % 96 : 0;
        s.r = op.r;
        return s;
    }
    static void add_switches(Program& p, Rng& g, u32 code)
    {
        u32 n = g.chance(1, 10) ? g.below(3) : g.chance(1, 3) ? 40 + g.below(80) : 4 + g.below(30);
        u32 scale = 3 + g.below(13);
        for (u32 i = 0; i < n; ++i)
        {
            Op o;
            o.code = code;
            o.a = g.chance(1, 4) ? g.below(16) : g.below(scale + 1);
            o.b = g.below(1u << 16);
            o.c = g.below(1u << 16);
            o.r = g.next() >> 4;
            p.ops.push_back(o);
        }
    }
    static void account()
    {
        auto st = rt::stats();
        count("memory_accesses_scheduled", st.accesses);
        count("thread_switches", st.switches);
        count("atomic_operations", st.sync);
    }

    // ------------------------------------------------------------------ T02 --
    struct Own final : World
    {
        std::string profile;
        explicit Own(std::string p) : profile(std::move(p)) {}
        static constexpr u32 SWITCH = MAXT * NOPS;
        std::vector<OpInfo> ops() const override
        {
            static std::vector<std::string> names;
            if (names.empty())
                for (u32 k = 0; k < MAXT; ++k) for (u32 c = 0; c < NOPS; ++c) names.push_back(std::string(TP[k]) + Inter::name_of(c));
            Inter in("T02");
            auto w = in.ops();
            std::vector<OpInfo> r;
            for (u32 k = 0; k < MAXT; ++k) for (u32 c = 0; c < NOPS; ++c) r.push_back({names[k * NOPS + c].c_str(), w[c].weight});
            r.push_back({"switch", 0});
            return r;
        }
        void generate(Program& p, Rng& g) const override
        {
            p.config = g.next() >> 8;
            Inter in("T02");
            u32 n = 2 + g.below(2);
            bool f = g.chance(1, 2);
            // the same history in every thread meets itself in every piece of hidden state
            bool twins = g.chance(1, 4);
            std::vector<Op> first;
            for (u32 k = 0; k < n; ++k)
            {
                Program q;
                generate_ops(in, q, g, 2, 9, f ? 1 : 0, 4, 24);
                if (twins) { if (k == 0) first = q.ops; else q.ops = first; }
                for (auto& o : q.ops) { o.code += k * NOPS; p.ops.push_back(o); }
            }
            add_switches(p, g, SWITCH);
        }
        std::vector<Program> alone(const Program& p, const std::string& kind) const override
        {
            std::vector<Program> r;
            if (kind == "data-race") return r;
            for (u32 k = 0; k < MAXT; ++k)
            {
                Program q = p;
                q.ops.clear();
                for (auto& o : p.ops) if (o.code < SWITCH && o.code / NOPS == k) q.ops.push_back(o);
                if (!q.ops.empty()) r.push_back(q);
            }
            if (r.size() < 2) { Program q = p; if (r.empty()) r.push_back(q); }
            return r;
        }
        void run(const Program& p) override
        {
            std::vector<Op> part[MAXT];
            std::vector<rt::Switch> sched;
            for (auto& o : p.ops)
            {
                if (o.code == SWITCH) { sched.push_back(switch_of(o)); continue; }
                if (o.code > SWITCH) continue;
                Op q = o;
                q.code = o.code % NOPS;
                part[o.code / NOPS].push_back(q);
            }
            bool faults[MAXT] = {};
            std::vector<std::function<void()>> bodies;
            for (u32 k = 0; k < MAXT; ++k)
                if (!part[k].empty())
                    bodies.push_back([&, k]
                    {
                        Inter in("ALL");
                        in.prefix = TP[k];
                        in.steps(part[k]);
                        in.teardown(p.ops.size(), p.config);
                        faults[k] = in.any_fault;
                    });
            if (bodies.empty()) return;
            set_op(0, "threads");
            rt::run_threads(bodies, sched);
            account();
            set_op(p.ops.size() + 1, "end");
            Inter::check_leaks(faults[0] || faults[1] || faults[2]);
        }
    };

    // ------------------------------------------------------------------ T01 --
    struct Shared final : World
    {
        enum R : u32 { R_ALL, R_SOME, R_COPY, R_SLICE, R_VIEW, R_EQUAL, R_BATCH, R_PROXY, NR };
        static const char* rname(u32 r)
        {
            static const char* n[] = {"read", "read-some", "copy", "slice", "slice-view", "equal", "batch-access", "proxy-access"};
            return n[r];
        }
        static constexpr u32 FIRST = NOPS, SWITCH = NOPS + MAXT * NR;
        std::vector<OpInfo> ops() const override
        {
            static std::vector<std::string> names;
            if (names.empty())
                for (u32 k = 0; k < MAXT; ++k) for (u32 c = 0; c < NR; ++c) names.push_back(std::string(TP[k]) + rname(c));
            Inter in("T01");
            auto r = in.ops();
            r[READ].weight = r[EQUAL].weight = r[DESTROY].weight = r[SELF_ASSIGN].weight = r[CONS_RELEASE].weight = 0;
            r[BATCH_MAKE].weight = 6;
            r[SLICE_VIEW].weight = 5;
            static const u32 w[] = {1010, 6, 6, 4, 4, 6, 3, 3};
            for (u32 k = 0; k < MAXT; ++k) for (u32 c = 0; c < NR; ++c) r.push_back({names[k * NR + c].c_str(), 0 * w[c]});
            r.push_back({"switch", 0});
            return r;
        }
        void generate(Program& p, Rng& g) const override
        {
            p.config = g.next() >> 8;
            Program q;
            generate_ops(*this, q, g, 2, 12, 0, 2, 24);
            p.ops = q.ops;
            u32 n = 2 + g.below(2);
            bool f = g.chance(1, 3), focus = g.chance(1, 2);
            u32 at = g.below(1u << 16);
            for (u32 k = 0; k < n; ++k)
            {
                u32 m = 1 + g.below(5);
                for (u32 i = 0; i < m; ++i)
                {
                    Op o;
                    static const u32 pick[] = {R_ALL, R_ALL, R_ALL, R_SOME, R_SOME, R_COPY, R_COPY, R_SLICE, R_VIEW, R_EQUAL, R_EQUAL, R_BATCH, R_PROXY};
                    o.code = FIRST + k * NR + pick[g.below(13)];
                    o.a = focus && g.chance(2, 3) ? at : g.below(1u << 16);
                    o.b = g.below(1u << 16);
                    o.c = g.below(1u << 16);
                    o.r = g.next() >> 16;
                    if (f && g.chance(1, 4)) { o.fault = 1 + g.below(12); o.sustain = g.chance(1, 4); }
                    p.ops.push_back(o);
                }
            }
            add_switches(p, g, SWITCH);
        }
        std::vector<Program> alone(const Program& p, const std::string& kind) const override
        {
            std::vector<Program> r;
            if (kind == "data-race") return r;
            for (u32 k = 0; k <= MAXT; ++k)
            {
                Program q = p;
                q.ops.clear();
                bool any = k == MAXT;
                for (auto& o : p.ops)
                {
                    if (o.code < FIRST) q.ops.push_back(o);
                    else if (o.code < SWITCH && (o.code - FIRST) / NR == k) { q.ops.push_back(o); any = true; }
                }
                if (any) r.push_back(q);
            }
            return r;
        }

        struct Px { const Obj* o; std::unique_ptr<sp::arrow_proxy> p; };
        std::vector<Obj*> live;
        std::vector<Px> proxies;

        static void compare_proxy(const sp::arrow_proxy& p, const ArrowArray& a, const ArrowSchema& s, const Ty& t, u32 depth)
        {
            READ_CHECK(p.format() == std::string_view(s.format), "proxy", "format");
            READ_CHECK(p.name().has_value() == (s.name != nullptr) && (!s.name || *p.name() == std::string_view(s.name)), "proxy", "name");
            READ_CHECK(p.metadata().has_value() == (s.metadata != nullptr), "proxy", "metadata");
            READ_CHECK(p.length() == std::size_t(a.length) && p.offset() == std::size_t(a.offset) && p.null_count() == a.null_count, "proxy", "length, offset or null count");
            READ_CHECK(p.n_buffers() == std::size_t(a.n_buffers) && p.n_children() == std::size_t(a.n_children), "proxy", "number of buffers or children");
            (void) p.flags();
            (void) p.data_type();
            const auto& b = p.buffers();
            u64 sum = 0;
            for (const auto& x : b) { if (x.data()) for (std::size_t i = 0; i < x.size(); ++i) sum += x[i]; }
            note(sum);
            READ_CHECK((p.dictionary() != nullptr) == (a.dictionary != nullptr), "proxy", "dictionary");
            READ_CHECK(p.children().size() == std::size_t(a.n_children), "proxy", "children");
            if (depth < 4)
            {
                for (std::size_t i = 0; i < p.children().size(); ++i) compare_proxy(p.children()[i], *a.children[i], *s.children[i], t, depth + 1);
                if (p.dictionary()) compare_proxy(*p.dictionary(), *a.dictionary, *s.dictionary, t, depth + 1);
            }
        }
        static bool batch_ok(const Obj& o) { return o.kind == Kind::BATCH && !o.names.empty(); }
        template <class F>
        static void work(const Op& op, F&& f)
        {
            std::string what;
            Res r = guarded(op, f, &what);
            if (r == Res::threw) viol(T02, "unexpected-exception", what);
        }
        void reader(const Op& op, u32 code, Inter& in)
        {
            if (live.empty()) return;
            const Obj& o = *live[op.a % live.size()];
            const std::size_t n = o.v.size();
            Rng g(op.r);
            g_blame = {T02, "a shared object"};
            switch (code)
            {
                case R_ALL:
                    work(op, [&]
                    {
                        if (o.kind == Kind::ARR) read_array(*o.arr, *o.t, o.v);
                        else if (o.kind == Kind::TYPED) o.typed->read(*o.t, o.v);
                        else in.verify_batch(const_cast<Obj&>(o), T02);
                    });
                    g_blame = {T02, "a shared object"};
                    break;
                case R_SOME:
                    if (o.kind == Kind::ARR)
                        work(op, [&]
                        {
                            const sp::array& a = *o.arr;
                            READ_CHECK(a.size() == n, "read-size", "size");
                            for (u32 i = 0; i < 4 && n; ++i) { std::size_t x = g.below(u32(n)); match_ref(*o.t, o.v[x], g.chance(1, 2) ? a[x] : a.at(x)); }
                        });
                    else if (o.kind == Kind::BATCH)
                        work(op, [&]
                        {
                            READ_CHECK(o.batch->nb_columns() == o.names.size() && o.batch->nb_rows() == (o.names.empty() ? 0 : o.cols[0].size()), "batch-size", "rows or columns");
                            if (!o.names.empty()) { std::size_t x = g.below(u32(o.names.size())); read_array(o.batch->get_column(x), *o.types[x], o.cols[x]); }
                        });
                    else work(op, [&] { o.typed->read(*o.t, o.v); });
                    break;
                case R_COPY:
                    work(op, [&]
                    {
                        if (o.kind == Kind::ARR) { sp::array c(std::as_const(*o.arr)); if (op.b & 1) read_array(c, *o.t, o.v); }
                        else if (o.kind == Kind::TYPED) { TypedP c = std::as_const(*o.typed).clone(); if (op.b & 1) c->read(*o.t, o.v); }
                        else { sp::record_batch c(std::as_const(*o.batch)); READ_CHECK(c.nb_columns() == o.names.size(), "batch-columns", "copy"); if (op.b & 1 && !o.names.empty()) read_array(c.get_column(o.names[0]), *o.types[0], o.cols[0]); }
                    });
                    break;
                case R_SLICE: case R_VIEW:
                {
                    if (o.kind == Kind::BATCH || (o.kind == Kind::TYPED && !o.typed->can_slice())) break;
                    std::size_t i = g.below(u32(n) + 1), j = i + g.below(u32(n - i) + 1);
                    Vals part(o.v.begin() + long(i), o.v.begin() + long(j));
                    work(op, [&]
                    {
                        if (o.kind == Kind::ARR)
                        {
                            sp::array c(code == R_VIEW ? std::as_const(*o.arr).slice_view(i, j) : std::as_const(*o.arr).slice(i, j));
                            read_array(c, *o.t, part);
                        }
                        else std::as_const(*o.typed).slice(i, j, code == R_VIEW)->read(*o.t, part);
                    });
                    break;
                }
                case R_EQUAL:
                {
                    if (o.t && o.t->k == K::BINV) break;
                    std::vector<const Obj*> c;
                    for (const Obj* x : live) if (Inter::same_layout(o, *x)) c.push_back(x);
                    if (c.empty()) break;
                    const Obj& q = *c[op.b % c.size()];
                    bool expect;
                    if (o.kind == Kind::BATCH)
                    {
                        expect = o.names == q.names;
                        for (std::size_t i = 0; expect && i < o.cols.size(); ++i) expect = arrays_equal(*o.types[i], o.cols[i], *q.types[i], q.cols[i]);
                    }
                    else expect = arrays_equal(*o.t, o.v, *q.t, q.v);
                    bool eq = false, done = false;
                    work(op, [&]
                    {
                        if (o.kind == Kind::ARR) eq = std::as_const(*o.arr) == std::as_const(*q.arr);
                        else if (o.kind == Kind::TYPED) eq = o.typed->equal(*q.typed);
                        else eq = std::as_const(*o.batch) == std::as_const(*q.batch);
                        done = true;
                    });
                    if (done) READ_CHECK(eq == expect, "equality", std::string(eq ? "equal" : "unequal") + " in a thread");
                    break;
                }
                case R_BATCH:
                {
                    std::vector<const Obj*> c;
                    for (const Obj* x : live) if (batch_ok(*x)) c.push_back(x);
                    if (c.empty()) break;
                    const Obj& b = *c[op.b % c.size()];
                    std::size_t i = op.c % b.names.size();
                    work(op, [&]
                    {
                        const sp::record_batch& rb = *b.batch;
                        const sp::array& col = rb.get_column(b.names[i]);
                        READ_CHECK(&col == &rb.get_column(i) && rb.contains_column(b.names[i]) && rb.get_column_name(i) == b.names[i], "batch-map", "column by name");
                        if (op.b & 1) read_array(col, *b.types[i], b.cols[i]);
                        std::size_t k = 0;
                        for (const auto& nm : rb.names()) { READ_CHECK(k < b.names.size() && nm == b.names[k], "batch-names", "names()"); ++k; }
                    });
                    break;
                }
                default:
                {
                    if (proxies.empty()) break;
                    const Px& x = proxies[op.b % proxies.size()];
                    work(op, [&]
                    {
                        compare_proxy(*x.p, x.o->pair->a, x.o->pair->s, *x.o->t, 0);
                        if (op.c & 1) { sp::arrow_proxy c(std::as_const(*x.p)); READ_CHECK(c.length() == x.p->length() && c.format() == x.p->format(), "proxy", "copy"); }
                        if ((op.c & 6) == 6 && x.p->length()) { sp::arrow_proxy c(std::as_const(*x.p).slice(0, x.p->length() / 2)); READ_CHECK(c.length() == x.p->length() / 2, "proxy", "slice"); }
                    });
                }
            }
        }
        void run(const Program& p) override
        {
            std::vector<Op> build;
            std::vector<std::pair<std::size_t, Op>> part[MAXT];
            std::vector<rt::Switch> sched;
            for (std::size_t i = 0; i < p.ops.size(); ++i)
            {
                const Op& o = p.ops[i];
                if (o.code < FIRST) build.push_back(o);
                else if (o.code < SWITCH) part[(o.code - FIRST) / NR].push_back({i, o});
                else if (o.code == SWITCH) sched.push_back(switch_of(o));
            }
            Inter in("ALL");
            in.checks = false; // nothing is read before the threads read it
            in.steps(build);
            set_op(build.size(), "share");
            for (auto& o : in.objs)
            {
                if (o->zombie) continue;
                if (o->kind == Kind::PAIR)
                {
                    proxies.push_back({o.get(), nullptr});
                    lib([&] { proxies.back().p = std::make_unique<sp::arrow_proxy>(&o->pair->a, &o->pair->s); });
                }
                else live.push_back(o.get());
            }
            u64 st = live.size() * 16 + proxies.size();
            for (auto* o : live) st = mix64(st + mix64(o->t ? hash_str(show(*o->t)) : 7));
            for (int i = 0; i < 4; ++i) note_state(st + u64(i));
            std::vector<std::function<void()>> bodies;
            for (u32 k = 0; k < MAXT; ++k)
                if (!part[k].empty())
                    bodies.push_back([&, k]
                    {
                        g_const_only = true;
                        for (auto& [i, op] : part[k])
                        {
                            u32 c = (op.code - FIRST) % NR;
                            set_op(i, (std::string(TP[k]) + rname(c)).c_str());
                            count((std::string("op:thread-") + rname(c)).c_str());
                            reader(op, c, in);
                        }
                    });
            if (!bodies.empty())
            {
                rt::run_threads(bodies, sched);
                account();
            }
            set_op(p.ops.size(), "after");
            // what was shared is what it was before
            g_const_only = false;
            in.checks = true;
            in.op_mask = T02;
            in.verify_all();
            for (auto& x : proxies) lib([&] { x.p.reset(); });
            proxies.clear();
            live.clear();
            in.teardown(p.ops.size(), p.config);
            Inter::check_leaks(true);
        }
    };
}
int main(int argc, char** argv)
{
    using namespace sim::inter;
    return sim::sim_main(argc, argv, [](const std::string& p) -> sim::World*
    {
        set_interest(ANY);
        if (p == "T01") return new Shared;
        if (p == "T02") return new Own(p);
        return nullptr;
    });
}
