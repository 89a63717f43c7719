// Interoperability world: a foreign producer, the library and consumers exchange arrays.
#include "typed.hpp"
#include "gbuild.hpp"
#include "worlds.hpp"
#include <sparrow/record_batch.hpp>
#include <cstring>
#include <unordered_set>

namespace sim::inter
{
    enum OpCode : u32
    {
        PRODUCE, IMPORT_MOVE, IMPORT_HALF, IMPORT_REF, BUILD, COPY, COPY_ASSIGN, SELF_ASSIGN, MOVE, MOVE_ASSIGN, SLICE, SLICE_VIEW, NEST,
        EXTRACT, EXTRACT_PART, CONS_RELEASE, CONS_CHILD, WRAP, DESTROY, EQUAL, READ, MUTATE, BATCH_MAKE, BATCH_COLUMN, GBUILD, BOOLS, METADATA, NOPS
    };
    enum class Kind { ARR, TYPED, BATCH, PAIR };
    struct Pair { ArrowArray a; ArrowSchema s; u32 root = 0; bool foreign = false; };
    struct Dep { u64 uid; bool life; }; // life: must not be destroyed or moved while the dependent exists
    struct Obj
    {
        u64 uid = 0;
        Kind kind = Kind::ARR;
        TyP t;
        Vals v;
        std::optional<sp::array> arr;
        TypedP typed;
        std::optional<sp::record_batch> batch;
        std::unique_ptr<Pair> pair;
        std::vector<std::string> names; // batch
        std::vector<TyP> types;
        std::vector<Vals> cols;
        bool own_a = true, own_s = true; // the object owns its structures
        bool mut = false;                // size-changing mutation is possible (created by the library)
        bool view = false;               // slice view or wrapper of another object
        bool zombie = false;             // moved from, extracted or target of a failed assignment: destroy or assign only
        bool still = false;              // never mutated
        bool hurt = false;               // a fault happened to it
        bool fresh = true;
        u32 mask = 0;                    // what a wrong value of a fresh object violates
        std::vector<Dep> deps;
    };

    static bool nested(const Ty& t) { return !is_flat(t.k); }

    struct Inter final : World
    {
        std::string profile;
        std::vector<std::unique_ptr<Obj>> objs;
        u64 next_uid = 1;
        bool any_fault = false;   // some failure was injected in this run
        bool step_fault = false;  // in this step
        u32 op_mask = 0;          // what a change of another object violates
        u32 fault_prop = F01;
        const char* why = "";
        bool checks = true;       // compare with the model after every step
        std::string prefix;       // of the names of steps

        explicit Inter(std::string p) : profile(std::move(p)) {}

        static const char* name_of(u32 c)
        {
            static const char* n[] = {"produce", "import-move", "import-half", "import-reference", "build", "copy", "copy-assign", "self-assign", "move", "move-assign", "slice",
                "slice-view", "nest", "extract", "extract-part", "consumer-release", "consumer-child", "wrap", "destroy", "equal", "read", "mutate", "batch-make", "batch-column", "build-generic", "bools", "metadata"};
            return c < NOPS ? n[c] : "?";
        }
        std::vector<OpInfo> ops() const override
        {
            // the last two are executed by replay files only: they show recorded findings
            //            PRODUCE  MOVE HALF REF BUILD COPY ASSIGN SELF MOVE MASSIGN SLICE VIEW NEST EXTRACT PART RELEASE CHILD WRAP DESTROY EQ READ MUTATE BATCH COLUMN GBUILD
            std::vector<u32> w{1008, 1006, 3,   4,  1006, 6,   4,    1,   4,   3,      4,    3,   4,   4,      2,   3,      3,    3,   5,      2, 2,   3,     2,    1,     2, 0, 0};
            auto set = [&](OpCode c, u32 x) { w[c] = x; };
            if (profile == "L02") { set(EXTRACT, 1010); set(CONS_RELEASE, 6); set(CONS_CHILD, 6); }
            else if (profile == "L03") { set(COPY, 1012); set(COPY_ASSIGN, 8); set(MUTATE, 10); set(MOVE_ASSIGN, 5); }
            else if (profile == "L04") { set(PRODUCE, 1012); set(IMPORT_REF, 8); set(IMPORT_HALF, 6); set(BUILD, 2); set(MUTATE, 6); }
            else if (profile == "F02") { set(BUILD, 1020); set(GBUILD, 1014); set(NEST, 8); set(PRODUCE, 3); set(IMPORT_MOVE, 3); }
            else if (profile == "S01") { set(SLICE, 1010); set(SLICE_VIEW, 1008); set(COPY, 3); }
            else if (profile == "S02") { set(NEST, 1010); set(GBUILD, 6); set(WRAP, 6); set(EXTRACT, 5); }
            else if (profile == "S03") { set(BATCH_MAKE, 1012); set(BATCH_COLUMN, 4); set(COPY, 10); set(COPY_ASSIGN, 10); set(MOVE, 8); set(MOVE_ASSIGN, 8); set(EQUAL, 8); }
            std::vector<OpInfo> r;
            for (u32 i = 0; i < NOPS; ++i) r.push_back({name_of(i), w[i]});
            return r;
        }
        void generate(Program& p, Rng& g) const override
        {
            p.config = g.next() >> 8;
            bool f = profile == "F01" || profile == "F02" || ((profile == "L01" || profile == "S03") && g.chance(1, 3));
            generate_ops(*this, p, g, 5, 26, f ? 1 : 0, 2, 24);
        }

        // ---- objects ------------------------------------------------------
        Obj* add(Kind k, TyP t, Vals v, u32 mask)
        {
            auto o = std::make_unique<Obj>();
            o->uid = next_uid++;
            o->kind = k;
            o->t = std::move(t);
            o->v = std::move(v);
            o->mask = mask;
            objs.push_back(std::move(o));
            return objs.back().get();
        }
        template <class F>
        Obj* pick(u32 a, F&& f)
        {
            std::vector<Obj*> c;
            for (auto& o : objs) if (f(*o)) c.push_back(o.get());
            return c.empty() ? nullptr : c[a % c.size()];
        }
        u32 s02(const Ty& t) const { return nested(t) ? u32(S02) : 0u; }
        void release_pair(Obj& o, bool schema_first)
        {
            Pair& p = *o.pair;
            if (schema_first) release_schema(&p.s);
            release_array(&p.a);
            release_schema(&p.s);
        }
        void destroy(Obj* o, bool schema_first = false)
        {
            drop_dependents(o->uid, true);
            if (o->kind == Kind::PAIR) release_pair(*o, schema_first);
            lib([&] { o->arr.reset(); o->typed.reset(); o->batch.reset(); });
            for (std::size_t i = 0; i < objs.size(); ++i)
                if (objs[i].get() == o) { objs.erase(objs.begin() + long(i)); break; }
        }
        // everything that reads through the object goes away first, as its user has to ensure
        void drop_dependents(u64 uid, bool life_too)
        {
            for (;;)
            {
                Obj* d = nullptr;
                for (auto& o : objs)
                    for (auto& dep : o->deps) if (dep.uid == uid && (life_too || !dep.life)) d = o.get();
                if (!d) return;
                destroy(d);
            }
        }
        void hand_on(u64 from, u64 to) // the content has moved
        {
            for (auto& o : objs) for (auto& d : o->deps) if (d.uid == from) d.uid = to;
        }
        bool has_dependents(u64 uid) const
        {
            for (auto& o : objs) for (auto& d : o->deps) if (d.uid == uid) return true;
            return false;
        }
        void inherit(Obj* n, const Obj& from)
        {
            // copies of wrappers share the wrapped layout, copies of anything else are deep
            if (from.kind == Kind::ARR && from.view) { n->deps = from.deps; n->view = true; n->own_a = from.own_a; n->own_s = from.own_s; }
        }

        // ---- verification -------------------------------------------------
        void verify(Obj& o)
        {
            u32 m = (o.fresh ? o.mask : op_mask) | (step_fault || o.hurt ? fault_prop : 0u);
            if (o.kind == Kind::PAIR)
            {
                if (o.zombie) return;
                Pair& p = *o.pair;
                check_export(p.a, p.s, *o.t, o.v, (o.fresh ? o.mask : op_mask | u32(L02)) | (step_fault ? fault_prop : 0u), o.fresh ? "extracted structures" : "structures held by a consumer");
                return;
            }
            if (o.zombie) return;
            if (o.kind == Kind::BATCH) { verify_batch(o, m | S03); return; }
            if (!o.fresh && nested(*o.t)) m |= S02;
            g_blame = {m, o.fresh ? "a new object" : "an object that was not touched"};
            Scope s;
            if (o.kind == Kind::ARR) read_array(*o.arr, *o.t, o.v);
            else o.typed->read(*o.t, o.v);
            auto st = o.kind == Kind::ARR ? sp::get_arrow_structures(*o.arr) : o.typed->structures();
            check_export(*st.first, *st.second, *o.t, o.v, m | L02, o.fresh ? "exposed structures of a new object" : "exposed structures of an object that was not touched");
            bool a = o.kind == Kind::ARR ? sp::owns_arrow_array(*o.arr) : o.typed->owns_a();
            bool b = o.kind == Kind::ARR ? sp::owns_arrow_schema(*o.arr) : o.typed->owns_s();
            if (!o.view) INTER_CHECK(a == o.own_a && b == o.own_s, L01 | m, "ownership", "ownership reported is " + nn(a) + nn(b) + " instead of " + nn(o.own_a) + nn(o.own_s));
        }
        void verify_batch(Obj& o, u32 m)
        {
            const sp::record_batch& b = *o.batch;
            Scope s;
            const std::size_t nc = o.names.size();
            g_blame = {m, o.fresh ? "a column of a new record batch" : "a column of a record batch that was not touched"};
            READ_CHECK(b.nb_columns() == nc, "batch-columns", nn((long long) b.nb_columns()) + " columns instead of " + nn((long long) nc));
            READ_CHECK(nc == 0 || b.nb_rows() == o.cols[0].size(), "batch-rows", nn((long long) b.nb_rows()) + " rows");
            if (nc == 0) READ_CHECK(b.nb_rows() == 0, "batch-rows", "an empty record batch has rows");
            std::size_t k = 0;
            for (const auto& n : b.names()) { READ_CHECK(k < nc && n == o.names[k], "batch-names", "name " + nn((long long) k)); ++k; }
            READ_CHECK(k == nc, "batch-names", "number of names");
            k = 0;
            for (const auto& c : b.columns()) { READ_CHECK(k < nc && &c == &b.get_column(k), "batch-columns", "columns()"); ++k; }
            READ_CHECK(k == nc, "batch-columns", "number of columns");
            for (std::size_t i = 0; i < nc; ++i)
            {
                READ_CHECK(b.get_column_name(i) == o.names[i], "batch-names", "name " + nn((long long) i));
                READ_CHECK(b.contains_column(o.names[i]), "batch-names", "column " + o.names[i] + " is not found");
                const sp::array& c = b.get_column(o.names[i]);
                READ_CHECK(&c == &b.get_column(i), "batch-map", "name " + o.names[i] + " does not designate the column at its position");
                read_array(c, *o.types[i], o.cols[i]);
            }
            std::string unknown = "no such column";
            READ_CHECK(!b.contains_column(unknown), "batch-names", "unknown column found");
            bool ok = false;
            try { (void) b.get_column(unknown); } catch (const std::out_of_range&) { ok = true; }
            READ_CHECK(ok, "batch-unknown", "an unknown name does not give std::out_of_range");
        }
        void verify_all()
        {
            if (!checks) { for (auto& o : objs) o->fresh = false; return; }
            for (std::size_t i = 0; i < objs.size(); ++i) verify(*objs[i]);
            check_foreign_memory(step_fault ? fault_prop : 0u);
            u64 h = objs.size();
            for (auto& o : objs)
            {
                u64 x = u64(o->kind) * 7 + o->zombie * 3 + o->view;
                if (o->t) { x = mix64(x ^ hash_str(show(*o->t))); x = mix64(x ^ cls(o->v.size())); }
                for (auto& v : o->v) note(hash_val(*o->t, v));
                note(x);
                h = mix64(h + mix64(x));
                o->fresh = false;
            }
            note_state(h);
        }

        // ---- steps --------------------------------------------------------
        // Runs f under the fault schedule of the step. A failed step is executed again without fault:
        // it has to succeed. `undo` is called in between.
        template <class F>
        bool attempt(const Op& op, F&& f, bool retry = true)
        {
            std::string what;
            Res r = guarded(op, f, &what);
            if (r == Res::threw) viol(op_mask | fault_prop * (op.fault ? 1u : 0u), "unexpected-exception", what);
            if (r == Res::ok) return true;
            step_fault = any_fault = true;
            verify_all();
            if (!retry) return false;
            Op again = op;
            again.fault = 0;
            r = guarded(again, f, &what);
            if (r != Res::ok) viol(op_mask | fault_prop, "retry-fails", "the operation fails again without any failed allocation: " + what);
            count("retry-after-fault");
            return true;
        }
        GenOpts type_opts(Rng& g, bool foreign) const
        {
            GenOpts o;
            o.max_depth = g.chance(1, 6) ? 3 : 1 + g.below(2);
            o.foreign = foreign;
            o.names = foreign && g.chance(1, 3);
            if (g.chance(1, 4)) o.max_depth = 0;
            return o;
        }
        TyP a_type(Rng& g, bool foreign, bool typed_only)
        {
            if (typed_only && g.chance(1, 8)) return flat_type(g.chance(1, 2) ? K::STRV : K::BINV);
            return gen_type(g, type_opts(g, foreign));
        }
        std::size_t a_length(Rng& g) const { return g.chance(1, 8) ? 0 : g.chance(1, 8) ? 7 + g.below(4) : g.chance(1, 30) ? 17 + g.below(20) : g.below(7); }

        void step(const Op& op)
        {
            Rng g(op.r);
            if (objs.size() >= 12) { Obj* o = pick(op.c, [](Obj&) { return true; }); destroy(o); }
            op_mask = L03;
            switch (op.code)
            {
                case PRODUCE: produce_step(g); break;
                case IMPORT_MOVE: import_step(op, 0); break;
                case IMPORT_HALF: import_step(op, 1); break;
                case IMPORT_REF: import_step(op, 2); break;
                case BUILD: build_step(op, g); break;
                case COPY: copy_step(op); break;
                case COPY_ASSIGN: assign_step(op, false); break;
                case SELF_ASSIGN: self_assign_step(op); break;
                case MOVE: move_step(op); break;
                case MOVE_ASSIGN: assign_step(op, true); break;
                case SLICE: slice_step(op, g, false); break;
                case SLICE_VIEW: slice_step(op, g, true); break;
                case NEST: nest_step(op, g); break;
                case EXTRACT: extract_step(op, false); break;
                case EXTRACT_PART: extract_step(op, true); break;
                case CONS_RELEASE: if (Obj* o = pick(op.a, [](Obj& x) { return x.kind == Kind::PAIR; })) destroy(o, op.b & 1); break;
                case CONS_CHILD: child_step(op); break;
                case WRAP: wrap_step(op); break;
                case DESTROY: if (Obj* o = pick(op.a, [](Obj& x) { return x.kind != Kind::PAIR || x.zombie; })) destroy(o); break;
                case EQUAL: equal_step(op, g); break;
                case READ: read_step(op); break;
                case MUTATE: mutate_step(op, g); break;
                case BATCH_MAKE: batch_step(op, g); break;
                case BATCH_COLUMN: column_step(op); break;
                case GBUILD: gbuild_step(op, g); break;
                case BOOLS: bools_step(op); break;
                case METADATA: metadata_step(); break;
                default: break;
            }
        }
        void produce_step(Rng& g)
        {
            TyP t = a_type(g, true, true);
            Vals v = gen_vals(*t, a_length(g), g);
            auto p = std::make_unique<Pair>();
            p->foreign = true;
            p->root = produce(*t, v, g, &p->a, &p->s);
            vlog("  produced %s length %zu offset %lld\n", show(*t).c_str(), v.size(), (long long) p->a.offset);
            Obj* o = add(Kind::PAIR, t, v, ANY);
            o->pair = std::move(p);
        }
        void import_step(const Op& op, int mode)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return x.kind == Kind::PAIR && !x.zombie && (mode == 2 || !has_dependents(x.uid)); });
            if (!src) return;
            Pair& p = *src->pair;
            const bool lib_made = !p.foreign;
            const u32 mask = L04 | s02(*src->t) | (lib_made ? u32(L02) : 0u);
            op_mask = L03 | L04;
            bool typed = (op.b & 1) || src->t->k == K::STRV || src->t->k == K::BINV;
            if (p.foreign) hand_over(p.root, mode <= 1, mode == 0);
            std::optional<sp::array> arr;
            TypedP ty;
            vlog("  %s of %s into %s\n", mode == 0 ? "move" : mode == 1 ? "half move" : "reference", show(*src->t).c_str(), typed ? "layout" : "array");
            auto go = [&]
            {
                if (mode == 0)
                {
                    if (typed) ty = typed_from(*src->t, sp::arrow_proxy(std::move(p.a), std::move(p.s)));
                    else arr.emplace(std::move(p.a), std::move(p.s));
                }
                else if (mode == 1)
                {
                    if (typed) ty = typed_from(*src->t, sp::arrow_proxy(std::move(p.a), &p.s));
                    else arr.emplace(std::move(p.a), &p.s);
                }
                else
                {
                    if (typed) ty = typed_from(*src->t, sp::arrow_proxy(&p.a, &p.s));
                    else arr.emplace(&p.a, &p.s);
                }
            };
            std::string what;
            Res r = guarded(op, go, &what);
            if (r == Res::threw) viol(mask, "unexpected-exception", what);
            if (r == Res::nomem)
            {
                step_fault = any_fault = true;
                arr.reset();
                ty.reset();
                // what was handed over was either consumed (and released) or left alone
                if (!p.a.release || (mode == 0 && !p.s.release)) src->zombie = true;
                if (p.foreign && !src->zombie) hand_over(p.root, false, false);
                if (src->zombie) { if (mode == 0 || true) {} return; }
                verify_all();
                Op again = op;
                again.fault = 0;
                r = guarded(again, go, &what);
                if (r != Res::ok) viol(mask | fault_prop, "retry-fails", what);
            }
            if (mode <= 1)
            {
                INTER_CHECK(p.a.release == nullptr, L01, "move-not-cleared", "the source ArrowArray of an import by move still has a release callback");
                src->zombie = true;
            }
            if (mode == 0) INTER_CHECK(p.s.release == nullptr, L01, "move-not-cleared", "the source ArrowSchema of an import by move still has a release callback");
            Obj* n = add(typed ? Kind::TYPED : Kind::ARR, src->t, src->v, mask);
            n->arr = std::move(arr);
            n->typed = std::move(ty);
            n->own_a = mode <= 1;
            n->own_s = mode == 0;
            // structures of the library that come back are mutable. Those that are only referenced are too,
            // but what the mutation does to their owner is not modelled
            n->mut = src->mut && mode == 0;
            n->still = src->mut && mode != 0;
            n->hurt = step_fault;
            if (mode == 2) { n->deps.push_back({src->uid, true}); n->view = false; }
            if (mode == 1) n->deps.push_back({src->uid, true});
            if (mode == 0) destroy(src);
        }
        void build_step(const Op& op, Rng& g)
        {
            bool typed = op.b & 1;
            fault_prop = F02 | F01;
            TyP t = a_type(g, false, typed);
            Vals v = gen_vals(*t, a_length(g), g);
            u64 how = g.next();
            std::optional<sp::array> arr;
            TypedP ty;
            vlog("  build %s length %zu\n", show(*t).c_str(), v.size());
            op_mask = L03 | F02;
            auto go = [&]
            {
                Rng h(how);
                if (typed) ty = build_typed(*t, v, h);
                else arr.emplace(build_array(*t, v, h));
            };
            throwing(op, g, v.size(), go, [&] { ty.reset(); arr.reset(); });
            attempt(op, go);
            Obj* n = add(typed ? Kind::TYPED : Kind::ARR, t, v, F02 | s02(*t));
            n->arr = std::move(arr);
            n->typed = std::move(ty);
            n->mut = true;
            n->hurt = step_fault;
        }
        // the same construction from a range whose n-th access throws
        template <class F, class D>
        void throwing(const Op& op, Rng& g, std::size_t n, F&& go, D&& drop)
        {
            if (op.fault || !g.chance(1, 5) || profile == "T02") return;
            g_throw_in = 1 + g.below(u32(n) * 3 + 2);
            g_thrown = 0;
            std::string what;
            bool done = false, other = false;
            try { Scope sc; go(); done = true; }
            catch (const RangeError&) {}
            catch (const std::exception& e) { other = true; what = e.what(); }
            g_throw_in = 0;
            INTER_CHECK(!other, F02, "unexpected-exception", "the range throws, the caller gets: " + what);
            INTER_CHECK(done == (g_thrown == 0), F02, "exception-lost", done ? "an exception of the range does not arrive at the caller" : "exception without cause");
            if (!done) { count("fault:range_throws"); step_fault = any_fault = true; verify_all(); }
            lib(drop);
        }
        // the generic builder: from nested standard containers
        void gbuild_step(const Op& op, Rng& g)
        {
            fault_prop = F02 | F01;
            const Shape& s = shapes()[op.a % shapes().size()];
            Vals v = s.gen(g, a_length(g));
            u64 how = g.next();
            vlog("  generic build %s length %zu\n", show(*s.t).c_str(), v.size());
            op_mask = L03 | F02 | S02;
            TypedP ty;
            auto go = [&] { Rng h(how); ty = s.make(v, h); };
            throwing(op, g, v.size(), go, [&] { ty.reset(); });
            attempt(op, go);
            Obj* n = add(Kind::TYPED, s.t, v, F02 | S02);
            n->typed = std::move(ty);
            n->mut = true;
            n->hurt = step_fault;
            if (op.b & 1)
            {
                std::optional<sp::array> a;
                lib([&] { a.emplace(n->typed->wrap_move()); n->typed.reset(); });
                n->kind = Kind::ARR;
                n->arr = std::move(a);
            }
        }
        static bool live(const Obj& x) { return x.kind != Kind::PAIR && !x.zombie; }
        void copy_step(const Op& op)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return live(x); });
            if (!src) return;
            std::optional<sp::array> arr;
            std::optional<sp::record_batch> batch;
            TypedP ty;
            vlog("  copy of %s\n", src->t ? show(*src->t).c_str() : "record batch");
            op_mask = L03;
            attempt(op, [&]
            {
                if (src->kind == Kind::ARR) arr.emplace(std::as_const(*src->arr));
                else if (src->kind == Kind::TYPED) ty = src->typed->clone();
                else batch.emplace(std::as_const(*src->batch));
            });
            Obj* n = add(src->kind, src->t, src->v, src->kind == Kind::BATCH ? L03 | S03 : L03 | s02(*src->t));
            n->arr = std::move(arr);
            n->typed = std::move(ty);
            if (batch) { Scope s; n->batch.emplace(std::move(*batch)); }
            n->names = src->names;
            n->types = src->types;
            n->cols = src->cols;
            n->mut = true;
            n->hurt = step_fault;
            inherit(n, *src);
        }
        static bool same_layout(const Obj& a, const Obj& b)
        {
            if (a.kind != b.kind) return false;
            if (a.kind != Kind::TYPED) return true;
            return a.t->k == b.t->k && (a.t->k != K::DICT || a.t->aux == b.t->aux);
        }
        void assign_step(const Op& op, bool move)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return live(x) && !(move && x.kind == Kind::TYPED && x.view && false); });
            if (!src) return;
            Obj* dst = pick(op.b, [&](Obj& x) { return &x != src && x.kind != Kind::PAIR && same_layout(x, *src); });
            if (!dst) return;
            const u64 su = src->uid, du = dst->uid;
            // what reads through the target (or the source of a move) has to go
            drop_dependents(du, true);
            auto find = [&](u64 u) -> Obj* { for (auto& o : objs) if (o->uid == u) return o.get(); return nullptr; };
            src = find(su);
            if (!src) return;
            if (move) { drop_dependents(su, src->kind != Kind::ARR); src = find(su); }
            dst = find(du);
            if (!src || !dst) return;
            vlog("  %s assignment of %s to %s%s\n", move ? "move" : "copy", src->t ? show(*src->t).c_str() : "batch", dst->t ? show(*dst->t).c_str() : "batch", dst->zombie ? " (moved from)" : "");
            op_mask = L03;
            auto go = [&]
            {
                if (move)
                {
                    if (src->kind == Kind::ARR) *dst->arr = std::move(*src->arr);
                    else if (src->kind == Kind::TYPED) dst->typed->massign(*src->typed);
                    else *dst->batch = std::move(*src->batch);
                }
                else
                {
                    if (src->kind == Kind::ARR) *dst->arr = std::as_const(*src->arr);
                    else if (src->kind == Kind::TYPED) dst->typed->assign(*src->typed);
                    else *dst->batch = std::as_const(*src->batch);
                }
            };
            std::string what;
            Res r = guarded(op, go, &what);
            if (r == Res::threw) viol(op_mask | (src->kind == Kind::BATCH ? u32(S03) : s02(*src->t)), "unexpected-exception", what);
            if (r == Res::nomem)
            {
                step_fault = any_fault = true;
                dst->zombie = dst->hurt = true; // destructible and assignable, nothing more is known
                if (move) src->zombie = src->hurt = true;
                verify_all();
                if (move) return;
                Op again = op;
                again.fault = 0;
                r = guarded(again, go, &what);
                if (r != Res::ok) viol(op_mask | fault_prop, "retry-fails", what);
            }
            dst->zombie = false;
            dst->fresh = true;
            dst->mask = L03 | (src->kind == Kind::BATCH ? u32(S03) : s02(*src->t));
            dst->t = src->t;
            dst->v = src->v;
            dst->names = src->names;
            dst->types = src->types;
            dst->cols = src->cols;
            dst->deps.clear();
            dst->view = false;
            if (move)
            {
                dst->own_a = src->own_a;
                dst->own_s = src->own_s;
                dst->mut = src->mut;
                dst->still = src->still;
                dst->view = src->view;
                dst->deps = src->deps;
                src->zombie = true;
                src->deps.clear();
                hand_on(su, du);
            }
            else
            {
                dst->own_a = dst->own_s = true;
                dst->mut = true;
                dst->still = false;
                inherit(dst, *src);
            }
        }
        void self_assign_step(const Op& op)
        {
            Obj* o = pick(op.a, [&](Obj& x) { return live(x) && !has_dependents(x.uid); });
            if (!o) return;
            op_mask = L03;
            std::string what;
            Res r = guarded(op, [&]
            {
                if (o->kind == Kind::ARR) { auto& x = *o->arr; *o->arr = x; }
                else if (o->kind == Kind::TYPED) o->typed->assign(*o->typed);
                else { auto& x = *o->batch; *o->batch = x; }
            }, &what);
            if (r == Res::threw) viol(op_mask, "unexpected-exception", what);
            o->fresh = true;
            o->mask = L03 | (o->kind == Kind::BATCH ? u32(S03) : s02(*o->t));
            if (r == Res::nomem) { step_fault = any_fault = true; o->zombie = o->hurt = true; return; }
            // a copy owns what it copied, an implementation may or may not copy here
            const bool before = o->own_a && o->own_s;
            if (o->kind == Kind::ARR) { o->own_a = sp::owns_arrow_array(*o->arr); o->own_s = sp::owns_arrow_schema(*o->arr); }
            else if (o->kind == Kind::TYPED) { o->own_a = o->typed->owns_a(); o->own_s = o->typed->owns_s(); }
            if (!before && o->own_a && o->own_s) o->mut = true;
        }
        void move_step(const Op& op)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return live(x); });
            if (!src) return;
            const u64 su = src->uid;
            drop_dependents(su, src->kind != Kind::ARR);
            src = pick(0, [&](Obj& x) { return x.uid == su; });
            if (!src) return;
            op_mask = L03;
            std::optional<sp::array> arr;
            std::optional<sp::record_batch> batch;
            TypedP ty;
            std::string what;
            Res r = guarded(op, [&]
            {
                if (src->kind == Kind::ARR) arr.emplace(std::move(*src->arr));
                else if (src->kind == Kind::TYPED) ty = src->typed->steal();
                else batch.emplace(std::move(*src->batch));
            }, &what);
            if (r == Res::threw) viol(op_mask, "unexpected-exception", what);
            src->zombie = true;
            if (r == Res::nomem) { step_fault = any_fault = true; src->hurt = true; return; }
            Obj* n = add(src->kind, src->t, src->v, src->kind == Kind::BATCH ? L03 | S03 : L03 | s02(*src->t));
            n->arr = std::move(arr);
            n->typed = std::move(ty);
            if (batch) { Scope s; n->batch.emplace(std::move(*batch)); }
            n->names = src->names;
            n->types = src->types;
            n->cols = src->cols;
            n->own_a = src->own_a;
            n->own_s = src->own_s;
            n->mut = src->mut;
            n->still = src->still;
            n->view = src->view;
            n->deps = src->deps;
            src->deps.clear();
            hand_on(su, n->uid);
        }
        void slice_step(const Op& op, Rng& g, bool view)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return live(x) && (x.kind == Kind::ARR || (x.kind == Kind::TYPED && x.typed->can_slice())); });
            if (!src) return;
            std::size_t n = src->v.size(), i = g.below(u32(n) + 1), j = i + g.below(u32(n - i) + 1);
            if (g.chance(1, 4)) j = n;
            if (g.chance(1, 6)) i = 0;
            vlog("  slice%s %zu..%zu of %s length %zu\n", view ? " view" : "", i, j, show(*src->t).c_str(), n);
            std::optional<sp::array> arr;
            TypedP ty;
            op_mask = L03 | S01;
            attempt(op, [&]
            {
                if (src->kind == Kind::ARR) arr.emplace(view ? std::as_const(*src->arr).slice_view(i, j) : std::as_const(*src->arr).slice(i, j));
                else ty = src->typed->slice(i, j, view);
            });
            Vals v(src->v.begin() + long(i), src->v.begin() + long(j));
            Obj* o = add(src->kind, src->t, v, S01 | (view ? 0u : u32(L03)) | s02(*src->t));
            o->arr = std::move(arr);
            o->typed = std::move(ty);
            o->mut = !view;
            o->hurt = step_fault;
            o->view = view;
            if (view) o->deps.push_back({src->uid, true});
        }
        void nest_step(const Op& op, Rng& g)
        {
            fault_prop = F02 | F01;
            std::vector<Obj*> c;
            for (auto& o : objs) if (o->kind == Kind::ARR && live(*o) && !(o->view && !o->deps.empty())) c.push_back(o.get());
            if (c.empty()) return;
            Obj* s = c[op.a % c.size()];
            auto t = std::make_shared<Ty>();
            static const K all[] = {K::LIST, K::LLIST, K::LV, K::LLV, K::FSL, K::STRUCT, K::DU, K::SU, K::DICT, K::REE};
            t->k = all[op.b % 10];
            if (t->k == K::DICT && (s->t->k == K::DICT || s->t->k == K::REE)) t->k = K::STRUCT;
            if (height(*s->t) >= 4) return;
            Vals v;
            const Vals& sv = s->v;
            const std::size_t n = sv.size();
            std::vector<Obj*> kids{s};
            op_mask = L03;
            std::vector<sp::array> ka;
            TypedP ty;
            u64 how = g.next();
            std::vector<std::size_t> sizes, starts;
            std::vector<bool> valid;
            std::vector<u8> ids;
            std::vector<u32> offs, keys;
            Vals ends;
            u32 w = 1 + g.below(3);
            // logical value
            auto fresh = [&](bool null) { Val x; x.null = null; return x; };
            switch (t->k)
            {
                case K::LIST: case K::LLIST:
                {
                    std::size_t at = 0;
                    while (at < n || g.chance(1, 3))
                    {
                        std::size_t k = std::min<std::size_t>(n - at, g.below(4));
                        Val x = fresh(g.chance(1, 5));
                        if (!x.null) x.kids.assign(sv.begin() + long(at), sv.begin() + long(at + k));
                        v.push_back(x);
                        sizes.push_back(k);
                        valid.push_back(!x.null);
                        at += k;
                        if (v.size() > 40) break;
                    }
                    break;
                }
                case K::LV: case K::LLV:
                {
                    std::size_t m = g.below(6);
                    for (std::size_t i = 0; i < m; ++i)
                    {
                        std::size_t b = g.below(u32(n) + 1), k = g.below(u32(n - b) + 1);
                        Val x = fresh(g.chance(1, 5));
                        if (!x.null) x.kids.assign(sv.begin() + long(b), sv.begin() + long(b + k));
                        v.push_back(x);
                        starts.push_back(b);
                        sizes.push_back(k);
                        valid.push_back(!x.null);
                    }
                    break;
                }
                case K::FSL:
                    for (std::size_t i = 0; i < n / w; ++i)
                    {
                        Val x = fresh(g.chance(1, 5));
                        if (!x.null) x.kids.assign(sv.begin() + long(i * w), sv.begin() + long((i + 1) * w));
                        v.push_back(x);
                        valid.push_back(!x.null);
                    }
                    t->width = w;
                    break;
                case K::STRUCT: case K::SU:
                {
                    for (Obj* o : c) if (o != s && o->v.size() == n && kids.size() < 3 && g.chance(2, 3)) kids.push_back(o);
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        Val x = fresh(t->k == K::STRUCT && g.chance(1, 5));
                        valid.push_back(!x.null);
                        x.alt = g.below(u32(kids.size()));
                        ids.push_back(u8(x.alt * 3));
                        if (t->k == K::SU) x.kids = {kids[x.alt]->v[i]};
                        else if (!x.null) for (Obj* o : kids) x.kids.push_back(o->v[i]);
                        v.push_back(x);
                    }
                    break;
                }
                case K::DU:
                {
                    for (Obj* o : c) if (o != s && kids.size() < 3 && g.chance(2, 3)) kids.push_back(o);
                    std::size_t m = g.below(8);
                    for (std::size_t i = 0; i < m; ++i)
                    {
                        u32 alt = g.below(u32(kids.size()));
                        if (kids[alt]->v.empty()) continue;
                        u32 off = g.below(u32(kids[alt]->v.size()));
                        Val x = fresh(false);
                        x.alt = alt;
                        x.kids = {kids[alt]->v[off]};
                        v.push_back(x);
                        ids.push_back(u8(alt * 3));
                        offs.push_back(off);
                    }
                    break;
                }
                case K::DICT:
                {
                    std::size_t m = g.below(8);
                    t->aux = key_type(g, n > 100);
                    for (std::size_t i = 0; i < m; ++i)
                    {
                        bool null = n == 0 || g.chance(1, 5);
                        u32 k = n ? g.below(u32(n)) : 0;
                        keys.push_back(k);
                        valid.push_back(!null);
                        v.push_back(null ? Val() : sv[k]);
                    }
                    break;
                }
                default: // REE
                {
                    std::size_t at = 0;
                    for (std::size_t i = 0; i < n; ++i)
                    {
                        std::size_t k = 1 + g.below(3);
                        for (std::size_t z = 0; z < k; ++z) v.push_back(sv[i]);
                        at += k;
                        Val e = fresh(false);
                        e.bits = at;
                        ends.push_back(e);
                    }
                    static const K re[] = {K::I16, K::I32, K::I64, K::U16, K::U32, K::U64};
                    t->kids.push_back(flat_type(re[g.below(6)]));
                }
            }
            for (Obj* o : kids) t->kids.push_back(o->t);
            if (is_union(t->k)) for (std::size_t i = 0; i < kids.size(); ++i) t->ids.push_back(u8(i * 3));
            vlog("  nest as %s length %zu\n", show(*t).c_str(), v.size());
            attempt(op, [&]
            {
                Rng h(how);
                std::vector<sp::array> k;
                for (Obj* o : kids) k.push_back(*o->arr);
                ty = assemble(*t, std::move(k), sizes, starts, valid, ids, offs, keys, ends, h);
            });
            bool typed = op.c & 1;
            Obj* o = add(Kind::TYPED, t, v, S02 | L03 | F02);
            o->typed = std::move(ty);
            o->mut = true;
            o->hurt = step_fault;
            if (!typed)
            {
                std::optional<sp::array> a;
                lib([&] { a.emplace(o->typed->wrap_move()); o->typed.reset(); });
                o->kind = Kind::ARR;
                o->arr = std::move(a);
            }
        }
        template <class L, class... A> static TypedP construct(A&&... a) { return TypedL<L>::make(std::make_shared<L>(std::forward<A>(a)...)); }
        static TypedP assemble(const Ty& t, std::vector<sp::array>&& k, const std::vector<std::size_t>& sizes, const std::vector<std::size_t>& starts, const std::vector<bool>& valid,
                               const std::vector<u8>& ids, const std::vector<u32>& offs, const std::vector<u32>& keys, const Vals& ends, Rng& h);

        void extract_step(const Op& op, bool part)
        {
            Obj* o = pick(op.a, [&](Obj& x) { return live(x) && x.kind != Kind::BATCH && !x.view; });
            if (!o) return;
            const u64 ou = o->uid;
            if (o->own_a && o->own_s) drop_dependents(ou, true);
            o = pick(0, [&](Obj& x) { return x.uid == ou; });
            if (!o) return;
            op_mask = L02 | L03;
            if (part)
            {
                bool array = op.b & 1;
                bool ok = array ? o->own_a : o->own_s;
                if (ok) { drop_dependents(ou, true); o = pick(0, [&](Obj& x) { return x.uid == ou; }); if (!o) return; }
                ArrowArray a{};
                ArrowSchema s{};
                std::string what;
                Res r = guarded(op, [&]
                {
                    if (array) a = o->kind == Kind::ARR ? sp::extract_arrow_array(std::move(*o->arr)) : o->typed->extract_a();
                    else s = o->kind == Kind::ARR ? sp::extract_arrow_schema(std::move(*o->arr)) : o->typed->extract_s();
                }, &what);
                if (r == Res::nomem) { step_fault = any_fault = true; return; }
                INTER_CHECK((r == Res::ok) == ok, L01 | L02, "extract-ownership", ok ? "extraction of an owned structure refused: " + what : std::string("extraction of a borrowed structure succeeds"));
                if (!ok) return;
                o->zombie = true;
                if (array)
                {
                    INTER_CHECK(a.release != nullptr, L02 | L01, "extract-released", "the extracted array is released");
                    const TyP t = o->t;
                    const Vals expected = o->v;
                    if (op.c & 1) destroy(o);
                    Vals v = read_all(a, *t);
                    for (std::size_t i = 0; i < expected.size(); ++i) INTER_CHECK(i < v.size() && same(*t, v[i], expected[i]), L02, "export-value", "extracted array differs");
                    release_array(&a);
                }
                else
                {
                    INTER_CHECK(s.release != nullptr && s.format && format_of(*o->t) == s.format, L02 | L01, "extract-released", "the extracted schema is released or has another format");
                    release_schema(&s);
                }
                return;
            }
            const bool ok = o->own_a && o->own_s;
            std::pair<ArrowArray, ArrowSchema> st{};
            std::string what;
            Res r = guarded(op, [&] { st = o->kind == Kind::ARR ? sp::extract_arrow_structures(std::move(*o->arr)) : o->typed->extract(); }, &what);
            if (r == Res::nomem) { step_fault = any_fault = true; return; }
            INTER_CHECK((r == Res::ok) == ok, L01 | L02, "extract-ownership", ok ? "extraction of owned structures refused: " + what : std::string("extraction of borrowed structures succeeds"));
            if (!ok) return;
            vlog("  extracted %s length %zu\n", show(*o->t).c_str(), o->v.size());
            INTER_CHECK(st.first.release && st.second.release, L02 | L01, "extract-released", "extracted structures are released");
            o->zombie = true;
            auto p = std::make_unique<Pair>();
            p->a = st.first;
            p->s = st.second;
            Obj* n = add(Kind::PAIR, o->t, o->v, L02 | L01);
            n->mut = o->mut;
            n->pair = std::move(p);
            if (op.b & 1) destroy(o);
        }
        void child_step(const Op& op)
        {
            Obj* o = pick(op.a, [&](Obj& x) { return x.kind == Kind::PAIR && !x.zombie && !x.t->kids.empty() && !has_dependents(x.uid); });
            if (!o) return;
            Pair& p = *o->pair;
            op_mask = L02 | L03;
            const bool dict = o->t->k == K::DICT;
            std::size_t c = dict ? 0 : op.b % o->t->kids.size();
            ArrowArray* ka = dict ? p.a.dictionary : p.a.children[c];
            ArrowSchema* ks = dict ? p.s.dictionary : p.s.children[c];
            Vals v = read_all(*ka, *o->t->kids[c]);
            auto q = std::make_unique<Pair>();
            q->foreign = p.foreign;
            q->root = p.root;
            q->a = *ka;
            q->s = *ks;
            ka->release = nullptr;
            ks->release = nullptr;
            vlog("  consumer moves %s %zu of %s out\n", dict ? "dictionary" : "child", c, show(*o->t).c_str());
            Obj* n = add(Kind::PAIR, o->t->kids[c], v, L02);
            n->mut = o->mut;
            n->pair = std::move(q);
            o->zombie = true;
            if (op.c & 1) destroy(o, op.c & 2);
        }
        void wrap_step(const Op& op)
        {
            Obj* src = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::TYPED && !x.view && x.t->k != K::STRV && x.t->k != K::BINV; });
            if (!src) return;
            u32 mode = op.b % 3;
            const u64 su = src->uid;
            if (mode == 0) drop_dependents(su, true);
            src = pick(0, [&](Obj& x) { return x.uid == su; });
            if (!src) return;
            op_mask = L03;
            std::optional<sp::array> a;
            std::string what;
            vlog("  wrap %s by %s\n", show(*src->t).c_str(), mode == 0 ? "move" : mode == 1 ? "pointer" : "shared pointer");
            Res r = guarded(op, [&] { a.emplace(mode == 0 ? src->typed->wrap_move() : mode == 1 ? src->typed->wrap_ptr() : src->typed->wrap_shared()); }, &what);
            if (r == Res::threw) viol(L03 | S02, "unexpected-exception", what);
            if (r == Res::nomem)
            {
                step_fault = any_fault = true;
                if (mode == 0) src->zombie = src->hurt = true;
                return;
            }
            Obj* n = add(Kind::ARR, src->t, src->v, S02 | L03);
            n->arr = std::move(a);
            n->own_a = src->own_a;
            n->own_s = src->own_s;
            n->mut = src->mut;
            n->deps = src->deps;
            if (mode == 0) { src->zombie = true; src->deps.clear(); n->view = src->view; }
            else { n->view = true; n->deps.push_back({su, true}); }
        }
        static bool buildable(const Ty& t)
        {
            if ((t.k == K::FSL && !t.width) || (t.k == K::STRUCT && t.kids.empty()) || t.k == K::BINV) return false;
            for (auto& k : t.kids) if (!buildable(*k)) return false;
            return true;
        }
        // another array with the same elements, or all but one
        void near_miss(Obj& a, Rng& g, u32 m)
        {
            Vals v = a.v;
            const u32 how = g.below(4);
            if (how == 1 && !v.empty()) v[g.below(u32(v.size()))] = gen_val(*a.t, g, 1, 3);
            else if (how == 2) v.push_back(gen_val(*a.t, g, 1, 3));
            else if (how == 3 && !v.empty()) v.pop_back();
            if (a.kind == Kind::ARR && a.t->k == K::STRV) return;
            bool eq;
            {
                Scope s;
                Rng h(g.next());
                if (a.kind == Kind::ARR) { sp::array b = build_array(*a.t, v, h); eq = *a.arr == b; READ_EQ(b == *a.arr, eq, m); }
                else { TypedP b = build_typed(*a.t, v, h); eq = a.typed->equal(*b); READ_EQ(b->equal(*a.typed), eq, m); }
            }
            const bool expect = arrays_equal(*a.t, a.v, *a.t, v);
            INTER_CHECK(eq == expect, m, "equality", std::string(eq ? "equal" : "unequal") + " although the elements are " + (expect ? "equal" : "not") + " (" + show(*a.t) + " and a changed copy)");
        }
        static void READ_EQ(bool x, bool y, u32 m) { INTER_CHECK(x == y, m, "equality", "== is not symmetric"); }
        void equal_step(const Op& op, Rng& g)
        {
            Obj* a = pick(op.a, [&](Obj& x) { return live(x) && (!x.t || x.t->k != K::BINV); });
            if (!a) return;
            Obj* b = pick(op.b, [&](Obj& x) { return live(x) && x.kind == a->kind && same_layout(*a, x); });
            if (!b) return;
            op_mask = L03 | L04;
            bool eq = false;
            attempt(op, [&]
            {
                if (a->kind == Kind::ARR) eq = *a->arr == *b->arr;
                else if (a->kind == Kind::TYPED) eq = a->typed->equal(*b->typed);
                else eq = *a->batch == *b->batch;
            });
            bool expect;
            u32 m = 0;
            if (a->kind == Kind::BATCH)
            {
                expect = a->names == b->names;
                for (std::size_t i = 0; expect && i < a->cols.size(); ++i) expect = arrays_equal(*a->types[i], a->cols[i], *b->types[i], b->cols[i]);
                m = S03;
            }
            else
            {
                expect = arrays_equal(*a->t, a->v, *b->t, b->v);
                m = S02 | L03;
                if (!nested(*a->t)) m |= L04;
            }
            note(eq);
            if (a->t && buildable(*a->t) && g.chance(1, 2)) near_miss(*a, g, m);
            INTER_CHECK(eq == expect, m, "equality", std::string(eq ? "equal" : "unequal") + " although the elements are " + (expect ? "equal" : "not") + " (" + (a->t ? show(*a->t) : "record batch") + ", " + (b->t ? show(*b->t) : "") + ")");
        }
        void read_step(const Op& op)
        {
            Obj* o = pick(op.a, [&](Obj& x) { return live(x) && x.kind != Kind::BATCH; });
            if (!o) return;
            op_mask = L03 | L04;
            g_blame = {L03 | s02(*o->t), "read"};
            attempt(op, [&]
            {
                if (o->kind == Kind::ARR) read_array(*o->arr, *o->t, o->v);
                else o->typed->read(*o->t, o->v);
            });
        }
        // an element of a child of a nested layout is assigned in place
        bool mutate_child_step(const Op& op, Rng& g)
        {
            Obj* o = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::TYPED && x.mut && !x.still && !x.view && (is_list(x.t->k) || x.t->k == K::STRUCT); });
            if (!o) return false;
            const u64 ou = o->uid;
            drop_dependents(ou, true);
            o = pick(0, [&](Obj& x) { return x.uid == ou; });
            if (!o) return false;
            op_mask = L03;
            std::string what;
            bool done = false;
            Op calm = op;
            calm.fault = 0;
            const u64 r = g.next();
            Res res = guarded(calm, [&] { done = o->typed->mutate_child(*o->t, r); }, &what);
            if (res == Res::threw) viol(L03 | S02, "unexpected-exception", what);
            vlog("  child of %s: %s\n", show(*o->t).c_str(), done ? "element assigned" : "nothing to assign");
            if (!done) return true;
            // which rows show the element is left to the independent reader; the other objects must not change
            o->v = read_all(*o->typed->structures().first, *o->t);
            o->fresh = true;
            o->mask = L03 | S02;
            count("child-element-assigned");
            return true;
        }
        void mutate_step(const Op& op, Rng& g)
        {
            if ((op.c & 1) && mutate_child_step(op, g)) return;
            Obj* o = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::TYPED && !x.still && x.typed->can_mutate(); });
            if (!o) return;
            const u64 ou = o->uid;
            drop_dependents(ou, true);
            o = pick(0, [&](Obj& x) { return x.uid == ou; });
            if (!o) return;
            op_mask = L03;
            Vals before = o->v;
            bool done = o->typed->mutate(*o->t, o->v, g.next(), !o->mut);
            vlog("  mutation of %s length %zu -> %zu%s\n", show(*o->t).c_str(), before.size(), o->v.size(), done ? "" : " refused");
            if (o->mut) INTER_CHECK(done, L03 | S01, "mutation-refused", "an object with its own storage refuses a mutation");
            else INTER_CHECK(!done || before.size() == 0, L04, "mutation-allowed", "a mutation of data which was not created by the library is not refused");
            if (!done) { count("refused-mutation"); o->v = before; o->fresh = true; o->mask = L04; }
            else { o->fresh = true; o->mask = L03; }
        }
        // a record batch of the columns of another one: in the same order or not, under the same names or not
        void derived_batch(const Op& op, Rng& g, Obj& src)
        {
            const std::size_t n = src.names.size();
            std::vector<std::size_t> order;
            for (std::size_t i = 0; i < n; ++i) order.push_back(i);
            std::vector<std::string> names = src.names;
            auto shuffle = [&](auto& x) { for (std::size_t i = x.size(); i > 1; --i) std::swap(x[i - 1], x[g.below(u32(i))]); };
            const u32 how = op.b % 6;
            if (how == 1 || how == 2) shuffle(order);
            if (how == 2) { names.clear(); for (auto i : order) names.push_back(src.names[i]); } // pairs stay together
            if (how == 3) shuffle(names);
            if (how == 4 && n) { order.pop_back(); names.pop_back(); }
            if (how == 5 && n && std::find(names.begin(), names.end(), "renamed") == names.end()) names[g.below(u32(n))] = "renamed";
            std::optional<sp::record_batch> b;
            op_mask = L03 | S03;
            attempt(op, [&]
            {
                std::vector<sp::array> cols;
                for (auto i : order) cols.push_back(std::as_const(*src.batch).get_column(i));
                b.emplace(names, std::move(cols));
            });
            Obj* o = add(Kind::BATCH, nullptr, {}, S03);
            { Scope s; o->batch.emplace(std::move(*b)); b.reset(); }
            o->names = names;
            for (auto i : order) { o->types.push_back(src.types[i]); o->cols.push_back(src.cols[i]); }
            o->mut = true;
            o->hurt = step_fault;
            bool eq, qe, expect = names == src.names;
            { Scope s; eq = *o->batch == *src.batch; qe = *src.batch == *o->batch; }
            for (std::size_t i = 0; expect && i < order.size(); ++i) expect = arrays_equal(*o->types[i], o->cols[i], *src.types[i], src.cols[i]);
            INTER_CHECK(eq == expect && qe == expect, S03, "equality", std::string("record batches compare ") + (eq ? "equal" : "different") + " and " + (qe ? "equal" : "different") + " but are " + (expect ? "equal" : "not"));
        }
        void batch_step(const Op& op, Rng& g)
        {
            if ((op.c & 3) == 0) if (Obj* b = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::BATCH; })) { derived_batch(op, g, *b); return; }
            std::vector<Obj*> c;
            Obj* first = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::ARR && !(x.view && !x.deps.empty()); });
            std::size_t n = first ? first->v.size() : a_length(g);
            if (first) for (auto& o : objs) if (live(*o) && o->kind == Kind::ARR && !(o->view && !o->deps.empty()) && o->v.size() == n && g.chance(2, 3)) c.push_back(o.get());
            if (c.size() > 3) c.resize(3);
            struct Fresh { TyP t; Vals v; u64 how; };
            std::vector<Fresh> extra;
            u32 more = g.below(3);
            for (u32 i = 0; i < more; ++i)
            {
                GenOpts o = type_opts(g, false);
                o.many = n > 50;
                TyP t = gen_type(g, o);
                Vals v = gen_vals(*t, n, g);
                extra.push_back({t, v, g.next()});
            }
            std::vector<std::string> names;
            for (std::size_t i = 0; i < c.size() + extra.size(); ++i)
            {
                std::string s;
                do s = g.chance(1, 10) ? std::string() : g.chance(1, 3) ? "column with a long name " + nn(g.below(100)) : "c" + nn(g.below(100));
                while (std::find(names.begin(), names.end(), s) != names.end());
                names.push_back(s);
            }
            u32 how = op.b % 3;
            std::optional<sp::record_batch> b;
            op_mask = L03 | S03;
            attempt(op, [&]
            {
                std::vector<sp::array> cols;
                for (Obj* o : c) cols.push_back(*o->arr);
                for (auto& e : extra) { Rng h(e.how); cols.push_back(build_array(*e.t, e.v, h)); }
                if (how == 0) b.emplace(names, std::move(cols));
                else if (how == 1)
                {
                    b.emplace(std::as_const(names), cols);
                    // the ranges the batch was built from are left alone
                    if (checks) for (std::size_t i = 0; i < c.size(); ++i) { g_blame = {S03, "a column the batch was built from"}; read_array(cols[i], *c[i]->t, c[i]->v); }
                }
                else if (cols.size() == 2) b.emplace(sp::record_batch::initializer_type{{names[0], cols[0]}, {names[1], cols[1]}});
                else if (cols.size() == 1) b.emplace(sp::record_batch::initializer_type{{names[0], cols[0]}});
                else b.emplace(std::vector<std::string>(names), std::move(cols));
            });
            Obj* o = add(Kind::BATCH, nullptr, {}, S03);
            { Scope s; o->batch.emplace(std::move(*b)); b.reset(); }
            o->names = names;
            for (Obj* x : c) { o->types.push_back(x->t); o->cols.push_back(x->v); }
            for (auto& e : extra) { o->types.push_back(e.t); o->cols.push_back(e.v); }
            o->hurt = step_fault;
        }
        // ---- recorded findings ----------------------------------------------
        struct Raw // a flat array of a foreign producer; nothing is freed by its callbacks
        {
            std::vector<u8> bitmap = std::vector<u8>(64, 0xFF), data = std::vector<u8>(64, 0);
            const void* buffers[2];
            ArrowArray a{};
            ArrowSchema s{};
            Raw(const char* format, i64 length)
            {
                buffers[0] = bitmap.data();
                buffers[1] = data.data();
                a.length = length;
                a.n_buffers = 2;
                a.buffers = buffers;
                a.release = [](ArrowArray* x) { x->release = nullptr; };
                s.format = format;
                s.release = [](ArrowSchema* x) { x->release = nullptr; };
            }
        };
        // Boolean arrays: the specification stores one bit per value, the library one byte
        void bools_step(const Op& op)
        {
            Scope sc;
            if (op.a % 3 == 0)
            {
                Raw r("b", 8);
                r.data[0] = 0b10101010;
                sp::array x(&r.a, &r.s);
                for (std::size_t i = 0; i < 8; ++i)
                    x.visit([&](const auto& l)
                    {
                        if constexpr (std::is_same_v<std::remove_cvref_t<decltype(l)>, sp::primitive_array<bool>>)
                        {
                            u8 b;
                            bool v = l[i].get();
                            std::memcpy(&b, &v, 1);
                            INTER_CHECK(b == (i & 1), L04, "bool-values", "element " + nn((long long) i) + " of an imported boolean array reads as the byte " + nn(b));
                        }
                    });
                return;
            }
            std::vector<bool> v{true, false, true, true, false, false, true, false, true};
            sp::primitive_array<bool> x(v);
            if (op.a % 3 == 1)
            {
                sp::primitive_array<bool> y(x);
                const std::size_t bytes = sp::get_arrow_structures(y).first->n_buffers == 2 ? y_size(y) : 0;
                INTER_CHECK(bytes >= v.size(), L03, "bool-values", "the copy of an array of " + nn((long long) v.size()) + " booleans, stored as bytes, has " + nn((long long) bytes) + " bytes");
                for (std::size_t i = 0; i < v.size(); ++i) INTER_CHECK(y[i].get() == v[i], L03, "bool-values", "element " + nn((long long) i) + " of the copy differs");
                return;
            }
            auto st = sp::get_arrow_structures(x);
            const u8* d = static_cast<const u8*>(st.first->buffers[1]);
            for (std::size_t i = 0; i < v.size(); ++i)
                INTER_CHECK(((d[i / 8] >> (i % 8)) & 1) == v[i], L02, "bool-values", "a reader of the specification reads another element " + nn((long long) i) + " from an exported boolean array");
        }
        static std::size_t y_size(sp::primitive_array<bool>& y) { return sp::detail::array_access::get_arrow_proxy(y).buffers()[1].size(); }
        // Metadata: length-prefixed pairs in the specification, a C string for the library
        void metadata_step()
        {
            Scope sc;
            static const char m[] = "\1\0\0\0\3\0\0\0key\5\0\0\0value"; // of a little-endian producer
            Raw r("i", 2);
            r.s.metadata = m;
            sp::arrow_proxy p(&r.a, &r.s);
            sp::arrow_proxy q(p);
            INTER_CHECK(q.metadata().has_value() && *q.metadata() == std::string_view(m, sizeof(m) - 1), L03, "metadata-truncated", "the copy of a schema keeps " + nn((long long) q.metadata()->size()) + " of " + nn((long long) sizeof(m) - 1) + " bytes of metadata");
        }
        void column_step(const Op& op) // a copy of a column of a batch becomes an array
        {
            Obj* b = pick(op.a, [&](Obj& x) { return live(x) && x.kind == Kind::BATCH && !x.names.empty(); });
            if (!b) return;
            std::size_t i = op.b % b->names.size();
            std::optional<sp::array> a;
            op_mask = L03 | S03;
            attempt(op, [&] { a.emplace(op.c & 1 ? b->batch->get_column(i) : b->batch->get_column(b->names[i])); });
            Obj* n = add(Kind::ARR, b->types[i], b->cols[i], L03 | S03);
            n->arr = std::move(a);
            n->mut = true;
        }

        void steps(const std::vector<Op>& ops, std::size_t first = 0)
        {
            for (std::size_t i = 0; i < ops.size(); ++i)
            {
                const Op& op = ops[i];
                set_op(first + i, (prefix + name_of(op.code)).c_str());
                count(("op:" + std::string(name_of(op.code))).c_str());
                vlog("%s[%zu] %s a=%u b=%u c=%u fault=%u%s\n", prefix.c_str(), first + i, name_of(op.code), op.a, op.b, op.c, op.fault, op.sustain ? "+" : "");
                step_fault = false;
                fault_prop = F01;
                step(op);
                verify_all();
            }
        }
        void teardown(std::size_t index, u64 config)
        {
            set_op(index, (prefix + "finish").c_str());
            step_fault = false;
            while (!objs.empty()) { destroy(objs[mix64(config + objs.size()) % objs.size()].get(), config & 1); check_foreign_memory(0); }
            set_op(index + 1, (prefix + "end").c_str());
            check_all_released(any_fault ? u32(F01) | F02 : 0u);
        }
        static void check_leaks(bool faults)
        {
            const u32 extra = faults ? u32(F01) | F02 : 0u;
            AllocStats st = alloc_stats();
            if (st.live_blocks) viol(L01 | extra, "leak", nn((long long) st.live_blocks) + " blocks of the library are never freed: " + describe_live_blocks());
        }
        void run(const Program& p) override
        {
            steps(p.ops);
            teardown(p.ops.size(), p.config);
            check_leaks(any_fault);
        }
    };
    template <class F>
    static auto with_validity(const std::vector<bool>& b, Rng& g, F&& f)
    {
        u32 form = g.below(3);
        if (form == 0) return f(b);
        sp::validity_bitmap bm(b.size(), true);
        for (std::size_t i = 0; i < b.size(); ++i) if (!b[i]) bm.set(i, false);
        if (form == 2) return f(std::move(bm));
        const sp::validity_bitmap& c = bm;
        return f(c);
    }
    TypedP Inter::assemble(const Ty& t, std::vector<sp::array>&& k, const std::vector<std::size_t>& sizes, const std::vector<std::size_t>& starts, const std::vector<bool>& valid,
                           const std::vector<u8>& ids, const std::vector<u32>& offs, const std::vector<u32>& keys, const Vals& ends, Rng& h)
    {
        auto list = [&](auto tag)
        {
            using L = typename decltype(tag)::type;
            auto off = L::offset_from_sizes(sizes);
            return with_validity(valid, h, [&](auto&& bm) { return construct<L>(std::move(k[0]), std::move(off), std::forward<decltype(bm)>(bm)); });
        };
        auto view = [&](auto tag)
        {
            using L = typename decltype(tag)::type;
            typename L::offset_buffer_type o(sizes.size());
            typename L::size_buffer_type z(sizes.size());
            for (std::size_t i = 0; i < sizes.size(); ++i) { o[i] = std::remove_cvref_t<decltype(o[i])>(starts[i]); z[i] = std::remove_cvref_t<decltype(z[i])>(sizes[i]); }
            return with_validity(valid, h, [&](auto&& bm) { return construct<L>(std::move(k[0]), std::move(o), std::move(z), std::forward<decltype(bm)>(bm)); });
        };
        auto dict = [&](auto z)
        {
            using I = decltype(z);
            sp::u8_buffer<I> kb(keys.size());
            for (std::size_t i = 0; i < keys.size(); ++i) kb[i] = I(keys[i]);
            return with_validity(valid, h, [&](auto&& bm) { return construct<sp::dictionary_encoded_array<I>>(std::move(kb), std::move(k[0]), std::forward<decltype(bm)>(bm)); });
        };
        switch (t.k)
        {
            case K::LIST: return list(std::type_identity<sp::list_array>());
            case K::LLIST: return list(std::type_identity<sp::big_list_array>());
            case K::LV: return view(std::type_identity<sp::list_view_array>());
            case K::LLV: return view(std::type_identity<sp::big_list_view_array>());
            case K::FSL: return with_validity(valid, h, [&](auto&& bm) { return construct<sp::fixed_sized_list_array>(std::uint64_t(t.width), std::move(k[0]), std::forward<decltype(bm)>(bm)); });
            case K::STRUCT: return with_validity(valid, h, [&](auto&& bm) { return construct<sp::struct_array>(std::move(k), std::forward<decltype(bm)>(bm)); });
            case K::DU: case K::SU:
            {
                sp::u8_buffer<std::uint8_t> ib(ids.size());
                for (std::size_t i = 0; i < ids.size(); ++i) ib[i] = ids[i];
                if (t.k == K::SU) return construct<sp::sparse_union_array>(std::move(k), std::move(ib), std::vector<std::uint8_t>(t.ids));
                sp::u8_buffer<std::uint32_t> ob(offs.size());
                for (std::size_t i = 0; i < offs.size(); ++i) ob[i] = offs[i];
                return construct<sp::dense_union_array>(std::move(k), std::move(ib), std::move(ob), std::vector<std::uint8_t>(t.ids));
            }
            case K::DICT:
                switch (t.aux)
                {
                    case K::I8: return dict(std::int8_t());
                    case K::U8: return dict(std::uint8_t());
                    case K::I16: return dict(std::int16_t());
                    case K::U16: return dict(std::uint16_t());
                    case K::I32: return dict(std::int32_t());
                    case K::U32: return dict(std::uint32_t());
                    case K::I64: return dict(std::int64_t());
                    default: return dict(std::uint64_t());
                }
            default: // REE
            {
                sp::array e = build_array(*t.kids[0], ends, h);
                return construct<sp::run_end_encoded_array>(std::move(e), std::move(k[0]));
            }
        }
    }
}
namespace sim
{
    World* make_inter(const std::string& profile)
    {
        using namespace inter;
        static const std::pair<const char*, u32> m[] = {{"L01", L01}, {"L02", L02}, {"L03", L03}, {"L04", L04}, {"F01", F01}, {"F02", F02}, {"S01", S01}, {"S02", S02}, {"S03", S03}, {"ALL", ANY}};
        for (auto& [n, x] : m)
            if (profile == n) { set_interest(x); return new Inter(profile); }
        return nullptr;
    }
}
