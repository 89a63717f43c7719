// World for M01, M02, M06, F03: mutable arrays (primitive, string) against a vector of optionals.
#pragma once
#include "common.hpp"
#include "worlds.hpp"
#include <algorithm>
#include <cstring>
#include <iterator>
#include <memory>
#include <sparrow/array.hpp>
#include <sparrow/layout/array_access.hpp>
#include <sparrow/layout/primitive_array.hpp>
#include <sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp>

namespace sim::mut
{
    enum Code { CTOR, COPY, MOVE, ASSIGN, MASSIGN, SLICE, REBUILD, SETV, SETNULL, SETOPT, SETFROM, ITERSET, PUSH, POP, INS1, INSN, INSR, INSIL,
                ER1, ERR, RESIZE, EQ, IMPORT, SETREF, CMPE, SWAPE, NCODES };
    inline const std::vector<OpInfo>& infos()
    {
        static const std::vector<OpInfo> v = {
            {"ctor", 6}, {"copy", 3}, {"move", 1}, {"copy_assign", 3}, {"move_assign", 2}, {"slice", 4}, {"export_rebuild", 3}, {"set_value", 8},
            {"set_null", 6}, {"set_nullable", 5}, {"set_from_element", 4}, {"iterator_set", 4}, {"push_back", 10}, {"pop_back", 5}, {"insert_one", 8},
            {"insert_n", 6}, {"insert_range", 6}, {"insert_ilist", 2}, {"erase_one", 6}, {"erase_range", 6}, {"resize", 8}, {"equal", 2},
            {"import_structures", 5}, {"set_from_reference", 5}, {"compare_elements", 2},
            {"swap_elements", 3}};
        return v;
    }

    // Tr: A (array), V (value), gen(Rng&), same(V,V), check_export(...)
    template <class Tr>
    struct Runner
    {
        using A = typename Tr::A;
        using V = typename Tr::V;
        using OV = std::optional<V>;
        using NV = sparrow::nullable<V>;
        using Model = std::vector<OV>;
        struct Slot
        {
            std::unique_ptr<A> a;
            Model m;
            bool valued = true;
        };
        Slot s[3];
        bool exports;
        bool writable_reads = true; // reading through references that could write makes the array forget its null count
        explicit Runner(bool e) : exports(e) {}

        void drop(Slot& x)
        {
            lib([&] { x.a.reset(); });
            x.m.clear();
            x.valued = true;
        }
        static std::string show(const OV& v) { return v ? Tr::show(*v) : std::string("null"); }
        template <class N>
        static OV read(const N& n)
        {
            if (!n.has_value()) return std::nullopt;
            return Tr::val(n.get());
        }
        static bool eq(const OV& a, const OV& b)
        {
            return a.has_value() == b.has_value() && (!a || Tr::same(*a, *b));
        }
        void cmp(const OV& got, const OV& want, const char* kind, std::size_t i, const char* where, const Model& m)
        {
            if (!eq(got, want))
                fail(kind, std::string(where) + ": element " + num((long long) i) + " of " + num((long long) m.size()) + " is " + show(got) + ", expected " + show(want));
        }
        void check(Slot& x, const char* where)
        {
            if (!x.a || !x.valued) return;
            const A& c = *x.a;
            A& a = *x.a;
            auto& m = x.m;
            if (exports) check_export(x, where);
            SIM_CHECK(c.size() == m.size(), "array-size", std::string(where) + ": size " + num(c.size()) + " expected " + num(m.size()));
            SIM_CHECK(c.empty() == m.empty(), "array-empty", where);
            for (std::size_t i = 0; i < m.size(); ++i)
            {
                cmp(read(c[i]), m[i], "array-index", i, where, m);
                if (writable_reads) cmp(read(a[i]), m[i], "array-ref", i, where, m);
            }
            if (!m.empty())
            {
                std::size_t k = m.size() / 2;
                cmp(read(c.at(k)), m[k], "array-at", k, where, m);
                cmp(read(c.front()), m.front(), "array-front", 0, where, m);
                cmp(read(c.back()), m.back(), "array-back", m.size() - 1, where, m);
            }
            std::size_t n = 0;
            for (auto it = c.cbegin(); it != c.cend(); ++it, ++n)
            {
                SIM_CHECK(n < m.size(), "array-iteration", std::string(where) + ": does not end");
                cmp(read(*it), m[n], "array-iteration", n, where, m);
            }
            SIM_CHECK(n == m.size(), "array-iteration", std::string(where) + ": " + num(n) + " elements instead of " + num(m.size()));
            n = 0;
            if (writable_reads) for (auto it = a.begin(); it != a.end(); ++it, ++n)
            {
                SIM_CHECK(n < m.size(), "array-mutable-iteration", std::string(where) + ": does not end");
                cmp(read(*it), m[n], "array-mutable-iteration", n, where, m);
            }
            n = m.size();
            for (auto it = c.crbegin(); it != c.crend(); ++it)
            {
                SIM_CHECK(n > 0, "array-reverse-iteration", std::string(where) + ": does not end");
                --n;
                cmp(read(*it), m[n], "array-reverse-iteration", n, where, m);
            }
            SIM_CHECK(n == 0, "array-reverse-iteration", std::string(where) + ": stops early");
            n = 0;
            for (auto b : c.bitmap())
            {
                SIM_CHECK(n < m.size() && bool(b) == m[n].has_value(), "array-bitmap", std::string(where) + ": bit " + num(n));
                ++n;
            }
            SIM_CHECK(n == m.size(), "array-bitmap", std::string(where) + ": bitmap of " + num(n) + " bits for " + num(m.size()) + " elements");
            n = 0;
            for (const auto& v : c.values())
            {
                SIM_CHECK(n < m.size(), "array-values", std::string(where) + ": does not end");
                if (m[n] && !Tr::same(Tr::val(v), *m[n])) fail("array-values", std::string(where) + ": value " + num(n));
                ++n;
            }
            SIM_CHECK(n == m.size(), "array-values", where);
            if (exports && writable_reads) check_export(x, where);
            u64 h = m.size();
            for (auto& v : m) h = mix64(h + (v ? Tr::hash(*v) * 2 + 1 : 0));
            note(h);
        }
        // what an independent consumer of the C data interface sees
        void check_export(Slot& x, const char* where)
        {
            auto& m = x.m;
            const auto& proxy = sparrow::detail::array_access::get_arrow_proxy(*x.a);
            const ArrowArray& arr = proxy.array();
            const ArrowSchema& sch = proxy.schema();
            std::string w = where;
            SIM_CHECK(arr.length == std::int64_t(m.size()), "export-length", w + ": length " + num(arr.length) + " expected " + num(m.size()));
            SIM_CHECK(arr.offset >= 0, "export-offset", w);
            SIM_CHECK(sch.format && Tr::format() == sch.format, "export-format", w);
            SIM_CHECK(arr.n_children == 0 && sch.n_children == 0 && !arr.dictionary && !sch.dictionary, "export-children", w);
            SIM_CHECK(arr.release && sch.release, "export-released", w);
            SIM_CHECK(arr.n_buffers == Tr::n_buffers, "export-buffers", w + ": " + num(arr.n_buffers) + " buffers");
            std::int64_t nulls = 0;
            for (auto& v : m) nulls += !v;
            SIM_CHECK(arr.null_count == nulls || arr.null_count == -1, "export-null-count", w + ": null_count " + num(arr.null_count) + ", " + num(nulls) + " elements are null");
            const auto* bits = static_cast<const std::uint8_t*>(arr.buffers[0]);
            SIM_CHECK(bits || nulls == 0, "export-bitmap", w + ": no bitmap although elements are null");
            for (std::size_t i = 0; i < m.size(); ++i)
            {
                std::size_t k = i + std::size_t(arr.offset);
                bool valid = !bits || ((bits[k / 8] >> (k % 8)) & 1);
                SIM_CHECK(valid == m[i].has_value(), "export-bitmap", w + ": bit " + num(i));
            }
            Tr::check_export(arr, m, w);
        }
        Model content(u64 r, std::size_t n)
        {
            Rng g(r);
            u32 mode = g.below(5);
            Model m;
            for (std::size_t i = 0; i < n; ++i)
            {
                bool null = mode == 0 ? false : mode == 1 ? g.chance(1, 2) : mode == 2 ? g.chance(1, 8) : mode == 3 ? (i % 8 == 7) : g.chance(7, 8);
                if (null) m.push_back(std::nullopt);
                else m.push_back(Tr::gen(g));
            }
            return m;
        }
        static std::size_t pick_size(u32 a, u64 r)
        {
            static const std::size_t tab[] = {0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65};
            return (r & 3) ? tab[a % 11] : tab[a % 17];
        }
        static std::vector<V> raw(const Model& m, u64 r)
        {
            Rng g(r ^ 99);
            std::vector<V> v;
            for (auto& e : m) v.push_back(e ? *e : Tr::gen(g)); // a null still has some bytes
            return v;
        }
        static std::vector<NV> nullables(const Model& m, u64 r)
        {
            Rng g(r ^ 77);
            std::vector<NV> v;
            for (auto& e : m)
            {
                if (e) v.emplace_back(*e);
                else if (g.chance(1, 2)) v.emplace_back(sparrow::nullval);
                else v.emplace_back(Tr::gen(g), false);
            }
            return v;
        }
        static bool uniform(const Model& m)
        {
            for (auto& e : m) if (!e || !Tr::same(*e, *m[0])) return false;
            return true;
        }
        void build(Slot& x, Model m, u32 how, const Op& op)
        {
            drop(x);
            Res r = Res::ok;
            bool nonull = std::all_of(m.begin(), m.end(), [](auto& e) { return e.has_value(); });
            how %= Tr::n_ctors;
            auto rw = raw(m, op.r);
            auto nv = nullables(m, op.r);
            std::vector<bool> bm;
            std::vector<std::size_t> nulls;
            for (std::size_t i = 0; i < m.size(); ++i) { bm.push_back(m[i].has_value()); if (!m[i]) nulls.push_back(i); }
            r = guarded(op, [&] { Tr::construct(x.a, how, m, rw, nv, bm, nulls, nonull); });
            if (r == Res::ok) x.m = std::move(m); else drop(x);
        }
        // after a failed mutation changing [lo,hi) of the old elements to `len` elements
        void resync(Slot& x, const Model& before, std::size_t lo, std::size_t hi, std::size_t len, bool contents_kept)
        {
            const A& c = *x.a;
            std::size_t n = c.size(), done = before.size() - (hi - lo) + len;
            SIM_CHECK(n == before.size() || n == done, "failed-mutation-size", "size " + num(n) + " after a failed mutation, was " + num(before.size()));
            Model now;
            for (std::size_t i = 0; i < n; ++i) now.push_back(read(c[i]));
            for (std::size_t i = 0; i < lo; ++i) cmp(now[i], before[i], "failed-mutation-collateral", i, "element before the changed range", before);
            std::size_t tail = before.size() - hi;
            for (std::size_t i = 0; i < tail; ++i)
                cmp(now[n - tail + i], before[hi + i], "failed-mutation-collateral", n - tail + i, "element after the changed range", before);
            (void) contents_kept;
            x.m = now;
            check(x, "after a failed mutation");
        }

        void step(const Op& op)
        {
            Slot& x = s[op.a % 3];
            Slot& y = s[(op.a / 3) % 3];
            writable_reads = ((op.r >> 40) & 3) == 0;
            if (op.code == CTOR || !x.a || !x.valued)
            {
                Op o = op;
                if (op.code != CTOR) o.fault = 0;
                Model m = content(op.r, pick_size(op.b, op.r >> 3));
                build(x, m, op.c, o);
                check(x, "ctor");
                return;
            }
            auto& m = x.m;
            const std::size_t n = m.size();
            Model before = m;
            Rng g(op.r ^ 0x5151);
            Res r = Res::ok;
            std::size_t lo = 0, hi = 0, len = 0;
            bool mutation = false;
            using OT = sparrow::nullable<V>;
            switch (op.code)
            {
                case COPY:
                    if (&x == &y) return;
                    drop(y);
                    r = guarded(op, [&] { y.a = std::make_unique<A>(*x.a); });
                    if (r == Res::ok) y.m = m; else drop(y);
                    check(y, "copy");
                    break;
                case MOVE:
                    if (&x == &y) return;
                    drop(y);
                    r = guarded(op, [&] { y.a = std::make_unique<A>(std::move(*x.a)); });
                    if (r == Res::ok) { y.m = m; drop(x); } else drop(y);
                    check(y, "move");
                    break;
                case ASSIGN:
                    if (!y.a) return;
                    r = guarded(op, [&] { *y.a = *x.a; });
                    if (r == Res::ok) { Model t = m; y.m = t; y.valued = true; }
                    else if (&x != &y)
                    {
                        if (y.valued) check(y, "target of a failed assignment");
                    }
                    check(y, "copy assignment");
                    break;
                case MASSIGN:
                    if (!y.a || &x == &y) return;
                    r = guarded(op, [&] { *y.a = std::move(*x.a); });
                    if (r == Res::ok) { Model t = m; y.m = t; y.valued = true; drop(x); }
                    check(y, "move assignment");
                    break;
                case SLICE:
                {
                    std::size_t i = op.b % (n + 1), j = i + op.c % (n - i + 1);
                    Slot t;
                    r = guarded(op, [&] { t.a = std::make_unique<A>(x.a->slice(i, j)); });
                    if (r != Res::ok) break;
                    t.m.assign(m.begin() + long(i), m.begin() + long(j));
                    if (&y == &x) check(x, "source of a slice");
                    drop(y);
                    y.a = std::move(t.a);
                    y.m = t.m;
                    check(y, "slice");
                    break;
                }
                case REBUILD:
                {
                    Op nf = op; nf.fault = 0;
                    r = guarded(nf, [&] {
                        auto [arr, sch] = sparrow::extract_arrow_structures(std::move(*x.a));
                        x.a = std::make_unique<A>(sparrow::arrow_proxy(std::move(arr), std::move(sch)));
                    });
                    break;
                }
                case IMPORT:
                {
                    // structures as another party lays them out: an offset, elements beyond the length, no bitmap, no null count
                    const std::size_t o = g.chance(1, 3) ? 0 : g.below(18), k = pick_size(op.b, op.r >> 3), extra = g.chance(1, 2) ? 0 : g.below(10);
                    Model all = content(op.r, o + k + extra);
                    if (g.chance(1, 2)) for (auto& e : all) if (!e) e = Tr::gen(g);
                    const bool nonull = std::all_of(all.begin(), all.end(), [](auto& e) { return e.has_value(); });
                    std::int64_t nulls = 0;
                    for (std::size_t i = o; i < o + k; ++i) nulls += !all[i];
                    if (g.chance(1, 3)) nulls = -1;
                    const bool no_bitmap = nonull && g.chance(3, 4);
                    auto rw = raw(all, op.r);
                    drop(x);
                    Op nf = op;
                    nf.fault = 0;
                    guarded(nf, [&] {
                        std::vector<sparrow::buffer<std::uint8_t>> b;
                        std::vector<std::uint8_t> bits((all.size() + 7) / 8);
                        for (std::size_t i = 0; i < all.size(); ++i) if (all[i]) bits[i / 8] |= std::uint8_t(1u << (i % 8));
                        b.emplace_back();
                        if (!no_bitmap) b.back() = sparrow::buffer<std::uint8_t>(bits);
                        Tr::buffers(rw, b, g);
                        x.a = std::make_unique<A>(sparrow::arrow_proxy(
                            sparrow::make_arrow_array(std::int64_t(k), nulls, std::int64_t(o), std::move(b), 0, nullptr, nullptr),
                            sparrow::make_arrow_schema(Tr::format(), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr)));
                    });
                    x.m.assign(all.begin() + long(o), all.begin() + long(o + k));
                    x.valued = true;
                    break;
                }
                case SETV:
                {
                    if (!n) return;
                    std::size_t i = op.b % n;
                    V v = Tr::gen(g);
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    r = guarded(op, [&] {
                        if ((op.c & 1) && m[i]) Tr::write((*x.a)[i].get(), v, op.r);
                        else if ((op.c & 1) && (op.r & 8)) { auto e = (*x.a)[i]; e.get() = v; switch (op.r >> 4 & 3) { case 0: e.null_flag() |= true; break; case 1: e.null_flag() ^= true; break; default: e.null_flag() = true; } }
                        else if constexpr (requires { (*x.a)[i] = v; }) { if (op.c & 2) (*x.a)[i] = v; else (*x.a)[i] = OT(v); }
                        else (*x.a)[i] = OT(v);
                    });
                    if (r == Res::ok) m[i] = v;
                    break;
                }
                case SETNULL:
                {
                    if (!n) return;
                    std::size_t i = op.b % n;
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    r = guarded(op, [&] {
                        auto e = (*x.a)[i];
                        switch (op.c % 6)
                        {
                            case 0: e.null_flag() = false; break;
                            case 1: e.null_flag() &= false; break;
                            case 2: e.null_flag() ^= bool(m[i]); break;
                            case 3: e.reset(); break;
                            default: e = sparrow::nullval;
                        }
                    });
                    if (r == Res::ok) m[i] = std::nullopt;
                    break;
                }
                case SETOPT:
                {
                    if (!n) return;
                    std::size_t i = op.b % n;
                    OV v = g.chance(1, 3) ? OV() : OV(Tr::gen(g));
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    OT nv = v ? OT(*v) : g.chance(1, 2) ? OT(sparrow::nullval) : OT(Tr::gen(g), false);
                    r = guarded(op, [&] { (*x.a)[i] = nv; });
                    if (r == Res::ok) m[i] = v;
                    break;
                }
                case SETFROM:
                {
                    if (!n) return;
                    Slot& z = y.a && y.valued && !y.m.empty() ? y : x;
                    std::size_t i = op.b % n, j = op.c % z.m.size();
                    OV v = z.m[j];
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    r = guarded(op, [&] {
                        // a nullable read from a const array, assigned to a reference
                        auto src = std::as_const(*z.a)[j];
                        (*x.a)[i] = src;
                    });
                    if (r == Res::ok) m[i] = v;
                    break;
                }
                case SETREF:
                {
                    if (!n) return;
                    // one element assigned to another, through the references and iterators of mutable arrays
                    Slot& z = y.a && y.valued && !y.m.empty() ? y : x;
                    const std::size_t i = op.b % n, j = op.c % z.m.size();
                    const OV v = z.m[j];
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    r = guarded(op, [&] {
                        switch (op.r % 4)
                        {
                            case 0: (*x.a)[i] = (*z.a)[j]; break;
                            case 1: if constexpr (Tr::assignable_references) { auto to = (*x.a)[i]; const auto from = (*z.a)[j]; to = from; } else (*x.a)[i] = std::as_const(*z.a)[j]; break;
                            case 2: { auto to = x.a->begin(); to += std::ptrdiff_t(i); auto from = z.a->begin(); from += std::ptrdiff_t(j); *to = *from; break; }
                            default: { auto to = x.a->begin(); to += std::ptrdiff_t(i); auto from = std::as_const(*z.a).cbegin(); from += std::ptrdiff_t(j); *to = *from; break; }
                        }
                    });
                    if (r == Res::ok) m[i] = v;
                    break;
                }
                case SWAPE:
                {
                    if (!n) return;
                    // two elements exchanged through their references; without faults, as a half swap has no name
                    Slot& z = y.a && y.valued && !y.m.empty() ? y : x;
                    const std::size_t i = op.b % n, j = op.c % z.m.size();
                    const bool by_member = op.r & 1;
                    auto to = (*x.a)[i], from = (*z.a)[j];
                    if (by_member) to.swap(from);
                    else { using std::swap; swap(to, from); }
                    std::swap(m[i], z.m[j]);
                    break;
                }
                case CMPE:
                {
                    if (!n) return;
                    Slot& z = y.a && y.valued && !y.m.empty() ? y : x;
                    const std::size_t i = op.b % n, j = op.c % z.m.size();
                    const OV &p = m[i], &q = z.m[j];
                    const bool want = eq(p, q);
                    bool c1 = false, c2 = false, c3 = false, c4 = false;
                    r = guarded(op, [&] {
                        const A &ca = *x.a, &cb = *z.a;
                        c1 = ca[i] == cb[j];
                        c2 = (*x.a)[i] == (*z.a)[j];
                        c3 = ca[i] == sparrow::nullval;
                        c4 = !(cb[j] != ca[i]);
                    });
                    if (r == Res::ok && Tr::exact(p, q))
                    {
                        SIM_CHECK(c1 == want && c2 == want && c4 == want, "element-equality", "elements " + show(p) + " and " + show(q) + " compare as " + num(c1) + num(c2) + num(c4));
                        SIM_CHECK(c3 == !p.has_value(), "element-equality", "an element which is " + show(p) + " compares to null as " + num(c3));
                    }
                    break;
                }
                case ITERSET:
                {
                    if (!n) return;
                    std::size_t i = op.b % n;
                    OV v = g.chance(1, 4) ? OV() : OV(Tr::gen(g));
                    mutation = true; lo = i; hi = i + 1; len = 1;
                    r = guarded(op, [&] {
                        auto it = x.a->begin();
                        it += std::ptrdiff_t(i);
                        if (v) *it = OT(*v); else *it = sparrow::nullval;
                    });
                    if (r == Res::ok) m[i] = v;
                    break;
                }
                case PUSH:
                {
                    OV v = g.chance(1, 4) ? OV() : OV(Tr::gen(g));
                    OT nv = v ? OT(*v) : OT(sparrow::nullval);
                    mutation = true; lo = hi = n; len = 1;
                    r = guarded(op, [&] { x.a->push_back(nv); });
                    if (r == Res::ok) m.push_back(v);
                    break;
                }
                case POP:
                    if (!n) return;
                    mutation = true; lo = n - 1; hi = n; len = 0;
                    r = guarded(op, [&] { x.a->pop_back(); });
                    if (r == Res::ok) m.pop_back();
                    break;
                case INS1: case INSN:
                {
                    std::size_t i = op.b % (n + 1), k = op.code == INS1 ? 1 : op.c % 12;
                    if (op.code == INSN && g.chance(1, 8)) k = 40;
                    OV v = g.chance(1, 4) ? OV() : OV(Tr::gen(g));
                    OT nv = v ? OT(*v) : OT(Tr::gen(g), false);
                    mutation = true; lo = hi = i; len = k;
                    std::ptrdiff_t d = -1;
                    r = guarded(op, [&] {
                        auto pos = x.a->cbegin();
                        pos += std::ptrdiff_t(i);
                        auto it = op.code == INS1 ? x.a->insert(pos, nv) : x.a->insert(pos, nv, k);
                        d = writable_reads ? std::distance(x.a->begin(), it) : std::ptrdiff_t(i);
                    });
                    if (r == Res::ok)
                    {
                        m.insert(m.begin() + long(i), k, v);
                        SIM_CHECK(d == std::ptrdiff_t(i), "returned-iterator", "insert returned " + num(d) + " instead of " + num((long long) i));
                    }
                    break;
                }
                case INSR: case INSIL:
                {
                    std::size_t i = op.b % (n + 1), k = op.code == INSR ? op.c % 14 : 3;
                    Model add = content(op.r, k);
                    auto nv = nullables(add, op.r);
                    mutation = true; lo = hi = i; len = k;
                    std::ptrdiff_t d = -1;
                    r = guarded(op, [&] {
                        auto pos = x.a->cbegin();
                        pos += std::ptrdiff_t(i);
                        auto it = op.code == INSIL ? x.a->insert(pos, {nv[0], nv[1], nv[2]})
                                  : (op.r & 4)    ? x.a->insert(pos, nv)
                                                  : x.a->insert(pos, nv.begin(), nv.end());
                        d = writable_reads ? std::distance(x.a->begin(), it) : std::ptrdiff_t(i);
                    });
                    if (r == Res::ok)
                    {
                        m.insert(m.begin() + long(i), add.begin(), add.end());
                        SIM_CHECK(d == std::ptrdiff_t(i), "returned-iterator", "insert returned " + num(d) + " instead of " + num((long long) i));
                    }
                    break;
                }
                case ER1: case ERR:
                {
                    if (!n && op.code == ER1) return;
                    std::size_t i = op.code == ER1 ? op.b % n : op.b % (n + 1), k = op.code == ER1 ? 1 : op.c % (n - i + 1);
                    mutation = true; lo = i; hi = i + k; len = 0;
                    std::ptrdiff_t d = -1;
                    r = guarded(op, [&] {
                        auto f = x.a->cbegin();
                        f += std::ptrdiff_t(i);
                        auto l = f;
                        l += std::ptrdiff_t(k);
                        auto it = op.code == ER1 ? x.a->erase(f) : x.a->erase(f, l);
                        d = writable_reads ? std::distance(x.a->begin(), it) : std::ptrdiff_t(i);
                    });
                    if (r == Res::ok)
                    {
                        m.erase(m.begin() + long(i), m.begin() + long(i + k));
                        SIM_CHECK(d == std::ptrdiff_t(i), "returned-iterator", "erase returned " + num(d) + " instead of " + num((long long) i));
                    }
                    break;
                }
                case RESIZE:
                {
                    std::size_t k = g.chance(1, 2) ? pick_size(op.b, op.r >> 3) : std::size_t(std::max<long>(0, long(n) + long(op.b % 9) - 4));
                    OV v = g.chance(1, 4) ? OV() : OV(Tr::gen(g));
                    OT nv = v ? OT(*v) : OT(Tr::gen(g), false);
                    mutation = true;
                    lo = std::min(n, k); hi = n; len = k > n ? k - n : 0;
                    r = guarded(op, [&] { x.a->resize(k, nv); });
                    if (r == Res::ok) m.resize(k, v);
                    break;
                }
                case EQ:
                {
                    if (!y.a || !y.valued) return;
                    bool want = m.size() == y.m.size();
                    for (std::size_t i = 0; want && i < m.size(); ++i) want = eq(m[i], y.m[i]);
                    bool got = false;
                    r = guarded(op, [&] { got = std::as_const(*x.a) == std::as_const(*y.a); });
                    if (r == Res::ok) SIM_CHECK(got == want, "array-equality", std::string("arrays compare ") + (got ? "equal" : "different"));
                    break;
                }
            }
            if (r == Res::nomem && mutation) resync(x, before, lo, hi, len, true);
            else check(x, infos()[op.code].name);
            if (&y != &x && (op.code == COPY || op.code == SETFROM || op.code == SETREF || op.code == SWAPE || op.code == EQ || op.code == ASSIGN)) check(y, "other array");
            for (auto& z : s) if (&z != &x && &z != &y && op.r % 8 == 0) check(z, "uninvolved array");
            note_state(mix64(op.code * 131 + Tr::id) ^ (cls(n) * 64 + cls(m.size())) ^ (u64(n % 8 == 0) << 20) ^ (u64(r == Res::nomem) << 21)
                       ^ (u64(x.a && x.valued && sparrow::detail::array_access::get_arrow_proxy(*x.a).offset() != 0) << 22));
        }
        void run(const Program& p)
        {
            for (std::size_t i = 0; i < p.ops.size(); ++i)
            {
                Op o = p.ops[i];
                o.code %= NCODES;
                set_op(i, infos()[o.code].name);
                count(infos()[o.code].name);
                step(o);
            }
            set_op(p.ops.size(), "teardown");
            for (auto& x : s) { check(x, "final"); drop(x); }
        }
    };
}
