// Nested and encoded layouts: from Arrow structures, and by their public constructors.
#include "typed.hpp"
#include <cstring>

namespace sim::inter
{
    TypedP typed_flat(const Ty& t, sp::arrow_proxy&& p);
    TypedP build_flat(const Ty& t, const Vals& v, Rng& g);

    template <class L> static TypedP import_as(sp::arrow_proxy&& p) { return TypedL<L>::make(std::make_shared<L>(std::move(p))); }
    template <class L, class... A> static TypedP construct(A&&... a) { return TypedL<L>::make(std::make_shared<L>(std::forward<A>(a)...)); }
    template <class F>
    static decltype(auto) with_key(K k, F&& f)
    {
        switch (k)
        {
            case K::I8: return f(std::int8_t());
            case K::U8: return f(std::uint8_t());
            case K::I16: return f(std::int16_t());
            case K::U16: return f(std::uint16_t());
            case K::I32: return f(std::int32_t());
            case K::U32: return f(std::uint32_t());
            case K::I64: return f(std::int64_t());
            default: return f(std::uint64_t());
        }
    }
    TypedP typed_from(const Ty& t, sp::arrow_proxy&& p)
    {
        switch (t.k)
        {
            case K::LIST: return import_as<sp::list_array>(std::move(p));
            case K::LLIST: return import_as<sp::big_list_array>(std::move(p));
            case K::LV: return import_as<sp::list_view_array>(std::move(p));
            case K::LLV: return import_as<sp::big_list_view_array>(std::move(p));
            case K::FSL: return import_as<sp::fixed_sized_list_array>(std::move(p));
            case K::STRUCT: return import_as<sp::struct_array>(std::move(p));
            case K::DU: return import_as<sp::dense_union_array>(std::move(p));
            case K::SU: return import_as<sp::sparse_union_array>(std::move(p));
            case K::REE: return import_as<sp::run_end_encoded_array>(std::move(p));
            case K::DICT: return with_key(t.aux, [&](auto x) { return import_as<sp::dictionary_encoded_array<decltype(x)>>(std::move(p)); });
            default: return typed_flat(t, std::move(p));
        }
    }
    template <class F>
    static auto with_validity(const std::vector<bool>& b, Rng& g, F&& f)
    {
        std::vector<std::size_t> nulls;
        for (std::size_t i = 0; i < b.size(); ++i) if (!b[i]) nulls.push_back(i);
        u32 form = g.below(4);
        if (nulls.empty() && g.chance(1, 2)) return f(sp::validity_bitmap{});
        if (form == 0) return f(b);
        if (form == 1) return f(nulls);
        sp::validity_bitmap bm(b.size(), true);
        for (auto i : nulls) bm.set(i, false);
        if (form == 2) return f(std::move(bm));
        const sp::validity_bitmap& c = bm;
        return f(c);
    }
    static std::vector<bool> validity(const Vals& v)
    {
        std::vector<bool> b;
        for (auto& x : v) b.push_back(!x.null);
        return b;
    }
    sp::array build_array(const Ty& t, const Vals& v, Rng& g)
    {
        TypedP p = build_typed(t, v, g);
        switch (g.below(6))
        {
            case 0: return p->clone()->wrap_move();
            case 1: { auto [a, s] = p->extract(); return sp::array(std::move(a), std::move(s)); }
            default: return p->wrap_move();
        }
    }
    template <bool BIG>
    static TypedP build_list(const Ty& t, const Vals& v, Rng& g)
    {
        using L = sp::list_array_impl<BIG>;
        Vals kv;
        std::vector<std::size_t> sizes;
        for (auto& x : v)
        {
            std::size_t k = x.kids.size();
            kv.insert(kv.end(), x.kids.begin(), x.kids.end());
            if (x.null && g.chance(1, 4)) { kv.push_back(gen_val(*t.kids[0], g, 1, 4)); ++k; }
            sizes.push_back(k);
        }
        if (g.chance(1, 4)) kv.push_back(gen_val(*t.kids[0], g, 1, 4));
        sp::array kid = build_array(*t.kids[0], kv, g);
        auto off = L::offset_from_sizes(sizes);
        return with_validity(validity(v), g, [&](auto&& bm) { return construct<L>(std::move(kid), std::move(off), std::forward<decltype(bm)>(bm)); });
    }
    template <bool BIG>
    static TypedP build_list_view(const Ty& t, const Vals& v, Rng& g)
    {
        using L = sp::list_view_array_impl<BIG>;
        using O = std::remove_const_t<typename L::offset_type>;
        Vals kv;
        typename L::offset_buffer_type off(v.size());
        typename L::size_buffer_type sizes(v.size());
        std::vector<std::size_t> order;
        for (std::size_t i = 0; i < v.size(); ++i) order.push_back(i);
        if (g.chance(1, 2)) for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(u32(i))]);
        for (std::size_t i : order)
        {
            if (g.chance(1, 6)) kv.push_back(gen_val(*t.kids[0], g, 1, 4));
            off[i] = static_cast<O>(kv.size());
            sizes[i] = static_cast<std::remove_cvref_t<decltype(sizes[i])>>(v[i].kids.size());
            kv.insert(kv.end(), v[i].kids.begin(), v[i].kids.end());
        }
        sp::array kid = build_array(*t.kids[0], kv, g);
        return with_validity(validity(v), g, [&](auto&& bm) { return construct<L>(std::move(kid), std::move(off), std::move(sizes), std::forward<decltype(bm)>(bm)); });
    }
    static TypedP build_fixed(const Ty& t, const Vals& v, Rng& g)
    {
        Vals kv;
        for (auto& x : v)
        {
            kv.insert(kv.end(), x.kids.begin(), x.kids.end());
            if (x.null) for (u32 i = 0; i < t.width; ++i) kv.push_back(gen_val(*t.kids[0], g, 1, 4));
        }
        sp::array kid = build_array(*t.kids[0], kv, g);
        return with_validity(validity(v), g, [&](auto&& bm) { return construct<sp::fixed_sized_list_array>(std::uint64_t(t.width), std::move(kid), std::forward<decltype(bm)>(bm)); });
    }
    static TypedP build_struct(const Ty& t, const Vals& v, Rng& g)
    {
        std::vector<sp::array> kids;
        for (std::size_t c = 0; c < t.kids.size(); ++c)
        {
            Vals kv;
            for (auto& x : v) kv.push_back(x.null ? gen_val(*t.kids[c], g, 1, 4) : x.kids[c]);
            kids.push_back(build_array(*t.kids[c], kv, g));
        }
        return with_validity(validity(v), g, [&](auto&& bm) { return construct<sp::struct_array>(std::move(kids), std::forward<decltype(bm)>(bm)); });
    }
    static TypedP build_union(const Ty& t, const Vals& v, Rng& g)
    {
        const std::size_t nk = t.kids.size();
        std::vector<Vals> kv(nk);
        sp::u8_buffer<std::uint8_t> ids(v.size());
        sp::u8_buffer<std::uint32_t> off(v.size());
        bool straight = true;
        for (std::size_t c = 0; c < nk; ++c) straight &= t.ids[c] == c;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            ids[i] = t.ids[v[i].alt];
            for (std::size_t c = 0; c < nk; ++c)
            {
                if (t.k == K::SU) kv[c].push_back(c == v[i].alt ? v[i].kids[0] : gen_val(*t.kids[c], g, 1, 4));
                else if (c == v[i].alt)
                {
                    if (g.chance(1, 6)) kv[c].push_back(gen_val(*t.kids[c], g, 1, 4));
                    off[i] = std::uint32_t(kv[c].size());
                    kv[c].push_back(v[i].kids[0]);
                }
            }
        }
        std::vector<sp::array> kids;
        for (std::size_t c = 0; c < nk; ++c) kids.push_back(build_array(*t.kids[c], kv[c], g));
        std::vector<std::uint8_t> map(t.ids);
        bool implicit = straight && g.chance(1, 2);
        if (t.k == K::DU)
        {
            if (implicit) return construct<sp::dense_union_array>(std::move(kids), std::move(ids), std::move(off));
            return construct<sp::dense_union_array>(std::move(kids), std::move(ids), std::move(off), map);
        }
        if (implicit) return construct<sp::sparse_union_array>(std::move(kids), std::move(ids));
        return construct<sp::sparse_union_array>(std::move(kids), std::move(ids), map);
    }
    static TypedP build_dictionary(const Ty& t, const Vals& v, Rng& g)
    {
        const Ty& vt = *t.kids[0];
        Vals pool;
        u32 junk = g.below(3);
        for (u32 i = 0; i < junk; ++i) pool.push_back(gen_val(vt, g, 1, 4));
        bool value_nulls = g.chance(1, 2);
        bool must = is_union(vt.k) || vt.k == K::NA;
        std::vector<bool> valid;
        std::vector<std::size_t> key;
        for (auto& x : v)
        {
            Leaf l = resolve(t, x);
            if (!l.t || (l.null && !value_nulls && !must)) { valid.push_back(false); key.push_back(0); continue; }
            std::size_t k = pool.size();
            for (std::size_t j = 0; j < pool.size(); ++j) if (same(vt, pool[j], x)) { k = j; break; }
            if (k == pool.size()) pool.push_back(x);
            valid.push_back(true);
            key.push_back(k);
        }
        sp::array values = build_array(vt, pool, g);
        return with_key(t.aux, [&](auto z)
        {
            using I = decltype(z);
            sp::u8_buffer<I> keys(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) keys[i] = I(key[i]);
            return with_validity(valid, g, [&](auto&& bm) { return construct<sp::dictionary_encoded_array<I>>(std::move(keys), std::move(values), std::forward<decltype(bm)>(bm)); });
        });
    }
    static TypedP build_runs(const Ty& t, const Vals& v, Rng& g)
    {
        Vals rv, ev;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            if (!rv.empty() && same(t, rv.back(), v[i]) && !g.chance(1, 6)) { ev.back().bits = i + 1; continue; }
            rv.push_back(v[i]);
            Val e;
            e.null = false;
            e.bits = i + 1;
            ev.push_back(e);
        }
        sp::array ends = build_array(*t.kids[0], ev, g);
        sp::array values = build_array(*t.kids[1], rv, g);
        return construct<sp::run_end_encoded_array>(std::move(ends), std::move(values));
    }
    TypedP build_typed(const Ty& t, const Vals& v, Rng& g)
    {
        switch (t.k)
        {
            case K::LIST: return build_list<false>(t, v, g);
            case K::LLIST: return build_list<true>(t, v, g);
            case K::LV: return build_list_view<false>(t, v, g);
            case K::LLV: return build_list_view<true>(t, v, g);
            case K::FSL: return build_fixed(t, v, g);
            case K::STRUCT: return build_struct(t, v, g);
            case K::DU: case K::SU: return build_union(t, v, g);
            case K::DICT: return build_dictionary(t, v, g);
            case K::REE: return build_runs(t, v, g);
            default: return build_flat(t, v, g);
        }
    }
}
