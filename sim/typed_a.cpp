// Flat layouts: from Arrow structures, and by their public constructors.
#include "typed.hpp"
#include "gbuild.hpp"
#include <cstring>
#include <ranges>

namespace sim::inter
{
    template <class L> static TypedP import_as(sp::arrow_proxy&& p) { return TypedL<L>::make(std::make_shared<L>(std::move(p))); }
    template <class L, class... A> static TypedP construct(A&&... a) { return TypedL<L>::make(std::make_shared<L>(std::forward<A>(a)...)); }

    TypedP typed_flat(const Ty& t, sp::arrow_proxy&& p)
    {
        switch (t.k)
        {
            case K::NA: return import_as<sp::null_array>(std::move(p));
            case K::I8: return import_as<sp::primitive_array<std::int8_t>>(std::move(p));
            case K::U8: return import_as<sp::primitive_array<std::uint8_t>>(std::move(p));
            case K::I16: return import_as<sp::primitive_array<std::int16_t>>(std::move(p));
            case K::U16: return import_as<sp::primitive_array<std::uint16_t>>(std::move(p));
            case K::I32: return import_as<sp::primitive_array<std::int32_t>>(std::move(p));
            case K::U32: return import_as<sp::primitive_array<std::uint32_t>>(std::move(p));
            case K::I64: return import_as<sp::primitive_array<std::int64_t>>(std::move(p));
            case K::U64: return import_as<sp::primitive_array<std::uint64_t>>(std::move(p));
            case K::F16: return import_as<sp::primitive_array<sp::float16_t>>(std::move(p));
            case K::F32: return import_as<sp::primitive_array<float>>(std::move(p));
            case K::F64: return import_as<sp::primitive_array<double>>(std::move(p));
            case K::STR: return import_as<sp::string_array>(std::move(p));
            case K::LSTR: return import_as<sp::big_string_array>(std::move(p));
            case K::STRV: return import_as<sp::string_view_array>(std::move(p));
            case K::BINV: return import_as<sp::binary_view_array>(std::move(p));
            default: return {};
        }
    }
    // calls f with the validity of the elements in one of the accepted forms
    template <class F>
    static auto with_validity(const Vals& v, Rng& g, F&& f)
    {
        std::vector<bool> b;
        std::vector<std::size_t> nulls;
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            b.push_back(!v[i].null);
            if (v[i].null) nulls.push_back(i);
        }
        u32 form = g.below(4);
        if (nulls.empty() && g.chance(1, 2)) return f(sp::validity_bitmap{});
        if (form == 0) return f(std::move(b));
        if (form == 1) return f(nulls);
        sp::validity_bitmap bm(v.size(), true);
        for (auto i : nulls) bm.set(i, false);
        if (form == 2) return f(std::move(bm));
        const sp::validity_bitmap& c = bm;
        return f(c);
    }
    // calls f with the range, or with a range whose elements throw if the step wants that
    template <class R, class F>
    static TypedP ranged(const R& r, F&& f)
    {
        if (!g_throw_in) return f(r);
        return f(r | std::views::transform([](const auto& x) -> const auto& { throw_tick(); return x; }));
    }
    template <class T>
    static TypedP build_primitive(const Vals& v, Rng& g)
    {
        using L = sp::primitive_array<T>;
        u32 way = g.below(5);
        bool nulls = false;
        for (auto& x : v) nulls |= x.null;
        auto value = [&](const Val& x) { return x.null ? T(7) : from_bits<T>(x.bits); };
        if (way == 0)
        {
            std::vector<sp::nullable<T>> r;
            for (auto& x : v) r.push_back(x.null ? sp::nullable<T>(T{}, false) : sp::nullable<T>(value(x)));
            return ranged(r, [&](auto&& x) { return construct<L>(x); });
        }
        if (way == 1)
        {
            sp::u8_buffer<T> b(v.size());
            for (std::size_t i = 0; i < v.size(); ++i) b[i] = value(v[i]);
            return with_validity(v, g, [&](auto&& bm) { return construct<L>(std::move(b), std::forward<decltype(bm)>(bm)); });
        }
        std::vector<T> r;
        for (auto& x : v) r.push_back(value(x));
        if (way == 2 && !nulls) return ranged(r, [&](auto&& x) { return construct<L>(x); });
        if (way == 3 && !nulls && v.size() && std::all_of(v.begin(), v.end(), [&](const Val& x) { return x.bits == v[0].bits; }))
            return construct<L>(v.size(), value(v[0]));
        return with_validity(v, g, [&](auto&& bm) { return ranged(r, [&](auto&& x) { return construct<L>(x, std::forward<decltype(bm)>(bm)); }); });
    }
    template <class L>
    static TypedP build_string(const Vals& v, Rng& g)
    {
        u32 way = g.below(4);
        bool nulls = false;
        for (auto& x : v) nulls |= x.null;
        if (way == 0)
        {
            std::vector<sp::nullable<std::string>> r;
            for (auto& x : v) r.push_back(x.null ? sp::nullable<std::string>(std::string(), false) : sp::nullable<std::string>(std::string(x.s)));
            return ranged(r, [&](auto&& x) { return construct<L>(x); });
        }
        std::vector<std::string> r;
        for (auto& x : v) r.push_back(x.null ? std::string(g.below(3), '?') : x.s);
        if (way == 1)
        {
            std::string all;
            std::vector<std::size_t> sizes;
            for (auto& s : r) { all += s; sizes.push_back(s.size()); }
            sp::u8_buffer<char> data(all);
            auto off = L::offset_from_sizes(sizes);
            return with_validity(v, g, [&](auto&& bm) { return construct<L>(std::move(data), std::move(off), std::forward<decltype(bm)>(bm)); });
        }
        if (way == 2 && !nulls) return ranged(r, [&](auto&& x) { return construct<L>(x); });
        return with_validity(v, g, [&](auto&& bm) { return ranged(r, [&](auto&& x) { return construct<L>(x, std::forward<decltype(bm)>(bm)); }); });
    }
    static TypedP build_view(const Ty& t, const Vals& v, Rng& g)
    {
        if (t.k == K::STRV)
        {
            std::vector<std::string> r;
            for (auto& x : v) r.push_back(x.null ? std::string(g.below(20), '?') : x.s);
            return with_validity(v, g, [&](auto&& bm) { return construct<sp::string_view_array>(r, std::forward<decltype(bm)>(bm)); });
        }
        std::vector<std::vector<std::byte>> r;
        for (auto& x : v)
        {
            r.emplace_back();
            for (char c : x.s) r.back().push_back(std::byte(c));
        }
        return with_validity(v, g, [&](auto&& bm) { return construct<sp::binary_view_array>(r, std::forward<decltype(bm)>(bm)); });
    }
    TypedP build_flat(const Ty& t, const Vals& v, Rng& g)
    {
        switch (t.k)
        {
            case K::NA:
            {
                sp::detail::structure_guard s(sp::make_arrow_schema(std::string("n"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr));
                sp::detail::structure_guard a(sp::make_arrow_array(std::int64_t(v.size()), std::int64_t(v.size()), 0, std::vector<sp::buffer<std::uint8_t>>{}, 0, nullptr, nullptr));
                return import_as<sp::null_array>(sp::arrow_proxy(a.hand_over(), s.hand_over()));
            }
            case K::I8: return build_primitive<std::int8_t>(v, g);
            case K::U8: return build_primitive<std::uint8_t>(v, g);
            case K::I16: return build_primitive<std::int16_t>(v, g);
            case K::U16: return build_primitive<std::uint16_t>(v, g);
            case K::I32: return build_primitive<std::int32_t>(v, g);
            case K::U32: return build_primitive<std::uint32_t>(v, g);
            case K::I64: return build_primitive<std::int64_t>(v, g);
            case K::U64: return build_primitive<std::uint64_t>(v, g);
            case K::F16: return build_primitive<sp::float16_t>(v, g);
            case K::F32: return build_primitive<float>(v, g);
            case K::F64: return build_primitive<double>(v, g);
            case K::STR: return build_string<sp::string_array>(v, g);
            case K::LSTR: return build_string<sp::big_string_array>(v, g);
            case K::STRV: case K::BINV: return build_view(t, v, g);
            default: return {};
        }
    }

    template <class L>
    static bool poke_flat(sp::array_wrapper& w, const Ty& t, Rng& g)
    {
        L& a = sp::unwrap_array<L>(w);
        if (a.size() == 0) return false;
        const std::size_t i = g.below(u32(a.size()));
        const Val x = gen_val(t, g, 1, 3);
        if (x.null) a[i] = sp::nullval;
        else if constexpr (std::is_same_v<L, sp::string_array> || std::is_same_v<L, sp::big_string_array>) a[i] = sp::nullable<std::string>(std::string(x.s));
        else a[i] = sp::nullable<typename L::inner_value_type>(from_bits<typename L::inner_value_type>(x.bits));
        const L& c = a;
        bool ok = c[i].has_value() == !x.null;
        if (ok && !x.null)
        {
            if constexpr (requires { c[i].get().size(); }) ok = std::string_view(c[i].get()) == x.s;
            else { auto y = c[i].get(); ok = std::memcmp(&y, &x.bits, sizeof(y)) == 0; }
        }
        INTER_CHECK(ok, L03 | S02, "child-element", "an element assigned in a child does not read as assigned");
        return true;
    }
    template <class L> static bool poke_nested(sp::array_wrapper& w, const Ty& t, Rng& g) { return TypedL<L>::poke_child(sp::unwrap_array<L>(w), t, g.next()); }
    bool poke(sp::array_wrapper& w, const Ty& t, Rng& g)
    {
        switch (t.k)
        {
            case K::I8: return poke_flat<sp::primitive_array<std::int8_t>>(w, t, g);
            case K::U8: return poke_flat<sp::primitive_array<std::uint8_t>>(w, t, g);
            case K::I16: return poke_flat<sp::primitive_array<std::int16_t>>(w, t, g);
            case K::U16: return poke_flat<sp::primitive_array<std::uint16_t>>(w, t, g);
            case K::I32: return poke_flat<sp::primitive_array<std::int32_t>>(w, t, g);
            case K::U32: return poke_flat<sp::primitive_array<std::uint32_t>>(w, t, g);
            case K::I64: return poke_flat<sp::primitive_array<std::int64_t>>(w, t, g);
            case K::U64: return poke_flat<sp::primitive_array<std::uint64_t>>(w, t, g);
            case K::F16: return poke_flat<sp::primitive_array<sp::float16_t>>(w, t, g);
            case K::F32: return poke_flat<sp::primitive_array<float>>(w, t, g);
            case K::F64: return poke_flat<sp::primitive_array<double>>(w, t, g);
            case K::STR: return poke_flat<sp::string_array>(w, t, g);
            case K::LSTR: return poke_flat<sp::big_string_array>(w, t, g);
            case K::LIST: return poke_nested<sp::list_array>(w, t, g);
            case K::LLIST: return poke_nested<sp::big_list_array>(w, t, g);
            case K::LV: return poke_nested<sp::list_view_array>(w, t, g);
            case K::LLV: return poke_nested<sp::big_list_view_array>(w, t, g);
            case K::FSL: return poke_nested<sp::fixed_sized_list_array>(w, t, g);
            case K::STRUCT: return poke_nested<sp::struct_array>(w, t, g);
            default: return false;
        }
    }
}
