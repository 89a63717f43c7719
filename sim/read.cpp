// Reads arrays and layouts by every access path and compares with the model.
#include "typed.hpp"
#include <cstring>

namespace sim::inter
{
    thread_local Blame g_blame;
    thread_local bool g_const_only = false;

    template <class T>
    concept string_reference = requires(const T& x) { { *x.begin() } -> std::convertible_to<char>; x.size(); } && !std::is_convertible_v<T, std::string_view> && !std::is_fundamental_v<T>;

    template <class T>
    constexpr int kind_of()
    {
        using U = std::remove_cvref_t<T>;
        if constexpr (std::is_same_v<U, sp::null_type>) return int(K::NA);
        else if constexpr (std::is_same_v<U, bool>) return -2;
        else if constexpr (std::is_same_v<U, std::int8_t>) return int(K::I8);
        else if constexpr (std::is_same_v<U, std::uint8_t>) return int(K::U8);
        else if constexpr (std::is_same_v<U, std::int16_t>) return int(K::I16);
        else if constexpr (std::is_same_v<U, std::uint16_t>) return int(K::U16);
        else if constexpr (std::is_same_v<U, std::int32_t>) return int(K::I32);
        else if constexpr (std::is_same_v<U, std::uint32_t>) return int(K::U32);
        else if constexpr (std::is_same_v<U, std::int64_t>) return int(K::I64);
        else if constexpr (std::is_same_v<U, std::uint64_t>) return int(K::U64);
        else if constexpr (std::is_same_v<U, sp::float16_t>) return int(K::F16);
        else if constexpr (std::is_same_v<U, float>) return int(K::F32);
        else if constexpr (std::is_same_v<U, double>) return int(K::F64);
        else if constexpr (std::is_same_v<U, std::string_view>) return int(K::STR);
        else if constexpr (std::is_same_v<U, std::span<const std::byte>>) return int(K::BINV);
        else if constexpr (std::is_same_v<U, sp::list_value>) return 100;
        else if constexpr (std::is_same_v<U, sp::struct_value>) return int(K::STRUCT);
        else if constexpr (std::is_same_v<U, std::string> || string_reference<U>) return int(K::STR);
        else return -1;
    }
    static int kind_of_type(K k) { return is_list(k) ? 100 : k == K::STRV || k == K::LSTR ? int(K::STR) : int(k); }

    // elements of one array or list compared with each other
    template <class X>
    static void match_pairs(const Ty& t, const Vals& v, const X& x)
    {
        const std::size_t n = v.size();
        auto pair = [&](std::size_t i, std::size_t j)
        {
            READ_CHECK((x[i] == x[j]) == elements_equal(t, v[i], t, v[j]), "element-equality",
                       "elements " + nn((long long) i) + " and " + nn((long long) j) + ", " + show(t, v[i]) + " and " + show(t, v[j]) + ", compare the wrong way");
        };
        for (std::size_t i = 0; i + 1 < n && i < 12; ++i) pair(i, i + 1);
        if (n > 2) { pair(n - 1, 0); pair(n / 2, n / 2); }
    }

    template <class X>
    static void match_value(const Ty& t, const Val& v, const X& x)
    {
        using U = std::remove_cvref_t<X>;
        if constexpr (std::is_same_v<U, std::string_view>)
            READ_CHECK(x == std::string_view(v.s), "read-value", "string \"" + std::string(x.substr(0, 60)) + "\" instead of " + show(t, v));
        else if constexpr (std::is_same_v<U, std::span<const std::byte>>)
            READ_CHECK(x.size() == v.s.size() && (v.s.empty() || std::memcmp(x.data(), v.s.data(), v.s.size()) == 0), "read-value", "other bytes than " + show(t, v));
        else if constexpr (std::is_same_v<U, sp::list_value>)
        {
            READ_CHECK(x.size() == v.kids.size(), "read-value", "list of " + nn((long long) x.size()) + " elements instead of " + show(t, v));
            for (std::size_t i = 0; i < v.kids.size(); ++i) match_ref(*t.kids[0], v.kids[i], x[i]);
            match_pairs(*t.kids[0], v.kids, x);
        }
        else if constexpr (std::is_same_v<U, sp::struct_value>)
        {
            READ_CHECK(x.size() == v.kids.size(), "read-value", "struct of " + nn((long long) x.size()) + " fields instead of " + show(t, v));
            for (std::size_t i = 0; i < v.kids.size(); ++i) match_ref(*t.kids[i], v.kids[i], x[i]);
        }
        else if constexpr (std::is_same_v<U, std::string> || string_reference<U>)
        {
            READ_CHECK(x.size() == v.s.size() && std::equal(v.s.begin(), v.s.end(), x.begin()), "read-value", "another string than " + show(t, v));
            READ_CHECK(std::size_t(std::distance(x.begin(), x.end())) == v.s.size(), "read-value", "end of a string");
        }
        else if constexpr (std::is_same_v<U, sp::null_type>) {}
        else if constexpr (sizeof(U) <= 8)
        {
            u64 b = 0;
            std::memcpy(&b, &x, sizeof(U));
            READ_CHECK(b == v.bits, "read-value", "bits " + nn((long long) b) + " instead of " + show(t, v) + " (" + show(t) + ")");
        }
    }
    template <class N>
    static void match_nullable(const Ty& t, const Leaf& l, const N& n)
    {
        (void) t;
        const bool has = bool(n.has_value());
        READ_CHECK(has == !l.null, "read-null", has ? "an element that is null has a value" : "an element which is " + show(*l.t, *l.v) + " reads as null");
        using U = std::remove_cvref_t<decltype(n.get())>;
        if (!l.t) READ_CHECK(kind_of<U>() == int(K::NA), "read-type", "type of a null element");
        else READ_CHECK(kind_of<U>() == kind_of_type(l.t->k), "read-type", "element of type " + show(*l.t) + " is given as another type (" + nn(kind_of<U>()) + ")");
        if (has) match_value(*l.t, *l.v, n.get());
    }
    void match_ref(const Ty& t, const Val& v, const sp::array_traits::const_reference& r)
    {
        Leaf l = resolve(t, v);
        READ_CHECK(r.has_value() == !l.null, "read-null", r.has_value() ? "an element that is null has a value" : "an element which is " + show(t, v) + " reads as null");
        std::visit([&](const auto& n) { match_nullable(t, l, n); }, r);
    }
    template <class X>
    static void match_elem(const Ty& t, const Val& v, const X& x)
    {
        if constexpr (std::is_same_v<std::remove_cvref_t<X>, sp::array_traits::const_reference>) match_ref(t, v, x);
        else match_nullable(t, resolve(t, v), x);
    }
    template <class F>
    static void expect_out_of_range(F&& f, const char* what)
    {
        bool ok = false;
        try { f(); }
        catch (const std::out_of_range&) { ok = true; }
        READ_CHECK(ok, "at-range", std::string(what) + " of an index after the end does not throw std::out_of_range");
    }

    // the positions of the range in another order than one after the other
    template <class I, class F>
    static void walk(I b, I e, std::size_t n, F&& match)
    {
        if constexpr (requires { b + 1; b - 1; e - b; b[1]; b < e; })
        {
            READ_CHECK(e - b == std::ptrdiff_t(n) && b - e == -std::ptrdiff_t(n), "read-iteration", "the distance of the ends is " + nn((long long) (e - b)));
            READ_CHECK((b == e) == (n == 0) && (b < e) == (n != 0) && b <= e && !(b > e) && e >= b, "read-iteration", "comparison of the ends");
            READ_CHECK(b + std::ptrdiff_t(n) == e && e - std::ptrdiff_t(n) == b, "read-iteration", "begin + size is not the end");
            for (std::size_t i = 0, k = n / 2; i < n && i < 24; ++i, k = (k + 7) % n)
            {
                match(k, b[std::ptrdiff_t(k)]);
                match(k, *(e - std::ptrdiff_t(n - k)));
                I x = b;
                x += std::ptrdiff_t(k);
                match(k, *x);
                READ_CHECK(x - b == std::ptrdiff_t(k) && e - x == std::ptrdiff_t(n - k), "read-iteration", "distance to an iterator");
                if (n % 7 == 0) k = i;
            }
        }
        if constexpr (requires { --e; })
        {
            I x = e;
            for (std::size_t k = n; k-- > 0;)
            {
                I y = x--;
                READ_CHECK(y != x, "read-iteration", "a decremented iterator did not move");
                match(k, *x);
                I z = x;
                READ_CHECK(z++ == x && z == y, "read-iteration", "incrementing after a decrement");
            }
            READ_CHECK(x == b, "read-iteration", "decrementing from the end does not lead to the begin");
        }
    }
    static void check_child(const sp::array_wrapper* c, const Ty& t);
    template <class L>
    static void check_children(const L& a, const Ty& t)
    {
        if constexpr (requires { a.raw_child(0u); })
            for (std::size_t i = 0; i < t.kids.size(); ++i) check_child(a.raw_child(i), *t.kids[i]);
        if constexpr (requires { a.raw_flat_array(); }) check_child(a.raw_flat_array(), *t.kids[0]);
    }

    template <class L>
    void read_layout(const L& a, const Ty& t, const Vals& v)
    {
        const std::size_t n = v.size();
        READ_CHECK(a.size() == n, "read-size", "size is " + nn((long long) a.size()) + " instead of " + nn((long long) n));
        for (std::size_t i = 0; i < n; ++i) match_elem(t, v[i], a[i]);
        std::size_t k = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++k)
        {
            READ_CHECK(k < n, "read-iteration", "iteration does not end");
            match_elem(t, v[k], *it);
        }
        READ_CHECK(k == n, "read-iteration", "iteration ends after " + nn((long long) k) + " of " + nn((long long) n) + " elements");
        k = 0;
        for (auto it = a.cbegin(); it != a.cend() && k < n; ++it, ++k) match_elem(t, v[k], *it);
        READ_CHECK(k == n, "read-iteration", "constant iteration ends after " + nn((long long) k) + " of " + nn((long long) n) + " elements");
        if constexpr (!std::is_same_v<L, sp::binary_view_array>) match_pairs(t, v, a); // spans do not compare
        walk(a.cbegin(), a.cend(), n, [&](std::size_t i, const auto& x) { match_elem(t, v[i], x); });
        if constexpr (requires { a.empty(); }) READ_CHECK(a.empty() == (n == 0), "read-size", "empty() is wrong");
        if constexpr (requires { a.at(0); })
        {
            for (std::size_t i = 0; i < n; ++i) match_elem(t, v[i], a.at(i));
            expect_out_of_range([&] { (void) a.at(n); }, "at");
        }
        if constexpr (requires { a.rbegin(); })
        {
            k = n;
            for (auto it = a.rbegin(); it != a.rend(); ++it)
            {
                READ_CHECK(k > 0, "read-iteration", "reverse iteration does not end");
                match_elem(t, v[--k], *it);
            }
            READ_CHECK(k == 0, "read-iteration", "reverse iteration ends early");
            k = n;
            for (auto it = a.crbegin(); it != a.crend() && k > 0; ++it) match_elem(t, v[--k], *it);
        }
        if constexpr (requires { a.front(); })
            if (n) { match_elem(t, v.front(), a.front()); match_elem(t, v.back(), a.back()); }
        if constexpr (!std::is_same_v<L, sp::null_array> && requires { a.bitmap(); })
        {
            k = 0;
            auto bm = a.bitmap();
            for (auto it = bm.begin(); it != bm.end() && k < n; ++it, ++k)
                READ_CHECK(bool(*it) == !v[k].null, "read-bitmap", "validity of element " + nn((long long) k));
            READ_CHECK(k == n && std::size_t(std::ranges::distance(bm)) == n, "read-bitmap", "length of the bitmap");
            walk(bm.begin(), bm.end(), n, [&](std::size_t i, bool x) { READ_CHECK(x == !v[i].null, "read-bitmap", "validity of element " + nn((long long) i)); });
            k = 0;
            auto vs = a.values();
            for (auto it = vs.begin(); it != vs.end() && k < n; ++it, ++k)
                if (!v[k].null) match_value(t, v[k], *it);
            READ_CHECK(k == n, "read-values", "length of the values");
            walk(vs.begin(), vs.end(), n, [&](std::size_t i, const auto& x) { if (!v[i].null) match_value(t, v[i], x); });
        }
        if constexpr (std::is_same_v<L, sp::null_array>)
        {
            READ_CHECK(std::size_t(std::ranges::distance(a.bitmap())) == n && std::size_t(std::ranges::distance(a.values())) == n, "read-size", "values and bitmap of a null array");
            for (bool b : a.bitmap()) READ_CHECK(!b, "read-bitmap", "a null array has a value");
        }
        // the accessors of a non constant object
        L& m = const_cast<L&>(a);
        if constexpr (!requires { m.push_back(m[0]); })
            if (!g_const_only)
            {
                for (std::size_t i = 0; i < n; ++i) match_elem(t, v[i], m[i]);
                k = 0;
                for (auto it = m.begin(); it != m.end(); ++it, ++k)
                {
                    READ_CHECK(k < n, "read-iteration", "iteration of a non constant object does not end");
                    match_elem(t, v[k], *it);
                }
                READ_CHECK(k == n, "read-iteration", "iteration of a non constant object ends after " + nn((long long) k) + " of " + nn((long long) n) + " elements");
            }
        check_children(a, t);
        if (!g_const_only) check_children(m, t);
    }
    static sp::data_type expected_type(const Ty& t)
    {
        using D = sp::data_type;
        switch (t.k == K::DICT ? t.aux : t.k)
        {
            case K::NA: return D::NA;
            case K::I8: return D::INT8;
            case K::U8: return D::UINT8;
            case K::I16: return D::INT16;
            case K::U16: return D::UINT16;
            case K::I32: return D::INT32;
            case K::U32: return D::UINT32;
            case K::I64: return D::INT64;
            case K::U64: return D::UINT64;
            case K::F16: return D::HALF_FLOAT;
            case K::F32: return D::FLOAT;
            case K::F64: return D::DOUBLE;
            case K::STR: return D::STRING;
            case K::LSTR: return D::LARGE_STRING;
            case K::LIST: return D::LIST;
            case K::LLIST: return D::LARGE_LIST;
            case K::LV: return D::LIST_VIEW;
            case K::LLV: return D::LARGE_LIST_VIEW;
            case K::FSL: return D::FIXED_SIZED_LIST;
            case K::STRUCT: return D::STRUCT;
            case K::DU: return D::DENSE_UNION;
            case K::SU: return D::SPARSE_UNION;
            case K::REE: return D::RUN_ENCODED;
            default: return D::BINARY_VIEW;
        }
    }
    void read_array(const sp::array& a, const Ty& t, const Vals& v)
    {
        const std::size_t n = v.size();
        READ_CHECK(a.size() == n, "read-size", "size is " + nn((long long) a.size()) + " instead of " + nn((long long) n));
        READ_CHECK(a.empty() == (n == 0), "read-size", "empty() is wrong");
        READ_CHECK(a.data_type() == expected_type(t), "read-type", "data_type() is " + nn((long long) a.data_type()) + " for " + show(t));
        for (std::size_t i = 0; i < n; ++i)
        {
            match_ref(t, v[i], a[i]);
            match_ref(t, v[i], a.at(i));
        }
        expect_out_of_range([&] { (void) a.at(n); }, "array::at");
        match_pairs(t, v, a);
        if (n)
        {
            match_ref(t, v.front(), a.front());
            match_ref(t, v.back(), a.back());
        }
        a.visit([&](const auto& l)
        {
            using L = std::remove_cvref_t<decltype(l)>;
            if constexpr (!std::is_same_v<L, sp::primitive_array<bool>>) read_layout<L>(l, t, v);
        });
    }
    static void check_child(const sp::array_wrapper* c, const Ty& t)
    {
        READ_CHECK(c != nullptr && c->data_type() == expected_type(t), "read-type", "the child has another type than " + show(t));
    }
    #define INST(...) template void read_layout<__VA_ARGS__>(const __VA_ARGS__&, const Ty&, const Vals&);
    INST(sp::string_view_array)
    INST(sp::binary_view_array)
}
