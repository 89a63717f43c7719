#include "gbuild.hpp"
#include <array>
#include <cstring>
#include <ranges>
#include <sparrow/builder/builder.hpp>
#include <tuple>
#include <variant>

namespace sim::inter
{
    thread_local i64 g_throw_in = 0;
    thread_local u32 g_thrown = 0;
    void throw_tick()
    {
        if (g_throw_in > 0 && --g_throw_in == 0)
        {
            ++g_thrown;
            throw RangeError();
        }
    }

    // Tr<T>: type, random value and standard value of T.
    // A wish for an encoding around a range concerns the elements of the range: vector<dict_encode<vector<int>>> is a list of
    // dictionary encoded integers; around the field of a tuple it concerns the field: tuple<dict_encode<string>>.
    // (A range inside a tuple would be encoded twice; such containers are not used.)
    template <class T> struct Tr;
    static TyP ty(K k, std::vector<TyP> kids = {})
    {
        auto t = std::make_shared<Ty>();
        t->k = k;
        t->kids = std::move(kids);
        if (is_union(k)) for (std::size_t i = 0; i < t->kids.size(); ++i) t->ids.push_back(u8(i));
        return t;
    }
    static TyP dict_of(TyP t)
    {
        auto d = std::make_shared<Ty>();
        d->k = K::DICT;
        d->aux = K::U64;
        d->kids = {t};
        return d;
    }
    static TyP runs_of(TyP t) { return ty(K::REE, {ty(K::U64), t}); }
    template <class E> struct Item { static TyP type(bool large) { return Tr<E>::type(large); } };
    template <class E> struct Item<sp::nullable<E>> { static TyP type(bool large) { return Item<E>::type(large); } };
    static TyP encode_items(const TyP& t, TyP (*e)(TyP))
    {
        auto r = std::make_shared<Ty>(*t);
        r->kids[0] = e(r->kids[0]);
        return r;
    }
    template <class E> struct Item<sp::dict_encode<E>> { static TyP type(bool large) { return encode_items(Tr<E>::type(large), dict_of); } };
    template <class E> struct Item<sp::run_end_encode<E>> { static TyP type(bool large) { return encode_items(Tr<E>::type(large), runs_of); } };
    template <class T> constexpr K scalar_kind()
    {
        if constexpr (std::is_same_v<T, std::int8_t>) return K::I8;
        else if constexpr (std::is_same_v<T, std::uint8_t>) return K::U8;
        else if constexpr (std::is_same_v<T, std::int16_t>) return K::I16;
        else if constexpr (std::is_same_v<T, std::uint16_t>) return K::U16;
        else if constexpr (std::is_same_v<T, std::int32_t>) return K::I32;
        else if constexpr (std::is_same_v<T, std::uint32_t>) return K::U32;
        else if constexpr (std::is_same_v<T, std::int64_t>) return K::I64;
        else if constexpr (std::is_same_v<T, std::uint64_t>) return K::U64;
        else if constexpr (std::is_same_v<T, float>) return K::F32;
        else return K::F64;
    }
    template <class T> requires std::is_scalar_v<T>
    struct Tr<T>
    {
        static TyP type(bool) { return ty(scalar_kind<T>()); }
        static Val gen(Rng& g) { return gen_val(*type(false), g, 0, 1); }
        static T make(const Val& v, Rng&) { return from_bits<T>(v.bits); }
    };
    template <> struct Tr<std::string>
    {
        static TyP type(bool) { return ty(K::STR); }
        static Val gen(Rng& g) { return gen_val(*type(false), g, 0, 1); }
        static std::string make(const Val& v, Rng&) { return v.s; }
    };
    template <class T> struct Tr<std::vector<T>>
    {
        static TyP type(bool large) { return ty(large ? K::LLIST : K::LIST, {Item<T>::type(large)}); }
        static Val gen(Rng& g)
        {
            Val v;
            v.null = false;
            std::size_t n = g.chance(1, 4) ? 0 : g.below(4);
            bool runs = g.chance(1, 2); // equal neighbours matter to the encodings
            for (std::size_t i = 0; i < n; ++i) v.kids.push_back(runs && i && g.chance(1, 2) ? v.kids.back() : Tr<T>::gen(g));
            return v;
        }
        static std::vector<T> make(const Val& v, Rng& g)
        {
            std::vector<T> r;
            for (auto& x : v.kids) r.push_back(Tr<T>::make(x, g));
            return r;
        }
    };
    template <class T, std::size_t N> struct Tr<std::array<T, N>>
    {
        static TyP type(bool large)
        {
            auto t = std::make_shared<Ty>();
            t->k = K::FSL;
            t->width = N;
            t->kids = {Item<T>::type(large)};
            return t;
        }
        static Val gen(Rng& g)
        {
            Val v;
            v.null = false;
            for (std::size_t i = 0; i < N; ++i) v.kids.push_back(Tr<T>::gen(g));
            return v;
        }
        static std::array<T, N> make(const Val& v, Rng& g)
        {
            std::array<T, N> r;
            for (std::size_t i = 0; i < N; ++i) r[i] = Tr<T>::make(v.kids[i], g);
            return r;
        }
    };
    template <class... T> struct Tr<std::tuple<T...>>
    {
        static TyP type(bool large) { return ty(K::STRUCT, {Tr<T>::type(large)...}); }
        static Val gen(Rng& g)
        {
            Val v;
            v.null = false;
            v.kids = {Tr<T>::gen(g)...};
            return v;
        }
        static std::tuple<T...> make(const Val& v, Rng& g)
        {
            std::size_t i = 0;
            return std::tuple<T...>{Tr<T>::make(v.kids[i++], g)...};
        }
    };
    template <class... T> struct Tr<std::variant<T...>>
    {
        static TyP type(bool large) { return ty(K::SU, {Tr<T>::type(large)...}); }
        static Val gen(Rng& g)
        {
            Val v;
            v.null = false;
            v.alt = g.below(u32(sizeof...(T)));
            u32 i = 0;
            ((i++ == v.alt ? (v.kids.push_back(Tr<T>::gen(g)), 0) : 0), ...);
            return v;
        }
        static std::variant<T...> make(const Val& v, Rng& g)
        {
            std::variant<T...> r;
            u32 i = 0;
            ((i++ == v.alt ? (r = Tr<T>::make(v.kids[0], g), 0) : 0), ...);
            return r;
        }
    };
    template <class T> struct Tr<sp::nullable<T>>
    {
        static TyP type(bool large) { return Tr<T>::type(large); }
        static Val gen(Rng& g)
        {
            if (g.chance(1, 3)) return Val();
            return Tr<T>::gen(g);
        }
        static sp::nullable<T> make(const Val& v, Rng& g)
        {
            if (!v.null) return sp::nullable<T>(Tr<T>::make(v, g));
            if (g.chance(1, 2)) return sp::nullable<T>(sp::nullval);
            Rng h(g.next());
            return sp::nullable<T>(Tr<T>::make(Tr<T>::gen(h), h), false); // a null that hides a value
        }
    };
    template <class T> struct Tr<sp::dict_encode<T>>
    {
        static TyP type(bool large) { return dict_of(Tr<T>::type(large)); }
        static Val gen(Rng& g) { return Tr<T>::gen(g); }
        static sp::dict_encode<T> make(const Val& v, Rng& g) { return sp::dict_encode<T>(Tr<T>::make(v, g)); }
    };
    template <class T> struct Tr<sp::run_end_encode<T>>
    {
        static TyP type(bool large) { return runs_of(Tr<T>::type(large)); }
        static Val gen(Rng& g) { return Tr<T>::gen(g); }
        static sp::run_end_encode<T> make(const Val& v, Rng& g) { return sp::run_end_encode<T>(Tr<T>::make(v, g)); }
    };

    template <class A> static TypedP typed(A&& a) { using L = std::remove_cvref_t<A>; return TypedL<L>::make(std::make_shared<L>(std::forward<A>(a))); }
    template <class T>
    static std::vector<T> container(const Vals& v, Rng& g)
    {
        Pause p; // the input is the caller's
        std::vector<T> c;
        c.reserve(v.size());
        for (auto& x : v) c.push_back(Tr<T>::make(x, g));
        return c;
    }
    template <class T>
    static Vals values(Rng& g, std::size_t n)
    {
        Vals r;
        u32 repeat = g.below(3);
        Vals pool;
        if (repeat == 2) for (u32 i = 0; i < 3; ++i) pool.push_back(Tr<T>::gen(g));
        for (std::size_t i = 0; i < n; ++i)
        {
            if (repeat == 1 && i && g.chance(1, 2)) r.push_back(r.back());
            else if (repeat == 2) r.push_back(pool[g.below(3)]);
            else r.push_back(Tr<T>::gen(g));
        }
        return r;
    }
    struct Caller // harness memory that outlives a failed call
    {
        template <class C> struct Held { std::unique_ptr<C> p; ~Held() { Pause x; p.reset(); } };
    };
    // Tick: the range is a view whose element access may throw; Enc: encoding at the top level; Large: large lists
    enum Top { PLAIN, DICTIONARY, RUNS };
    template <class T, Top E = PLAIN, bool LARGE = false, bool VIEWS = true>
    static Shape shape()
    {
        Shape s;
        s.t = Item<T>::type(LARGE);
        if (E == DICTIONARY) s.t = dict_of(s.t);
        if (E == RUNS) s.t = runs_of(s.t);
        s.gen = values<T>;
        s.make = [](const Vals& v, Rng& g) -> TypedP
        {
            typename Caller::template Held<std::vector<T>> c;
            { Pause p; c.p = std::make_unique<std::vector<T>>(container<T>(v, g)); }
            auto go = [&](auto&& range) -> TypedP
            {
                if constexpr (LARGE) return typed(sp::build(std::forward<decltype(range)>(range), sp::large_list_flag));
                else return typed(sp::build(std::forward<decltype(range)>(range)));
            };
            if constexpr (E == PLAIN)
            {
                if constexpr (VIEWS)
                    if (g_throw_in || g.chance(1, 3))
                        return go(*c.p | std::views::transform([](const T& x) -> const T& { throw_tick(); return x; }));
                if (g.chance(1, 3)) return go(std::move(*c.p));
                return go(std::as_const(*c.p));
            }
            else
            {
                using W = std::conditional_t<E == DICTIONARY, sp::dict_encode<std::vector<T>>, sp::run_end_encode<std::vector<T>>>;
                typename Caller::template Held<W> w;
                { Pause p; w.p = std::make_unique<W>(std::move(*c.p)); }
                return go(std::as_const(*w.p));
            }
        };
        return s;
    }
    const std::vector<Shape>& shapes()
    {
        using S = std::string;
        using namespace std;
        using sp::dict_encode;
        using sp::nullable;
        using sp::run_end_encode;
        using NI = nullable<int32_t>;
        using NS = nullable<S>;
        static const std::vector<Shape> all = []
        {
            Pause p;
            return std::vector<Shape>{
                shape<int32_t>(), shape<nullable<int64_t>>(), shape<nullable<uint8_t>>(), shape<double>(), shape<S>(), shape<NS>(),
                shape<vector<int32_t>>(), shape<nullable<vector<NI>>>(), shape<vector<NS>>(), shape<nullable<vector<S>>>(),
                shape<vector<vector<nullable<int16_t>>>>(), shape<nullable<vector<nullable<vector<NS>>>>>(),
                shape<vector<int32_t>, PLAIN, true>(), shape<nullable<vector<vector<S>>>, PLAIN, true>(),
                shape<array<int32_t, 3>>(), shape<nullable<array<NI, 2>>>(), shape<array<S, 2>>(), shape<array<uint16_t, 12>>(),
                shape<tuple<int32_t, double>>(), shape<nullable<tuple<NS, NI>>>(), shape<tuple<vector<float>, S, uint64_t>>(), shape<nullable<tuple<nullable<vector<NI>>, array<int8_t, 2>>>>(),
                shape<variant<int32_t, S>>(), shape<variant<NI, NS, nullable<double>>>(), shape<vector<variant<int32_t, float>>>(), shape<tuple<int32_t, variant<NI, vector<S>>>>(),
                shape<int32_t, DICTIONARY>(), shape<S, DICTIONARY>(), shape<NS, DICTIONARY>(), shape<vector<NI>, DICTIONARY>(), shape<tuple<int32_t, S>, DICTIONARY>(), shape<variant<int32_t, S>, DICTIONARY>(),
                shape<int32_t, RUNS>(), shape<NS, RUNS>(), shape<vector<S>, RUNS>(), shape<nullable<int64_t>, RUNS>(), shape<array<NI, 2>, RUNS>(), shape<variant<NI, S>, RUNS>(),
                shape<tuple<int32_t, dict_encode<S>>>(), shape<tuple<run_end_encode<S>, int32_t>>(), shape<dict_encode<vector<S>>>(), shape<run_end_encode<vector<S>>>(),
                shape<dict_encode<nullable<vector<NS>>>>(), shape<tuple<dict_encode<NS>, run_end_encode<tuple<int32_t, NS>>>>(), shape<vector<run_end_encode<vector<NS>>>>(),
                shape<run_end_encode<array<NI, 3>>>(), shape<dict_encode<array<S, 2>>>(), shape<tuple<vector<dict_encode<vector<S>>>, NI>>(),
            };
        }();
        return all;
    }
}
