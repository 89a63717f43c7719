// Typed layouts behind one interface; reading of arrays by every access path the library offers.
#pragma once
#include "cdata.hpp"
#include <sparrow/array.hpp>
#include <sparrow/layout/variable_size_binary_view_array.hpp>

namespace sim::inter
{
    namespace sp = sparrow;
    struct Blame { u32 mask = ANY; const char* where = ""; };
    extern thread_local bool g_const_only; // only operations a constant object offers
    extern thread_local Blame g_blame; // what a wrong read is a violation of
    #define READ_CHECK(cond, kind, msg) INTER_CHECK(cond, ::sim::inter::g_blame.mask, kind, std::string(::sim::inter::g_blame.where) + ": " + (msg))

    struct Typed
    {
        virtual ~Typed() = default;
        virtual std::unique_ptr<Typed> clone() const = 0;
        virtual std::unique_ptr<Typed> steal() = 0;
        virtual void assign(const Typed& o) = 0;  // same layout
        virtual void massign(Typed& o) = 0;       // same layout
        virtual sp::array wrap_move() = 0;
        virtual sp::array wrap_ptr() = 0;
        virtual sp::array wrap_shared() = 0;
        virtual bool can_slice() const = 0;
        virtual std::unique_ptr<Typed> slice(std::size_t i, std::size_t j, bool view) const = 0;
        virtual std::pair<ArrowArray*, ArrowSchema*> structures() = 0;
        virtual std::pair<ArrowArray, ArrowSchema> extract() = 0;
        virtual ArrowArray extract_a() = 0;
        virtual ArrowSchema extract_s() = 0;
        virtual bool owns_a() const = 0;
        virtual bool owns_s() const = 0;
        virtual void read(const Ty& t, const Vals& v) const = 0;
        virtual bool equal(const Typed& o) const = 0;
        virtual bool can_mutate() const = 0;
        // one size-changing or element mutation, drawn from r. Returns false if it was refused by an exception.
        virtual bool mutate(const Ty& t, Vals& v, u64 r, bool size_only) = 0;
        // assigns an element of a child (of a child, ...). Returns false if there is none
        virtual bool mutate_child(const Ty& t, u64 r) = 0;
    };
    using TypedP = std::unique_ptr<Typed>;

    // from Arrow structures
    TypedP typed_from(const Ty& t, sp::arrow_proxy&& p);
    // by public constructors, the way is drawn from g
    TypedP build_typed(const Ty& t, const Vals& v, Rng& g);
    sp::array build_array(const Ty& t, const Vals& v, Rng& g);
    // moves the content of a typed layout in an array
    void read_array(const sp::array& a, const Ty& t, const Vals& v);
    void match_ref(const Ty& t, const Val& v, const sp::array_traits::const_reference& r);

    bool poke(sp::array_wrapper& w, const Ty& t, Rng& g);
    template <class L> void read_layout(const L& a, const Ty& t, const Vals& v);

    template <class L> inline constexpr bool is_primitive_layout = false;
    template <class T> inline constexpr bool is_primitive_layout<sp::primitive_array<T>> = true;

    template <class T> T from_bits(u64 b) { T x; std::memcpy(&x, &b, sizeof(T)); return x; }

    template <class L>
    struct TypedL final : Typed
    {
        std::shared_ptr<L> p;
        explicit TypedL(std::shared_ptr<L> q) : p(std::move(q)) {}
        static const L& peer(const Typed& o) { return *static_cast<const TypedL&>(o).p; }
        static TypedP make(std::shared_ptr<L> q) { return TypedP(new TypedL(std::move(q))); }
        TypedP clone() const override { return make(std::make_shared<L>(std::as_const(*p))); }
        TypedP steal() override { return make(std::make_shared<L>(std::move(*p))); }
        void assign(const Typed& o) override { *p = peer(o); }
        void massign(Typed& o) override { *p = std::move(*static_cast<TypedL&>(o).p); }
        sp::array wrap_move() override { return sp::array(std::move(*p)); }
        sp::array wrap_ptr() override { return sp::array(p.get()); }
        sp::array wrap_shared() override { return sp::array(p); }
        bool can_slice() const override { return requires(const L& l) { l.slice(0, 0); }; }
        TypedP slice(std::size_t i, std::size_t j, bool view) const override
        {
            if constexpr (requires(const L& l) { l.slice(0, 0); })
                return make(view ? std::make_shared<L>(std::as_const(*p).slice_view(i, j)) : std::make_shared<L>(std::as_const(*p).slice(i, j)));
            else
                return {};
        }
        std::pair<ArrowArray*, ArrowSchema*> structures() override { return sp::get_arrow_structures(*p); }
        std::pair<ArrowArray, ArrowSchema> extract() override { return sp::extract_arrow_structures(std::move(*p)); }
        ArrowArray extract_a() override { return sp::extract_arrow_array(std::move(*p)); }
        ArrowSchema extract_s() override { return sp::extract_arrow_schema(std::move(*p)); }
        bool owns_a() const override { return sp::owns_arrow_array(std::as_const(*p)); }
        bool owns_s() const override { return sp::owns_arrow_schema(std::as_const(*p)); }
        void read(const Ty& t, const Vals& v) const override { read_layout<L>(*p, t, v); }
        bool equal(const Typed& o) const override
        {
            if constexpr (std::is_same_v<L, sp::binary_view_array>) return true; // its elements are not comparable
            else return std::as_const(*p) == peer(o);
        }
        static constexpr bool mutable_layout = is_primitive_layout<L> || std::is_same_v<L, sp::string_array> || std::is_same_v<L, sp::big_string_array>;
        bool can_mutate() const override { return mutable_layout; }
        bool mutate(const Ty& t, Vals& v, u64 r, bool size_only) override
        {
            if constexpr (mutable_layout)
            {
                Rng g(r);
                L& a = *p;
                const std::size_t n = v.size();
                using E = std::conditional_t<std::is_same_v<L, sp::string_array> || std::is_same_v<L, sp::big_string_array>, std::string, typename L::inner_value_type>;
                auto to = [](const Val& x) -> sp::nullable<E>
                {
                    if (x.null) return sp::nullable<E>(E{}, false);
                    if constexpr (std::is_same_v<E, std::string>) return sp::nullable<E>(E(x.s));
                    else return sp::nullable<E>(from_bits<E>(x.bits));
                };
                const Val x = gen_val(t, g, 1, 3);
                const sp::nullable<E> e = to(x);
                Vals after = v;
                u32 what = g.below(size_only ? 5 : 7);
                const std::size_t at = n ? g.below(u32(n)) : 0;
                switch (what)
                {
                    case 1: if (n) after.pop_back(); break;
                    case 2: after.insert(after.begin() + long(at), x); break;
                    case 3: if (n) after.erase(after.begin() + long(at)); break;
                    case 4: after.resize(g.below(u32(n) + 6), x); break;
                    case 5: case 6: if (n) after[at] = x; break;
                    default: after.push_back(x);
                }
                if (n == 0 && (what == 1 || what == 3 || what == 5 || what == 6)) return true;
                try
                {
                    Scope s;
                    switch (what)
                    {
                        case 1: a.pop_back(); break;
                        case 2: a.insert(a.cbegin() + long(at), e); break;
                        case 3: a.erase(a.cbegin() + long(at)); break;
                        case 4: a.resize(after.size(), e); break;
                        case 5: case 6:
                            if (x.null) a[at] = sp::nullval;
                            else a[at] = e;
                            break;
                        default: a.push_back(e);
                    }
                }
                catch (const std::bad_alloc&) { throw; }
                catch (const std::exception&) { return false; }
                v = after;
                return true;
            }
            else return true;
        }
        bool mutate_child(const Ty& t, u64 r) override { return poke_child(*p, t, r); }
        static bool poke_child(L& l, const Ty& t, u64 r)
        {
            Rng g(r);
            if constexpr (requires { l.raw_child(0u); }) { std::size_t i = g.below(u32(t.kids.size())); return !t.kids.empty() && poke(*l.raw_child(i), *t.kids[i], g); }
            else if constexpr (requires { l.raw_flat_array(); }) return poke(*l.raw_flat_array(), *t.kids[0], g);
            else return false;
        }
    };
}
