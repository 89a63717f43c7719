// World for M03 / F03: buffer, buffer_adaptor, u8_buffer against a std::vector model, with accounting allocators.
#include "common.hpp"
#include "worlds.hpp"
#include <cstring>
#include <list>
#include <memory>
#include <memory_resource>
#include <set>
#include <sparrow/buffer/buffer.hpp>
#include <sparrow/buffer/buffer_adaptor.hpp>
#include <sparrow/buffer/u8_buffer.hpp>

namespace sim
{
    namespace
    {
        // ---- accounting memory ---------------------------------------------------
        struct Books
        {
            struct Blk { std::size_t bytes; int owner; };
            std::map<void*, Blk> live;
            void* take(std::size_t bytes, int owner)
            {
                void* p = ::operator new(bytes ? bytes : 1); // library allocation: may be failed by the simulator
                Pause q;
                live[p] = {bytes, owner};
                return p;
            }
            void give(void* p, std::size_t bytes, int owner)
            {
                {
                    Pause q;
                    auto it = live.find(p);
                    if (it == live.end())
                    {
                        if (!p) fail("deallocate-null", "an allocator was given a null block of " + num(bytes) + " bytes");
                        fail("deallocate-unknown", "a block the allocator never returned, or already got back, is deallocated");
                    }
                    if (it->second.bytes != bytes)
                        fail("deallocate-size", "block of " + num(it->second.bytes) + " bytes given back as " + num(bytes));
                    if (it->second.owner != owner)
                        fail("deallocate-foreign", "block of allocator " + num(it->second.owner) + " given back to allocator " + num(owner));
                    live.erase(it);
                }
                ::operator delete(p);
            }
        };
        Books* books = nullptr;

        template <class T>
        struct Acc // a custom allocator: type erased by any_allocator
        {
            using value_type = T;
            int id;
            explicit Acc(int i) : id(i) {}
            template <class U> Acc(const Acc<U>& o) : id(o.id) {}
            T* allocate(std::size_t n) { return static_cast<T*>(books->take(n * sizeof(T), id)); }
            void deallocate(T* p, std::size_t n) { books->give(p, n * sizeof(T), id); }
            template <class U> bool operator==(const Acc<U>& o) const { return id == o.id; }
        };
        struct Res2 : std::pmr::memory_resource
        {
            int id;
            explicit Res2(int i) : id(i) {}
            void* do_allocate(std::size_t b, std::size_t) override { return books->take(b, id); }
            void do_deallocate(void* p, std::size_t b, std::size_t) override { books->give(p, b, id); }
            bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
        };

        // ---- tracked elements ----------------------------------------------------
        // Owns heap memory and knows whether it is alive: a construction over a live element, an assignment to
        // raw memory, a missing or double destruction are all noticed.
        struct Tracked
        {
            static constexpr u64 ALIVE = 0x417a11fe0b5ec7edull;
            static inline i64 live = 0;
            int* p;
            u64 magic;
            explicit Tracked(int v) : p(new int(v)), magic(ALIVE) { ++live; }
            Tracked() : Tracked(0) {}
            Tracked(const Tracked& o) : p(nullptr)
            {
                o.need("copied");
                p = o.p ? new int(*o.p) : nullptr;
                magic = ALIVE;
                ++live;
            }
            Tracked(Tracked&& o) noexcept : p(nullptr)
            {
                o.need("moved");
                p = o.p;
                o.p = nullptr;
                magic = ALIVE;
                ++live;
            }
            Tracked& operator=(const Tracked& o)
            {
                need("assigned to");
                o.need("copied");
                int* q = o.p ? new int(*o.p) : nullptr;
                delete p;
                p = q;
                return *this;
            }
            Tracked& operator=(Tracked&& o) noexcept
            {
                need("assigned to");
                o.need("moved");
                if (this != &o) { delete p; p = o.p; o.p = nullptr; }
                return *this;
            }
            ~Tracked()
            {
                need("destroyed");
                magic = 0xDEADDEADDEADDEADull;
                delete p;
                --live;
            }
            void need(const char* what) const
            {
                if (magic != ALIVE) fail("element-lifetime", std::string("an element which is not alive is ") + what);
            }
            bool operator==(const Tracked& o) const { return (p ? *p : -7) == (o.p ? *o.p : -7); }
        };

        template <class T> struct Elem
        {
            static T make(int v) { return T(v); }
            static int val(const T& t) { return int(t); }
            static constexpr int mask = sizeof(T) == 1 ? 0x7f : 0x7fff;
        };
        template <> struct Elem<Tracked>
        {
            static Tracked make(int v) { return Tracked(v); }
            static int val(const Tracked& t)
            {
                t.need("read");
                return t.p ? *t.p : -7;
            }
            static constexpr int mask = 0x7fff;
        };

        enum Code { CTOR, CTOR_N, CTOR_NV, CTOR_IT, CTOR_IL, CTOR_RANGE, CTOR_ADOPT, COPY, COPYA, MOVE, MOVEA, ASSIGN, MASSIGN, ILASSIGN, SWAP, SET,
                    PUSH, PUSHOWN, POP, INS1, INSOWN, INSMOVE, INSN, INSNOWN, INSR, INSRANGE, INSIL, EMPL, ER1, ERR, RESIZE, RESIZEV, RESIZEOWN, RESERVE,
                    SHRINK, CLEAR, U8, EQ, NCODES };
        const std::vector<OpInfo> infos = {
            {"ctor", 3}, {"ctor_n", 3}, {"ctor_n_value", 3}, {"ctor_iterators", 3}, {"ctor_ilist", 2}, {"ctor_range", 2}, {"ctor_adopt", 2}, {"copy", 4},
            {"copy_alloc", 3}, {"move", 3}, {"move_alloc", 3}, {"copy_assign", 6}, {"move_assign", 5}, {"ilist_assign", 3}, {"swap", 3}, {"set", 4},
            {"push_back", 10}, {"push_back_own", 4}, {"pop_back", 5}, {"insert_one", 6}, {"insert_own", 5}, {"insert_rvalue", 4}, {"insert_n", 5},
            {"insert_n_own", 4}, {"insert_iterators", 6}, {"insert_range", 3}, {"insert_ilist", 3}, {"emplace", 4}, {"erase_one", 6}, {"erase_range", 6},
            {"resize", 5}, {"resize_value", 5}, {"resize_own", 3}, {"reserve", 4}, {"shrink_to_fit", 4}, {"clear", 3}, {"u8_buffer", 3}, {"equal", 2}};

        using Model = std::vector<int>;

        // T: element type; S: element type of the storage (buffer<S>); adaptor if different.
        template <class T, class S>
        struct Runner
        {
            static constexpr bool adapted = !std::is_same_v<T, S>;
            using Buf = sparrow::buffer<S>;
            using E = Elem<T>;
            static constexpr std::size_t K = sizeof(T) / sizeof(S);
            struct Slot
            {
                std::unique_ptr<Buf> b;
                Model m;
                int alloc = 0; // 0: std; 1, 2: pmr; 3, 4: custom
                bool valued = true;
            };
            Slot s[3];
            std::unique_ptr<Res2> res[2];

            template <class F>
            decltype(auto) with_alloc(int id, F&& f)
            {
                if (id == 0) return f(std::allocator<S>());
                if (id <= 2) return f(std::pmr::polymorphic_allocator<S>(res[id - 1].get()));
                return f(Acc<S>(id));
            }
            static decltype(auto) view(Buf& b)
            {
                if constexpr (adapted) return sparrow::make_buffer_adaptor<T>(b);
                else return (b);
            }
            static decltype(auto) view(const Buf& b)
            {
                if constexpr (adapted) return sparrow::make_buffer_adaptor<const T>(b);
                else return (b);
            }
            static int gen(Rng& r) { return int(r.below(1000)) & E::mask; }

            void drop(Slot& x)
            {
                lib([&] { x.b.reset(); });
                x.m.clear();
                x.valued = true;
                x.alloc = 0;
            }
            static Model read(const Buf& b)
            {
                Model m;
                decltype(auto) v = view(b);
                for (std::size_t i = 0; i < v.size(); ++i) m.push_back(E::val(v[i]));
                return m;
            }
            void check(Slot& x, const char* where)
            {
                if (!x.b || !x.valued) return;
                auto& m = x.m;
                {
                    const Buf& cb = *x.b;
                    decltype(auto) c = view(cb);
                    SIM_CHECK(c.size() == m.size(), "buffer-size", std::string(where) + ": size " + num(c.size()) + " expected " + num(m.size()));
                    SIM_CHECK(c.empty() == m.empty(), "buffer-empty", where);
                    SIM_CHECK(c.capacity() >= c.size(), "buffer-capacity", std::string(where) + ": capacity " + num(c.capacity()) + " size " + num(c.size()));
                    for (std::size_t i = 0; i < m.size(); ++i)
                    {
                        SIM_CHECK(E::val(c[i]) == m[i], "buffer-index",
                                  std::string(where) + ": element " + num(i) + " of " + num(m.size()) + " is " + num(E::val(c[i])) + ", expected " + num(m[i]));
                        SIM_CHECK(E::val(c.data()[i]) == m[i], "buffer-data", std::string(where) + ": element " + num(i));
                    }
                    std::size_t n = 0;
                    for (auto it = c.cbegin(); it != c.cend(); ++it, ++n)
                        SIM_CHECK(n < m.size() && E::val(*it) == m[n], "buffer-iteration", std::string(where) + ": element " + num(n));
                    SIM_CHECK(n == m.size(), "buffer-iteration", where);
                    n = m.size();
                    for (auto it = c.crbegin(); it != c.crend(); ++it)
                    {
                        SIM_CHECK(n > 0, "buffer-reverse-iteration", where);
                        --n;
                        SIM_CHECK(E::val(*it) == m[n], "buffer-reverse-iteration", std::string(where) + ": element " + num(n));
                    }
                    SIM_CHECK(n == 0, "buffer-reverse-iteration", where);
                    if (!m.empty())
                        SIM_CHECK(E::val(c.front()) == m.front() && E::val(c.back()) == m.back(), "buffer-front-back", where);
                }
                {
                    decltype(auto) v = view(*x.b);
                    std::size_t n = 0;
                    for (auto it = v.begin(); it != v.end(); ++it, ++n)
                        SIM_CHECK(n < m.size() && E::val(*it) == m[n], "buffer-mutable-iteration", std::string(where) + ": element " + num(n));
                    SIM_CHECK(n == m.size(), "buffer-mutable-iteration", where);
                    if (!m.empty())
                        SIM_CHECK(E::val(v.front()) == m.front() && E::val(v.back()) == m.back() && E::val(v[m.size() / 2]) == m[m.size() / 2],
                                  "buffer-front-back", where);
                }
                u64 h = m.size();
                for (int v : m) h = h * 1000003 + u64(v);
                note(h);
            }
            // after a failed mutation: valid, nothing outside [lo, hi) changed; the model adopts what is there
            void resync(Slot& x, const Model& before, std::size_t lo, std::size_t hi)
            {
                if (!x.b) return;
                if constexpr (adapted)
                {
                    // whole elements only
                    SIM_CHECK(x.b->size() % K == 0, "failed-mutation-size", "storage of " + num(x.b->size()) + " units after a failed mutation");
                }
                Model now = read(*x.b);
                std::size_t keep = std::min(lo, before.size());
                SIM_CHECK(now.size() >= keep, "failed-mutation-collateral", "elements before the range are lost");
                for (std::size_t i = 0; i < keep; ++i)
                    SIM_CHECK(now[i] == before[i], "failed-mutation-collateral", "element " + num(i) + " changed by a failed mutation from " + num(lo));
                if (now.size() >= before.size())
                {
                    // what followed the range is still there, at the end or where it was
                    bool same = true, tail = true;
                    for (std::size_t i = std::min(hi, before.size()); i < before.size(); ++i)
                    {
                        same = same && now[i] == before[i];
                        tail = tail && now[now.size() - before.size() + i] == before[i];
                    }
                    SIM_CHECK(same || tail, "failed-mutation-collateral", "an element after the range is changed by a failed mutation");
                }
                x.m = now;
            }
            Slot* with_value(u32 i)
            {
                for (u32 k = 0; k < 3; ++k)
                {
                    Slot& x = s[(i + k) % 3];
                    if (x.b && x.valued) return &x;
                }
                return nullptr;
            }
            static Model content(Rng& r, std::size_t n)
            {
                Model m;
                for (std::size_t i = 0; i < n; ++i) m.push_back(gen(r));
                return m;
            }
            static std::vector<T> values(const Model& m)
            {
                std::vector<T> v;
                v.reserve(m.size());
                for (int x : m) v.push_back(E::make(x));
                return v;
            }
            static std::size_t gen_size(Rng& r) { return r.chance(1, 5) ? 0 : r.chance(1, 6) ? r.below(70) : r.below(12); }

            static std::vector<S> storage_of(const std::vector<T>& v)
            {
                if constexpr (adapted)
                {
                    std::vector<S> o(v.size() * K);
                    if (!v.empty()) std::memcpy(o.data(), v.data(), v.size() * sizeof(T));
                    return o;
                }
                else
                    return v;
            }

            void construct(const Op& op, Slot& d, Rng& r)
            {
                drop(d);
                int al = int(r.below(5));
                std::size_t n = gen_size(r);
                Model m = content(r, n);
                std::vector<T> tv = values(m);
                std::vector<S> v = storage_of(tv);
                std::unique_ptr<Buf> b;
                int used = al;
                T one = E::make(m.empty() ? 5 : m[0]);
                Res rs = Res::ok;
                switch (op.code)
                {
                    case CTOR:
                        m.clear();
                        rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(a); }); });
                        break;
                    case CTOR_N:
                        m.assign(n, 0);
                        rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(n * K, a); }); });
                        break;
                    case CTOR_NV:
                        if constexpr (adapted)
                        {
                            m.assign(n, 0);
                            rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(n * K, S(0), a); }); });
                        }
                        else
                        {
                            m.assign(n, E::val(one));
                            rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(n, one, a); }); });
                        }
                        break;
                    case CTOR_IT:
                        if (r.chance(1, 3))
                        {
                            std::list<S> l(v.begin(), v.end());
                            rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(l.begin(), l.end(), a); }); });
                        }
                        else
                            rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(v.cbegin(), v.cend(), a); }); });
                        break;
                    case CTOR_IL:
                        if constexpr (adapted)
                        {
                            m.assign(1, 0);
                            if constexpr (K == 2) rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b.reset(new Buf({S(0), S(0)}, a)); }); });
                            else if constexpr (K == 4) rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b.reset(new Buf({S(0), S(0), S(0), S(0)}, a)); }); });
                            else rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(K, S(0), a); }); });
                        }
                        else
                        {
                            m = content(r, 3);
                            T x = E::make(m[0]), y = E::make(m[1]), z = E::make(m[2]);
                            rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b.reset(new Buf({x, y, z}, a)); }); });
                        }
                        break;
                    case CTOR_RANGE:
                        rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(v, a); }); });
                        break;
                    case CTOR_ADOPT:
                    {
                        // the buffer takes the ownership of a block obtained from an equal allocator
                        std::size_t sz = v.size();
                        rs = guarded(op, [&] {
                            with_alloc(al, [&](auto a) {
                                S* p = sz ? std::allocator_traits<decltype(a)>::allocate(a, sz) : nullptr;
                                std::size_t built = 0;
                                try
                                {
                                    for (; built < sz; ++built) new (p + built) S(v[built]);
                                    b = std::make_unique<Buf>(p, sz, a);
                                }
                                catch (...)
                                {
                                    for (std::size_t i = 0; i < built; ++i) p[i].~S();
                                    if (p) std::allocator_traits<decltype(a)>::deallocate(a, p, sz);
                                    throw;
                                }
                            });
                        });
                        break;
                    }
                }
                if (rs == Res::ok)
                {
                    d.b = std::move(b);
                    d.m = m;
                    d.alloc = used;
                }
            }

            void step(const Op& op)
            {
                Rng r(op.r);
                Slot& d = s[op.a % 3];
                if (op.code <= CTOR_ADOPT) { construct(op, d, r); return; }
                Slot* src = with_value(op.b);
                if (op.code == COPY || op.code == COPYA || op.code == MOVE || op.code == MOVEA)
                {
                    if (!src || src == &d) return;
                    drop(d);
                    std::unique_ptr<Buf> b;
                    int al = int(r.below(5));
                    Model before = src->m;
                    Res rs = Res::ok;
                    if (op.code == COPY) { al = src->alloc; rs = guarded(op, [&] { b = std::make_unique<Buf>(*src->b); }); }
                    else if (op.code == COPYA) rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(*src->b, a); }); });
                    else if (op.code == MOVE)
                    {
                        al = src->alloc;
                        rs = guarded(op, [&] { b.reset(static_cast<Buf*>(::operator new(sizeof(Buf)))); });
                        if (rs == Res::ok)
                        {
                            Buf* raw = b.release();
                            lib([&] { b.reset(new (raw) Buf(std::move(*src->b))); });
                        }
                    }
                    else rs = guarded(op, [&] { with_alloc(al, [&](auto a) { b = std::make_unique<Buf>(std::move(*src->b), a); }); });
                    if (rs == Res::ok)
                    {
                        // polymorphic allocators are not propagated by a copy
                        if (op.code == COPY) al = -1;
                        d.b = std::move(b);
                        d.m = before;
                        d.alloc = al;
                        if (op.code == MOVE || op.code == MOVEA) { src->valued = false; src->alloc = -1; }
                    }
                    else
                        resync(*src, before, before.size(), before.size());
                    return;
                }
                if (op.code == ASSIGN || op.code == MASSIGN)
                {
                    if (!d.b || !src) return;
                    if (op.code == MASSIGN && src == &d) return;
                    Model before = src->m, own = d.m;
                    Res rs = op.code == ASSIGN ? guarded(op, [&] { *d.b = *src->b; }) : guarded(op, [&] { *d.b = std::move(*src->b); });
                    if (rs == Res::ok)
                    {
                        d.m = before;
                        d.valued = true;
                        if (op.code == MASSIGN) src->valued = false;
                    }
                    else
                    {
                        d.valued = true;
                        resync(d, own, 0, own.size());
                        if (src != &d)
                        {
                            if (op.code == ASSIGN) resync(*src, before, before.size(), before.size());
                            else resync(*src, before, 0, before.size());
                        }
                    }
                    return;
                }
                if (op.code == ILASSIGN)
                {
                    if (!d.b) return;
                    Model own = d.m;
                    Model m = content(r, 3);
                    Res rs;
                    if constexpr (adapted)
                    {
                        m.assign(1, 0);
                        if constexpr (K == 2) rs = guarded(op, [&] { *d.b = {S(0), S(0)}; });
                        else if constexpr (K == 4) rs = guarded(op, [&] { *d.b = {S(0), S(0), S(0), S(0)}; });
                        else rs = guarded(op, [&] { *d.b = {S(0), S(0), S(0), S(0), S(0), S(0), S(0), S(0)}; });
                    }
                    else
                    {
                        T x = E::make(m[0]), y = E::make(m[1]), z = E::make(m[2]);
                        rs = guarded(op, [&] { *d.b = {x, y, z}; });
                    }
                    d.valued = true;
                    if (rs == Res::ok) d.m = m;
                    else resync(d, own, 0, own.size());
                    return;
                }
                if (op.code == SWAP)
                {
                    if (!d.b || !src || src == &d || d.alloc != src->alloc || d.alloc < 0) return;
                    guarded(op, [&] { d.b->swap(*src->b); });
                    std::swap(d.m, src->m);
                    std::swap(d.valued, src->valued);
                    return;
                }
                if (op.code == EQ)
                {
                    Slot* o = with_value(op.c);
                    if (!src || !o) return;
                    bool e = false;
                    if (guarded(op, [&] { e = *src->b == *o->b; }) == Res::ok)
                        SIM_CHECK(e == (src->m == o->m), "buffer-equality", e ? "different buffers compare equal" : "equal buffers compare different");
                    return;
                }
                if (op.code == U8)
                {
                    if constexpr (adapted && sizeof(S) == 1)
                    {
                        drop(d);
                        std::size_t n = gen_size(r);
                        Model m = content(r, n);
                        std::vector<T> v = values(m);
                        T one = E::make(m.empty() ? 9 : m[0]);
                        u32 how = r.below(5);
                        std::unique_ptr<Buf> b;
                        if (how == 0 || how == 3) m.assign(n, E::val(one));
                        if (how == 2) { m = content(r, 3); }
                        T x = E::make(m.size() > 0 ? m[0] : 0), y = E::make(m.size() > 1 ? m[1] : 0), z = E::make(m.size() > 2 ? m[2] : 0);
                        Res rs = guarded(op, [&] {
                            using U = sparrow::u8_buffer<T>;
                            auto fin = [&](U& u) {
                                {
                                    Pause q;
                                    SIM_CHECK(u.size() == m.size(), "u8-buffer-size", "");
                                    for (std::size_t i = 0; i < m.size(); ++i) SIM_CHECK(E::val(u[i]) == m[i], "u8-buffer-content", "element " + num(i));
                                }
                                if (how == 3)
                                {
                                    U c(u);
                                    b = std::make_unique<Buf>(std::move(c).extract_storage());
                                }
                                else if (how == 4)
                                {
                                    U c(std::move(u));
                                    b = std::make_unique<Buf>(std::move(c).extract_storage());
                                }
                                else
                                    b = std::make_unique<Buf>(std::move(u).extract_storage());
                            };
                            if (how == 0 || how == 3) { U u(n, one); fin(u); }
                            else if (how == 2) { U u({x, y, z}); fin(u); }
                            else { U u(v); fin(u); }
                        });
                        if (rs == Res::ok) { d.b = std::move(b); d.m = m; d.alloc = 0; }
                    }
                    return;
                }
                // mutations of one buffer
                Slot* t = with_value(op.a);
                if (!t) return;
                Model before = t->m;
                Model& m = t->m;
                const std::size_t sz = m.size();
                std::size_t pos = op.b % (sz + 1);
                if (r.chance(1, 4)) pos = sz;
                std::size_t lo = sz, hi = sz; // range the step may change
                std::ptrdiff_t ret = -1;
                Model want = m;
                int x = gen(r);
                T one = E::make(x);
                Res rs = Res::ok;
                std::size_t own = sz ? op.c % sz : 0;
                auto at = [&](std::size_t i) { return want.begin() + std::ptrdiff_t(i); };
                decltype(auto) v = view(*t->b);
                auto cpos = [&](std::size_t i) { return std::next(v.cbegin(), std::ptrdiff_t(i)); };
                auto idx = [&](auto it) { return std::ptrdiff_t(it - v.begin()); };
                switch (op.code)
                {
                    case SET:
                        if (!sz) return;
                        lo = pos % sz; hi = lo + 1;
                        want[lo] = x;
                        rs = guarded(op, [&] { if (r.chance(1, 2)) v[lo] = one; else *std::next(v.begin(), std::ptrdiff_t(lo)) = one; });
                        break;
                    case PUSH:
                        want.push_back(x);
                        rs = guarded(op, [&] {
                            if (r.chance(1, 2)) v.push_back(one);
                            else v.push_back(E::make(x));
                        });
                        break;
                    case PUSHOWN:
                        if (!sz) return;
                        want.push_back(want[own]);
                        rs = guarded(op, [&] { v.push_back(v[own]); });
                        break;
                    case POP:
                        if (!sz) return;
                        want.pop_back();
                        lo = sz - 1;
                        rs = guarded(op, [&] { v.pop_back(); });
                        break;
                    case INS1:
                        want.insert(at(pos), x);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), one); ret = idx(it) == ret ? ret : -2; });
                        break;
                    case INSOWN:
                        if (!sz) return;
                        want.insert(at(pos), before[own]);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), v[own]); ret = idx(it) == ret ? ret : -2; });
                        break;
                    case INSMOVE:
                        want.insert(at(pos), x);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), std::move(one)); ret = idx(it) == ret ? ret : -2; });
                        break;
                    case EMPL:
                        want.insert(at(pos), x);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.emplace(cpos(pos), T(E::make(x))); ret = idx(it) == ret ? ret : -2; });
                        break;
                    case INSN:
                    {
                        std::size_t n = gen_size(r);
                        want.insert(at(pos), n, x);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), typename std::decay_t<decltype(v)>::size_type(n), one); ret = idx(it) == ret ? ret : -2; });
                        break;
                    }
                    case INSNOWN:
                    {
                        if (!sz) return;
                        std::size_t n = gen_size(r);
                        want.insert(at(pos), n, before[own]);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), typename std::decay_t<decltype(v)>::size_type(n), v[own]); ret = idx(it) == ret ? ret : -2; });
                        break;
                    }
                    case INSR:
                    case INSRANGE:
                    {
                        Model c = content(r, gen_size(r));
                        std::vector<T> tv = values(c);
                        want.insert(at(pos), c.begin(), c.end());
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        if (op.code == INSRANGE && !adapted)
                        {
                            if constexpr (!adapted)
                                rs = guarded(op, [&] { auto it = v.insert(cpos(pos), tv); ret = idx(it) == ret ? ret : -2; });
                        }
                        else
                            rs = guarded(op, [&] { auto it = v.insert(cpos(pos), tv.begin(), tv.end()); ret = idx(it) == ret ? ret : -2; });
                        break;
                    }
                    case INSIL:
                    {
                        Model c = content(r, 3);
                        want.insert(at(pos), c.begin(), c.end());
                        T a = E::make(c[0]), b = E::make(c[1]), e = E::make(c[2]);
                        lo = hi = pos; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.insert(cpos(pos), {a, b, e}); ret = idx(it) == ret ? ret : -2; });
                        break;
                    }
                    case ER1:
                        if (!sz) return;
                        pos %= sz;
                        want.erase(at(pos));
                        lo = pos; hi = pos + 1; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.erase(cpos(pos)); ret = idx(it) == ret ? ret : -2; });
                        break;
                    case ERR:
                    {
                        std::size_t n = r.chance(1, 6) ? 0 : r.chance(1, 5) ? sz - pos : r.below(u32(sz - pos + 1));
                        want.erase(at(pos), at(pos + n));
                        lo = pos; hi = pos + n; ret = std::ptrdiff_t(pos);
                        rs = guarded(op, [&] { auto it = v.erase(cpos(pos), cpos(pos + n)); ret = idx(it) == ret ? ret : -2; });
                        break;
                    }
                    case RESIZE:
                    {
                        std::size_t n = r.chance(1, 4) ? sz : gen_size(r);
                        want.resize(n, 0);
                        lo = std::min(n, sz);
                        rs = guarded(op, [&] { v.resize(n); });
                        break;
                    }
                    case RESIZEV:
                    {
                        std::size_t n = r.chance(1, 6) ? sz : gen_size(r);
                        want.resize(n, x);
                        lo = std::min(n, sz);
                        rs = guarded(op, [&] { v.resize(n, one); });
                        break;
                    }
                    case RESIZEOWN:
                    {
                        if (!sz) return;
                        std::size_t n = gen_size(r) + r.below(30);
                        want.resize(n, before[own]);
                        lo = std::min(n, sz);
                        rs = guarded(op, [&] { v.resize(n, v[own]); });
                        break;
                    }
                    case RESERVE:
                    {
                        std::size_t n = gen_size(r) * 2;
                        rs = guarded(op, [&] { v.reserve(n); });
                        if (rs == Res::ok) SIM_CHECK(v.capacity() >= n, "buffer-reserve", "capacity " + num(v.capacity()) + " after reserve(" + num(n) + ")");
                        break;
                    }
                    case SHRINK:
                        rs = guarded(op, [&] { v.shrink_to_fit(); });
                        break;
                    case CLEAR:
                        want.clear();
                        lo = 0;
                        rs = guarded(op, [&] { v.clear(); });
                        break;
                    default: return;
                }
                if (rs == Res::ok)
                {
                    SIM_CHECK(ret != -2, "buffer-returned-iterator", "the returned iterator does not designate position " + num(pos));
                    m = want;
                }
                else
                    resync(*t, before, lo, hi);
            }

            void run(const Program& p)
            {
                Books bk;
                books = &bk;
                Tracked::live = 0;
                res[0] = std::make_unique<Res2>(1);
                res[1] = std::make_unique<Res2>(2);
                for (std::size_t i = 0; i < p.ops.size(); ++i)
                {
                    set_op(i, infos[p.ops[i].code].name);
                    step(p.ops[i]);
                    for (auto& x : s) check(x, infos[p.ops[i].code].name);
                    u64 h = 0;
                    for (auto& x : s) h = h * 31 + (x.b ? 1 + x.valued + 4 * cls(x.m.size()) + 64 * u64(x.alloc + 1) : 0);
                    note_state(mix64(h * 8 + p.config));
                    if (std::is_same_v<T, Tracked>)
                    {
                        i64 n = 0;
                        for (auto& x : s)
                            if (x.b) n += i64(x.b->size());
                        SIM_CHECK(Tracked::live == n, "element-count", num(Tracked::live) + " elements are alive, the buffers hold " + num(n));
                    }
                    if (verbose())
                        vlog("  sizes %zu/%zu/%zu", s[0].m.size(), s[1].m.size(), s[2].m.size());
                }
                set_op(p.ops.size(), "end");
                for (auto& x : s) drop(x);
                SIM_CHECK(bk.live.empty(), "allocator-leak", num(bk.live.size()) + " blocks were never given back to their allocator");
                SIM_CHECK(Tracked::live == 0, "element-count", num(Tracked::live) + " elements never destroyed");
                books = nullptr;
            }
        };

        struct BufWorld : World
        {
            bool faults;
            explicit BufWorld(bool f) : faults(f) {}
            std::vector<OpInfo> ops() const override { return infos; }
            void generate(Program& p, Rng& rng) const override
            {
                p.config = rng.below(6);
                generate_ops(*this, p, rng, 4, 40, faults ? 1 : 0, 3);
            }
            void run(const Program& p) override
            {
                switch (p.config % 6)
                {
                    case 0: Runner<int, int>().run(p); break;
                    case 1:
                    case 2: Runner<Tracked, Tracked>().run(p); break;
                    case 3: Runner<u32, u8>().run(p); break;
                    case 4: Runner<double, u8>().run(p); break;
                    case 5: Runner<u32, u16>().run(p); break;
                }
            }
            std::string describe(const Program& p) const override
            {
                static const char* k[] = {"buffer<int>", "buffer<Tracked>", "buffer<Tracked>", "buffer_adaptor<uint32_t, buffer<uint8_t>>",
                                          "buffer_adaptor<double, buffer<uint8_t>>", "buffer_adaptor<uint32_t, buffer<uint16_t>>"};
                return k[p.config % 6];
            }
        };
    }
    World* make_buf(bool f) { return new BufWorld(f); }
}
