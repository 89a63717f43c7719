// World for M04 / F03: bitsets against a std::vector<bool> model.
#include "common.hpp"
#include "worlds.hpp"
#include <cstring>
#include <memory>
#include <sparrow/buffer/dynamic_bitset/dynamic_bitset.hpp>
#include <sparrow/buffer/dynamic_bitset/dynamic_bitset_view.hpp>
#include <sparrow/buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp>

namespace sim
{
    namespace
    {
        using Model = std::vector<bool>;

        enum Code { CTOR_N, CTOR_RANGE, CTOR_BLOCKS, COPY, MOVE, ASSIGN, MASSIGN, SWAP, SET, REFSET, REFOP, ITSET, PUSH, POP, INS1, INSN,
                    INSR, ER1, ERR, RESIZE, CLEAR, AT, WALK, JUMP, REFREF, EMPLACE, NCODES };
        const std::vector<OpInfo> infos = {
            {"ctor_n", 6}, {"ctor_range", 3}, {"ctor_blocks", 2}, {"copy", 3}, {"move", 2}, {"copy_assign", 3}, {"move_assign", 2},
            {"swap", 1}, {"set", 6}, {"ref_assign", 3}, {"ref_op", 3}, {"iter_assign", 3}, {"push_back", 10}, {"pop_back", 6},
            {"insert_one", 8}, {"insert_n", 6}, {"insert_range", 6}, {"erase_one", 7}, {"erase_range", 6}, {"resize", 8}, {"clear", 1},
            {"at", 2}, {"walk", 4}, {"jump", 4}, {"ref_to_ref", 2}, {"emplace", 2}};

        template <class BS> struct traits;
        template <class T> struct traits<sparrow::dynamic_bitset<T>> { static constexpr bool owning = true, resizable = true; };
        template <class T> struct traits<sparrow::dynamic_bitset_view<T>> { static constexpr bool owning = false, resizable = false; };
        template <class T> struct traits<sparrow::non_owning_dynamic_bitset<T>> { static constexpr bool owning = false, resizable = true; };

        template <class BS>
        struct Runner
        {
            using block = std::remove_const_t<typename BS::block_type>;
            static constexpr std::size_t BITS = sizeof(block) * 8;
            static constexpr bool owning = traits<BS>::owning, resizable = traits<BS>::resizable;
            struct Slot
            {
                std::unique_ptr<BS> b;
                Model m;
                block* ext = nullptr;                        // memory a view looks at (exact size)
                block pad = 0;                               // bits of its last block which are not the view's
                std::unique_ptr<sparrow::buffer<block>> buf; // buffer a non owning bitset works on
                bool valued = true;                          // false after being moved from
            };
            Slot s[3];
            bool mut_const_ok = true;

            void drop(Slot& x)
            {
                lib([&] { x.b.reset(); x.buf.reset(); });
                std::free(x.ext);
                x.ext = nullptr;
                x.m.clear();
                x.valued = true;
            }

            void check(Slot& x, const char* where)
            {
                if (!x.b || !x.valued) return;
                const BS& cb = *x.b;
                auto& m = x.m;
                std::size_t nulls = 0;
                for (bool v : m) nulls += !v;
                SIM_CHECK(cb.size() == m.size(), "bitset-size", std::string(where) + ": size " + num(cb.size()) + " expected " + num(m.size()));
                SIM_CHECK(cb.empty() == m.empty(), "bitset-empty", where);
                SIM_CHECK(cb.null_count() == nulls, "bitset-null-count",
                          std::string(where) + ": null_count " + num(cb.null_count()) + " expected " + num(nulls) + " size " + num(m.size()));
                for (std::size_t i = 0; i < m.size(); ++i)
                {
                    SIM_CHECK(cb.test(i) == m[i], "bitset-test", std::string(where) + ": bit " + num(i) + " of " + num(m.size()));
                    SIM_CHECK(cb[i] == m[i], "bitset-index", std::string(where) + ": bit " + num(i) + " of " + num(m.size()));
                    SIM_CHECK(bool((*x.b)[i]) == m[i], "bitset-ref", std::string(where) + ": bit " + num(i));
                }
                SIM_CHECK(cb.block_count() >= BS::compute_block_count(m.size()), "bitset-blocks", where);
                if (cb.data())
                    for (std::size_t i = 0; i < m.size(); ++i)
                        SIM_CHECK(bool((cb.data()[i / BITS] >> (i % BITS)) & 1) == m[i], "bitset-data", std::string(where) + ": bit " + num(i));
                if (!m.empty())
                {
                    SIM_CHECK(cb.front() == m.front() && cb.back() == m.back(), "bitset-front-back", where);
                    SIM_CHECK(bool(x.b->front()) == m.front() && bool(x.b->back()) == m.back(), "bitset-front-back", where);
                }
                // forward iteration
                std::size_t n = 0;
                for (auto it = cb.begin(); it != cb.end(); ++it, ++n)
                {
                    SIM_CHECK(n < m.size(), "bitset-iteration-length", std::string(where) + ": iteration of " + num(m.size()) + " bits does not end");
                    SIM_CHECK(*it == m[n], "bitset-iteration", std::string(where) + ": bit " + num(n));
                }
                SIM_CHECK(n == m.size(), "bitset-iteration-length", std::string(where) + ": iterated " + num(n) + " of " + num(m.size()));
                SIM_CHECK(std::size_t(cb.cend() - cb.cbegin()) == m.size(), "bitset-distance", where);
                // backward
                auto it = cb.end();
                for (std::size_t k = m.size(); k-- > 0;)
                {
                    --it;
                    SIM_CHECK(*it == m[k], "bitset-reverse-iteration", std::string(where) + ": bit " + num(k) + " of " + num(m.size()));
                }
                SIM_CHECK(it == cb.begin(), "bitset-reverse-iteration", std::string(where) + ": begin not reached");
                if (x.ext)
                {
                    SIM_CHECK(cb.data() == x.ext, "bitset-view-memory", where);
                    if (m.size() % BITS)
                        SIM_CHECK(block(x.ext[m.size() / BITS] >> (m.size() % BITS)) == x.pad, "bitset-view-padding", std::string(where) + ": bits after the view changed");
                }
                u64 h = m.size();
                for (bool v : m) h = h * 3 + v;
                note(h);
            }
            // after a failed mutation: self consistent, bits outside the touched range unchanged; adopt what is there
            void resync(Slot& x, const Model& before, std::size_t lo, std::size_t hi)
            {
                if (!x.b) return;
                const BS& cb = *x.b;
                Model now;
                for (std::size_t i = 0; i < cb.size(); ++i) now.push_back(cb.test(i));
                for (std::size_t i = 0; i < std::min({lo, now.size(), before.size()}); ++i)
                    SIM_CHECK(now[i] == before[i], "failed-mutation-collateral", "bit " + num(i) + " changed by a failed mutation of [" + num(lo) + ",...)");
                SIM_CHECK(now.size() >= std::min(lo, before.size()), "failed-mutation-collateral", "bits lost");
                if (now.size() == before.size())
                    for (std::size_t i = hi; i < now.size(); ++i)
                        SIM_CHECK(now[i] == before[i], "failed-mutation-collateral", "bit " + num(i) + " changed by a failed mutation");
                x.m = now;
                check(x, "after a failed mutation");
            }

            Model content(u64 r, std::size_t n, bool& uniform)
            {
                Rng g(r);
                u32 mode = g.below(4);
                Model m(n);
                for (std::size_t i = 0; i < n; ++i) m[i] = mode == 0 ? true : mode == 1 ? false : mode == 2 ? g.chance(1, 2) : g.chance(7, 8);
                uniform = mode < 2;
                return m;
            }
            static std::size_t pick_size(u32 a, u64 r)
            {
                static const std::size_t tab[] = {0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200};
                return (r & 1) ? tab[a % 24] : tab[a % 12];
            }

            void build(Slot& x, const Model& m, bool uniform, u32 how, const Op& op)
            {
                drop(x);
                Res r = Res::ok;
                if constexpr (owning)
                {
                    if (uniform && !m.empty() && how == 0)
                        r = guarded(op, [&] { x.b = std::make_unique<BS>(m.size(), bool(m[0])); });
                    else if (how <= 1)
                        r = guarded(op, [&] { x.b = std::make_unique<BS>(m); });
                    else
                    {
                        using alloc = std::allocator<block>;
                        std::size_t nb = BS::compute_block_count(m.size());
                        if (nb == 0) { r = guarded(op, [&] { x.b = std::make_unique<BS>(); }); }
                        else
                        {
                            std::size_t nulls = 0;
                            for (bool v : m) nulls += !v;
                            // the block pointer is taken over by the bitset
                            block* p = nullptr;
                            lib([&] { p = alloc().allocate(nb); });
                            Rng g(op.r + 5);
                            for (std::size_t i = 0; i < nb; ++i) p[i] = block(g.next());
                            for (std::size_t i = 0; i < m.size(); ++i)
                                if (m[i]) p[i / BITS] |= block(block(1) << (i % BITS)); else p[i / BITS] &= block(~(block(1) << (i % BITS)));
                            Op nf = op; nf.fault = 0;
                            r = guarded(nf, [&] {
                                if (op.c & 1) x.b = std::make_unique<BS>(p, m.size());
                                else x.b = std::make_unique<BS>(p, m.size(), nulls);
                            });
                        }
                    }
                }
                else
                {
                    std::size_t nb = (m.size() + BITS - 1) / BITS;
                    if constexpr (!resizable)
                    {
                        x.ext = static_cast<block*>(std::malloc(std::max<std::size_t>(1, nb) * sizeof(block)));
                        if (nb == 0) { std::free(x.ext); x.ext = static_cast<block*>(std::malloc(1)); }
                        Rng g(op.r + 5);
                        for (std::size_t i = 0; i < nb; ++i) x.ext[i] = block(g.next());
                        for (std::size_t i = 0; i < m.size(); ++i)
                            if (m[i]) x.ext[i / BITS] |= block(block(1) << (i % BITS)); else x.ext[i / BITS] &= block(~(block(1) << (i % BITS)));
                        x.pad = m.size() % BITS ? block(x.ext[nb - 1] >> (m.size() % BITS)) : block(0);
                        std::size_t nulls = std::size_t(std::count(m.begin(), m.end(), false));
                        r = guarded(op, [&] {
                            if (how == 2) x.b = std::make_unique<BS>(x.ext, m.size(), nulls);
                            else x.b = std::make_unique<BS>(x.ext, m.size());
                        });
                    }
                    else
                    {
                        lib([&] { x.buf = std::make_unique<sparrow::buffer<block>>(nb, block(0)); });
                        for (std::size_t i = 0; i < m.size(); ++i)
                            if (m[i]) (*x.buf)[i / BITS] |= block(block(1) << (i % BITS));
                        r = guarded(op, [&] { x.b = std::make_unique<BS>(x.buf.get(), m.size()); });
                    }
                }
                if (r == Res::ok) x.m = m; else drop(x);
            }

            template <class It>
            void check_iter(Slot& x, It it, std::size_t pos, const char* what)
            {
                std::size_t got = std::size_t(it - x.b->begin());
                SIM_CHECK(got == pos, "bitset-returned-iterator", std::string(what) + ": designates " + num(got) + " instead of " + num(pos));
                if (pos < x.m.size()) SIM_CHECK(bool(*it) == x.m[pos], "bitset-returned-iterator", what);
                else SIM_CHECK(it == x.b->end(), "bitset-returned-iterator", std::string(what) + ": not end()");
            }

            void step(const Op& op)
            {
                Slot& x = s[op.a % 3];
                Slot& y = s[(op.a / 3) % 3];
                bool uni;
                if (op.code != CTOR_N && op.code != CTOR_RANGE && op.code != CTOR_BLOCKS && (!x.b || !x.valued))
                {
                    Op o = op; o.fault = 0;
                    build(x, content(op.r, pick_size(op.b, op.r >> 3), uni), uni, 0, o);
                    return;
                }
                auto& m = x.m;
                const std::size_t n = m.size();
                Model before = m;
                Res r = Res::ok;
                switch (op.code)
                {
                    case CTOR_N: { auto c = content(op.r, pick_size(op.b, op.r >> 3), uni); build(x, c, uni, 0, op); break; }
                    case CTOR_RANGE: { auto c = content(op.r, pick_size(op.b, op.r >> 3), uni); build(x, c, false, 1, op); break; }
                    case CTOR_BLOCKS: { auto c = content(op.r, pick_size(op.b, op.r >> 3), uni); build(x, c, false, 2, op); break; }
                    case COPY:
                        if constexpr (owning)
                        {
                            if (&x == &y) return;
                            drop(y);
                            r = guarded(op, [&] { y.b = std::make_unique<BS>(*x.b); });
                            if (r == Res::ok) { y.m = m; SIM_CHECK(n == 0 || y.b->data() != x.b->data(), "bitset-copy-shares", "copy shares memory"); }
                            else drop(y);
                            check(y, "copy");
                        }
                        break;
                    case MOVE:
                        if constexpr (owning)
                        {
                            if (&x == &y) return;
                            drop(y);
                            r = guarded(op, [&] { y.b = std::make_unique<BS>(std::move(*x.b)); });
                            if (r == Res::ok) { y.m = m; x.valued = false; } else drop(y);
                            check(y, "move");
                        }
                        break;
                    case ASSIGN:
                        if constexpr (owning)
                        {
                            if (!y.b) return;
                            r = guarded(op, [&] { *y.b = *x.b; });
                            if (r == Res::ok) { if (&x != &y) y.m = m; y.valued = true; }
                            else if (y.valued && &x != &y)
                            {
                                // basic guarantee: consistent with itself
                                Model now;
                                for (std::size_t i = 0; i < y.b->size(); ++i) now.push_back(y.b->test(i));
                                y.m = now;
                            }
                            check(y, "copy assignment");
                        }
                        break;
                    case MASSIGN:
                        if constexpr (owning)
                        {
                            if (!y.b || &x == &y) return;
                            r = guarded(op, [&] { *y.b = std::move(*x.b); });
                            if (r == Res::ok) { y.m = m; y.valued = true; x.valued = false; }
                            check(y, "move assignment");
                        }
                        break;
                    case SWAP:
                        if (!y.b || !y.valued || &x == &y) return;
                        r = guarded(op, [&] { x.b->swap(*y.b); });
                        if (r == Res::ok) { std::swap(x.m, y.m); std::swap(x.ext, y.ext); std::swap(x.pad, y.pad); std::swap(x.buf, y.buf); }
                        check(y, "swap");
                        break;
                    case SET:
                        if (n == 0) return;
                        guarded(op, [&] { x.b->set(op.b % n, op.c & 1); });
                        m[op.b % n] = op.c & 1;
                        break;
                    case REFSET:
                        if (n == 0) return;
                        guarded(op, [&] {
                            if (op.c & 2) x.b->at(op.b % n) = bool(op.c & 1);
                            else (*x.b)[op.b % n] = bool(op.c & 1);
                        });
                        m[op.b % n] = op.c & 1;
                        break;
                    case REFOP:
                    {
                        if (n == 0) return;
                        std::size_t i = op.b % n;
                        bool v = op.c & 1, old = m[i];
                        guarded(op, [&] {
                            auto ref = (*x.b)[i];
                            switch ((op.c / 2) % 3) { case 0: ref &= v; break; case 1: ref |= v; break; default: ref ^= v; }
                            if (~ref != !bool(ref)) fail("bitset-ref-not", "~ref disagrees with the bit");
                        });
                        m[i] = (op.c / 2) % 3 == 0 ? (old && v) : (op.c / 2) % 3 == 1 ? (old || v) : (old != v);
                        break;
                    }
                    case REFREF:
                    {
                        if (n == 0) return;
                        std::size_t i = op.b % n, j = op.c % n;
                        guarded(op, [&] { auto ri = (*x.b)[i]; auto rj = (*x.b)[j]; ri = rj; });
                        m[i] = m[j];
                        break;
                    }
                    case ITSET:
                        if (n == 0) return;
                        guarded(op, [&] { auto it = x.b->begin(); it += std::ptrdiff_t(op.b % n); *it = bool(op.c & 1); });
                        m[op.b % n] = op.c & 1;
                        break;
                    case PUSH:
                        if constexpr (resizable)
                        {
                            if (n > 400) return;
                            r = guarded(op, [&] { x.b->push_back(op.c & 1); });
                            if (r == Res::ok) m.push_back(op.c & 1); else resync(x, before, n, n);
                        }
                        break;
                    case POP:
                        if constexpr (resizable)
                        {
                            if (n == 0) return;
                            r = guarded(op, [&] { x.b->pop_back(); });
                            if (r == Res::ok) m.pop_back(); else resync(x, before, n - 1, n);
                        }
                        break;
                    case INS1: case EMPLACE: case INSN:
                        if constexpr (resizable)
                        {
                            if (n > 400) return;
                            std::size_t i = (op.b % 7 == 0) ? n : op.b % (n + 1);
                            std::size_t k = op.code == INSN ? (op.c / 2) % 20 : 1;
                            bool v = op.c & 1;
                            std::size_t got = 0;
                            bool at_end = false;
                            r = guarded(op, [&] {
                                auto it = op.code == INS1   ? x.b->insert(x.b->cbegin() + std::ptrdiff_t(i), v)
                                          : op.code == INSN ? x.b->insert(x.b->cbegin() + std::ptrdiff_t(i), k, v)
                                                            : x.b->emplace(i == n ? x.b->cend() : x.b->cbegin() + std::ptrdiff_t(i), v);
                                got = std::size_t(it - x.b->begin()); at_end = it == x.b->end();
                            });
                            if (r == Res::ok)
                            {
                                m.insert(m.begin() + std::ptrdiff_t(i), k, v);
                                SIM_CHECK(got == i && at_end == (i == m.size()), "bitset-returned-iterator", "insert: designates " + num(got) + " instead of " + num(i));
                            }
                            else resync(x, before, i, n);
                        }
                        break;
                    case INSR:
                        if constexpr (resizable)
                        {
                            if (n > 400) return;
                            std::size_t i = (op.b % 7 == 0) ? n : op.b % (n + 1);
                            Model ins = content(op.r, op.c % 21, uni);
                            std::size_t got = 0;
                            r = guarded(op, [&] {
                                auto it = x.b->insert(x.b->cbegin() + std::ptrdiff_t(i), ins.cbegin(), ins.cend());
                                got = std::size_t(it - x.b->begin());
                            });
                            if (r == Res::ok)
                            {
                                m.insert(m.begin() + std::ptrdiff_t(i), ins.begin(), ins.end());
                                SIM_CHECK(got == i, "bitset-returned-iterator", "insert range: designates " + num(got) + " instead of " + num(i));
                            }
                            else resync(x, before, i, n);
                        }
                        break;
                    case ER1:
                        if constexpr (resizable)
                        {
                            if (n == 0) return;
                            std::size_t i = (op.b % 5 == 0) ? n - 1 : op.b % n;
                            std::size_t got = 0;
                            r = guarded(op, [&] { auto it = x.b->erase(x.b->cbegin() + std::ptrdiff_t(i)); got = std::size_t(it - x.b->begin()); });
                            if (r == Res::ok)
                            {
                                m.erase(m.begin() + std::ptrdiff_t(i));
                                SIM_CHECK(got == i, "bitset-returned-iterator", "erase: designates " + num(got) + " instead of " + num(i));
                            }
                            else resync(x, before, i, n);
                        }
                        break;
                    case ERR:
                        if constexpr (resizable)
                        {
                            if (n == 0) return;
                            std::size_t i = op.b % (n + 1), j = i + op.c % (n - i + 1);
                            std::size_t got = 0;
                            r = guarded(op, [&] {
                                auto it = x.b->erase(x.b->cbegin() + std::ptrdiff_t(i), j == n ? x.b->cend() : x.b->cbegin() + std::ptrdiff_t(j));
                                got = std::size_t(it - x.b->begin());
                            });
                            if (r == Res::ok)
                            {
                                m.erase(m.begin() + std::ptrdiff_t(i), m.begin() + std::ptrdiff_t(j));
                                SIM_CHECK(got == i, "bitset-returned-iterator", "erase range: designates " + num(got) + " instead of " + num(i));
                            }
                            else resync(x, before, i, n);
                        }
                        break;
                    case RESIZE:
                        if constexpr (resizable)
                        {
                            std::size_t k = pick_size(op.b, op.r);
                            r = guarded(op, [&] { if ((op.c & 2) && !(op.c & 1)) x.b->resize(k); else x.b->resize(k, op.c & 1); });
                            if (r == Res::ok) m.resize(k, op.c & 1); else resync(x, before, std::min(k, n), n);
                        }
                        break;
                    case CLEAR:
                        if constexpr (resizable)
                        {
                            guarded(op, [&] { x.b->clear(); });
                            m.clear();
                        }
                        break;
                    case AT:
                    {
                        std::size_t i = op.b % (n + 3);
                        std::string w;
                        bool got = false;
                        Op nf = op; nf.fault = 0;
                        r = guarded(nf, [&] { got = (op.c & 1) ? std::as_const(*x.b).at(i) : bool(x.b->at(i)); }, &w);
                        if (i < n) SIM_CHECK(r == Res::ok && got == m[i], "bitset-at", "at(" + num(i) + ") of " + num(n) + " " + w);
                        else SIM_CHECK(r == Res::threw && w.find("out_of_range") != std::string::npos, "bitset-at-bounds", "at(" + num(i) + ") of " + num(n) + " did not throw out_of_range: " + w);
                        break;
                    }
                    case WALK:
                    {
                        // mixed increments and decrements on the mutable iterator
                        if (n == 0) return;
                        Rng g(op.r);
                        std::size_t i = op.b % (n + 1);
                        lib([&] {
                            auto it = x.b->begin() + std::ptrdiff_t(i);
                            for (int k = 0; k < 40; ++k)
                            {
                                u32 d = g.below(4);
                                if ((d & 1) && i < n) { if (d & 2) ++it; else it++; ++i; }
                                else if (i > 0) { if (d & 2) --it; else it--; --i; }
                                if (i < n) { if (bool(*it) != m[i]) fail("bitset-walk", "bit " + num(i) + " of " + num(n)); }
                                else if (!(it == x.b->end())) fail("bitset-walk", "end not reached");
                                if (std::size_t(it - x.b->begin()) != i) fail("bitset-walk", "distance to begin is wrong at " + num(i));
                            }
                        });
                        break;
                    }
                    case JUMP:
                    {
                        if (n == 0) return;
                        Rng g(op.r);
                        lib([&] {
                            const BS& cb = *x.b;
                            for (int k = 0; k < 12; ++k)
                            {
                                std::size_t i = g.below(u32(n + 1)), j = g.below(u32(n + 1));
                                auto a = cb.begin() + std::ptrdiff_t(i);
                                auto b = a + (std::ptrdiff_t(j) - std::ptrdiff_t(i));
                                auto c = cb.end() - std::ptrdiff_t(n - j);
                                if (!(b == c)) fail("bitset-arith", "begin+" + num(i) + "+(" + num(j) + "-" + num(i) + ") != end-" + num(n - j));
                                if (b - a != std::ptrdiff_t(j) - std::ptrdiff_t(i)) fail("bitset-arith", "distance");
                                if ((a < b) != (i < j) || (a <= b) != (i <= j) || (a > b) != (i > j) || (a == b) != (i == j)) fail("bitset-arith", "ordering");
                                if (j < n && *b != m[j]) fail("bitset-arith", "value at " + num(j));
                                if (i + 3 < n && a[3] != m[i + 3]) fail("bitset-arith", "operator[]");
                            }
                        });
                        break;
                    }
                }
                check(x, op.code < infos.size() ? infos[op.code].name : "?");
                note_state(mix64(op.code * 131 + sizeof(block) * 7 + owning * 3 + resizable) ^ (cls(n) * 64 + cls(m.size())) ^ (u64(n % 8 == 0) << 20)
                           ^ (u64(r == Res::nomem) << 21) ^ (u64(std::count(m.begin(), m.end(), false) == 0) << 22));
            }
            void run(const Program& p)
            {
                for (std::size_t i = 0; i < p.ops.size(); ++i)
                {
                    set_op(i, infos[p.ops[i].code % NCODES].name);
                    count(infos[p.ops[i].code % NCODES].name);
                    Op o = p.ops[i];
                    o.code %= NCODES;
                    step(o);
                }
                set_op(p.ops.size(), "teardown");
                for (auto& x : s) { check(x, "final"); drop(x); }
            }
        };

        struct BitsWorld : World
        {
            bool faults;
            explicit BitsWorld(bool f) : faults(f) {}
            std::vector<OpInfo> ops() const override { return infos; }
            void generate(Program& p, Rng& rng) const override
            {
                p.config = rng.below(16);
                generate_ops(*this, p, rng, 5, 40, faults ? 1 : 0, 3, 3);
            }
            void run(const Program& p) override
            {
                switch (p.config % 16)
                {
                    case 0: case 1: case 2: case 3: case 4: { Runner<sparrow::dynamic_bitset<std::uint8_t>> r; r.run(p); break; }
                    case 5: case 6: { Runner<sparrow::dynamic_bitset<std::uint64_t>> r; r.run(p); break; }
                    case 7: { Runner<sparrow::dynamic_bitset<std::uint16_t>> r; r.run(p); break; }
                    case 8: case 9: { Runner<sparrow::dynamic_bitset_view<std::uint8_t>> r; r.run(p); break; }
                    case 10: { Runner<sparrow::dynamic_bitset_view<std::uint32_t>> r; r.run(p); break; }
                    case 11: { Runner<sparrow::non_owning_dynamic_bitset<std::uint32_t>> r; r.run(p); break; }
                    default: { Runner<sparrow::non_owning_dynamic_bitset<std::uint8_t>> r; r.run(p); break; }
                }
            }
        };
    }
    World* make_bits(bool faults) { return new BitsWorld(faults); }
}
