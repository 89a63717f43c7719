#include "w_mut.hpp"
namespace sim
{
    namespace
    {
        template <class T> struct fmt;
        template <> struct fmt<std::int8_t> { static constexpr const char* f = "c"; };
        template <> struct fmt<std::uint8_t> { static constexpr const char* f = "C"; };
        template <> struct fmt<std::int16_t> { static constexpr const char* f = "s"; };
        template <> struct fmt<std::uint16_t> { static constexpr const char* f = "S"; };
        template <> struct fmt<std::int32_t> { static constexpr const char* f = "i"; };
        template <> struct fmt<std::uint32_t> { static constexpr const char* f = "I"; };
        template <> struct fmt<std::int64_t> { static constexpr const char* f = "l"; };
        template <> struct fmt<std::uint64_t> { static constexpr const char* f = "L"; };
        template <> struct fmt<float> { static constexpr const char* f = "f"; };
        template <> struct fmt<sparrow::float16_t> { static constexpr const char* f = "e"; };
        template <> struct fmt<double> { static constexpr const char* f = "g"; };

        template <class T>
        struct PrimTr
        {
            using A = sparrow::primitive_array<T>;
            using V = T;
            static constexpr u64 id = sizeof(T) * 4 + std::is_signed_v<T> * 2 + (std::is_floating_point_v<T> || std::is_same_v<T, sparrow::float16_t>);
            static constexpr int n_buffers = 2;
            static constexpr bool assignable_references = true;
            template <class E> static void write(E&& e, const V& v, u32) { e = v; }
            static constexpr u32 n_ctors = 7;
            static std::string format() { return fmt<T>::f; }
            static V gen(Rng& g)
            {
                u32 k = g.below(8);
                if constexpr (std::is_same_v<T, sparrow::float16_t>) return T(float(int(g.below(4000)) - 2000) / 8);
                else
                {
                if (k == 0) return std::numeric_limits<T>::max();
                if (k == 1) return std::numeric_limits<T>::lowest();
                if (k == 2) return T(0);
                return T(g.below(100000));
                }
            }
            static bool same(const V& a, const V& b) { return std::memcmp(&a, &b, sizeof a) == 0; }
            // the values which are equal are those with the same bits
            static bool exact(const std::optional<V>& a, const std::optional<V>& b)
            {
                if constexpr (std::is_integral_v<T>) return true;
                else return !a || !b || (double(*a) == double(*a) && double(*b) == double(*b) && (double(*a) != 0 || double(*b) != 0));
            }
            template <class X> static V val(const X& v) { return T(v); }
            static u64 hash(const V& v) { u64 h = 0; std::memcpy(&h, &v, sizeof v); return mix64(h); }
            static std::string show(const V& v) { return std::to_string(double(v)); }
            template <class M, class R, class N>
            static void construct(std::unique_ptr<A>& a, u32 how, const M& m, const R& rw, const N& nv, const std::vector<bool>& bm,
                                  const std::vector<std::size_t>& nulls, bool nonull)
            {
                bool uni = nonull && std::all_of(rw.begin(), rw.end(), [&](auto& v) { return same(v, rw[0]); });
                if (how == 0 && nonull) a = std::make_unique<A>(rw);
                else if (how == 1) a = std::make_unique<A>(rw, bm);
                else if (how == 2) a = std::make_unique<A>(rw, nulls);
                else if (how == 3 && uni && !rw.empty()) a = std::make_unique<A>(rw.size(), rw[0]);
                else if (how == 4) { sparrow::u8_buffer<T> b(rw); sparrow::validity_bitmap vb(bm); a = std::make_unique<A>(std::move(b), std::move(vb)); }
                else if (how == 5 && nonull) { sparrow::u8_buffer<T> b(rw); a = std::make_unique<A>(std::move(b)); }
                else a = std::make_unique<A>(nv);
                (void) m;
            }
            template <class R>
            static void buffers(const R& rw, std::vector<sparrow::buffer<std::uint8_t>>& b, Rng&)
            {
                b.emplace_back(rw.size() * sizeof(T));
                if (!rw.empty()) std::memcpy(b.back().data(), rw.data(), rw.size() * sizeof(T));
            }
            template <class M>
            static void check_export(const ArrowArray& arr, const M& m, const std::string& w)
            {
                const T* d = static_cast<const T*>(arr.buffers[1]);
                SIM_CHECK(d || m.empty(), "export-buffers", w + ": no data buffer");
                for (std::size_t i = 0; i < m.size(); ++i)
                {
                    T v = d[i + std::size_t(arr.offset)]; // must be readable, null or not
                    if (m[i]) SIM_CHECK(same(v, *m[i]), "export-value", w + ": element " + num(i));
                }
            }
        };
        struct PrimWorld : World
        {
            bool exports, faults;
            PrimWorld(bool e, bool f) : exports(e), faults(f) {}
            std::vector<OpInfo> ops() const override { return mut::infos(); }
            void generate(Program& p, Rng& rng) const override
            {
                p.config = rng.below(11);
                generate_ops(*this, p, rng, 5, 30, faults ? 1 : 0, 3, 8);
            }
            template <class T> void go(const Program& p) { mut::Runner<PrimTr<T>> r(exports); r.run(p); }
            void run(const Program& p) override
            {
                switch (p.config % 11)
                {
                    case 0: go<std::int8_t>(p); break;
                    case 1: go<std::uint8_t>(p); break;
                    case 2: go<std::int16_t>(p); break;
                    case 3: go<std::uint16_t>(p); break;
                    case 4: go<std::int32_t>(p); break;
                    case 5: go<std::uint32_t>(p); break;
                    case 6: go<std::int64_t>(p); break;
                    case 7: go<std::uint64_t>(p); break;
                    case 8: go<float>(p); break;
                    case 9: go<sparrow::float16_t>(p); break;
                    default: go<double>(p); break;
                }
            }
        };
    }
    World* make_prim(const std::string& p) { return new PrimWorld(p == "M06-prim", p == "F03-prim"); }
}
