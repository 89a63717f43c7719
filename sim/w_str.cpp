#include "w_mut.hpp"
namespace sim
{
    namespace
    {
        template <class A_, class O>
        struct StrTr
        {
            using A = A_;
            using V = std::string;
            static constexpr u64 id = 76 + sizeof(O) / 4;
            static constexpr int n_buffers = 3;
            static constexpr bool assignable_references = false;
            static constexpr u32 n_ctors = 5;
            static std::string format() { return sizeof(O) == 4 ? "u" : "U"; }
            static V gen(Rng& g)
            {
                u32 k = g.below(10);
                std::size_t n = k == 0 ? 0 : k == 1 ? 40 + g.below(60) : g.below(9);
                V s;
                for (std::size_t i = 0; i < n; ++i) s += char('a' + g.below(26));
                if (k == 2 && n) s[0] = '\0';
                return s;
            }
            static bool same(const V& a, const V& b) { return a == b; }
            static bool exact(const std::optional<V>&, const std::optional<V>&) { return true; }
            template <class X> static V val(const X& v) { V s; for (auto it = v.begin(); it != v.end(); ++it) s += *it; return s; }
            template <class E> static void write(E&& e, const V& v, u32 how)
            {
                const bool text = v.find('\0') == V::npos;
                switch (how & 3)
                {
                    case 0: if (text) { e = v.c_str(); return; } break;
                    case 1: e = std::string_view(v); return;
                    case 2: if (e.size() == v.size()) { std::copy(v.begin(), v.end(), e.begin()); return; } e = std::vector<char>(v.begin(), v.end()); return;
                    default: break;
                }
                e = v;
            }
            static u64 hash(const V& v) { return hash_str(v); }
            static std::string show(const V& v) { return "\"" + v + "\""; }
            template <class M, class R, class N>
            static void construct(std::unique_ptr<A>& a, u32 how, const M&, const R& rw, const N& nv, const std::vector<bool>& bm,
                                  const std::vector<std::size_t>& nulls, bool nonull)
            {
                if (how == 0 && nonull) a = std::make_unique<A>(rw);
                else if (how == 1) a = std::make_unique<A>(rw, bm);
                else if (how == 2) a = std::make_unique<A>(rw, nulls);
                else if (how == 3)
                {
                    std::vector<char> chars;
                    std::vector<std::size_t> sizes;
                    for (auto& s : rw) { chars.insert(chars.end(), s.begin(), s.end()); sizes.push_back(s.size()); }
                    sparrow::u8_buffer<char> d(chars);
                    auto off = A::offset_from_sizes(sizes);
                    a = std::make_unique<A>(std::move(d), std::move(off), sparrow::validity_bitmap(bm));
                }
                else a = std::make_unique<A>(nv);
            }
            template <class R>
            static void buffers(const R& rw, std::vector<sparrow::buffer<std::uint8_t>>& b, Rng& g)
            {
                std::vector<O> off{O(g.chance(1, 2) ? 0 : g.below(7))};
                std::string chars(std::size_t(off[0]), '?');
                for (auto& s : rw) { chars += s; off.push_back(O(chars.size())); }
                if (g.chance(1, 3)) chars += "beyond";
                b.emplace_back(off.size() * sizeof(O));
                std::memcpy(b.back().data(), off.data(), off.size() * sizeof(O));
                b.emplace_back(chars.size());
                if (!chars.empty()) std::memcpy(b.back().data(), chars.data(), chars.size());
            }
            template <class M>
            static void check_export(const ArrowArray& arr, const M& m, const std::string& w)
            {
                const auto* off = static_cast<const O*>(arr.buffers[1]);
                const auto* d = static_cast<const char*>(arr.buffers[2]);
                if (m.empty() && !off) return;
                SIM_CHECK(off, "export-buffers", w + ": no offsets");
                off += arr.offset;
                SIM_CHECK(off[0] >= 0, "export-offsets", w + ": negative first offset");
                for (std::size_t i = 0; i < m.size(); ++i)
                {
                    SIM_CHECK(off[i + 1] >= off[i], "export-offsets", w + ": offsets " + num(i) + " and " + num(i + 1) + " decrease");
                    std::string v;
                    for (auto k = off[i]; k < off[i + 1]; ++k) v += d[k]; // in range, or the memory checker speaks
                    if (m[i]) SIM_CHECK(v == *m[i], "export-value", w + ": element " + num(i));
                }
            }
        };
        struct StrWorld : World
        {
            bool exports, faults;
            StrWorld(bool e, bool f) : exports(e), faults(f) {}
            std::vector<OpInfo> ops() const override { return mut::infos(); }
            void generate(Program& p, Rng& rng) const override
            {
                p.config = rng.below(4);
                generate_ops(*this, p, rng, 5, 30, faults ? 1 : 0, 3, 8);
            }
            void run(const Program& p) override 
            {
                if (p.config == 0) { mut::Runner<StrTr<sparrow::big_string_array, std::int64_t>> r(exports); r.run(p); }
                else { mut::Runner<StrTr<sparrow::string_array, std::int32_t>> r(exports); r.run(p); }
            }
        };
    }
    World* make_str(const std::string& p) { return new StrWorld(p == "M06-str", p == "F03-str"); }
}
