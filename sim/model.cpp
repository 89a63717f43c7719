#include "model.hpp"
#include <cstring>

namespace sim::inter
{
    static u32 g_interest = ANY;
    void set_interest(u32 m) { g_interest = m; }
    void viol(u32 mask, const std::string& kind, const std::string& msg)
    {
        Pause p;
        if (mask & g_interest) fail(kind, msg);
        vlog("other property violated (%s): %s\n", kind.c_str(), msg.c_str());
        abandon("violation of another property");
    }

    u32 width_of(K k)
    {
        switch (k)
        {
            case K::I8: case K::U8: return 1;
            case K::I16: case K::U16: case K::F16: return 2;
            case K::I32: case K::U32: case K::F32: return 4;
            case K::I64: case K::U64: case K::F64: return 8;
            default: return 0;
        }
    }
    static const char* flat_format(K k)
    {
        switch (k)
        {
            case K::NA: return "n";
            case K::I8: return "c";
            case K::U8: return "C";
            case K::I16: return "s";
            case K::U16: return "S";
            case K::I32: return "i";
            case K::U32: return "I";
            case K::I64: return "l";
            case K::U64: return "L";
            case K::F16: return "e";
            case K::F32: return "f";
            case K::F64: return "g";
            case K::STR: return "u";
            case K::LSTR: return "U";
            case K::STRV: return "vu";
            case K::BINV: return "vz";
            case K::LIST: return "+l";
            case K::LLIST: return "+L";
            case K::LV: return "+vl";
            case K::LLV: return "+vL";
            case K::STRUCT: return "+s";
            case K::REE: return "+r";
            default: return "?";
        }
    }
    std::string format_of(const Ty& t)
    {
        if (t.k == K::DICT) return flat_format(t.aux);
        if (t.k == K::FSL) return "+w:" + std::to_string(t.width);
        if (is_union(t.k))
        {
            std::string s = t.k == K::DU ? "+ud:" : "+us:";
            for (std::size_t i = 0; i < t.ids.size(); ++i) s += (i ? "," : "") + std::to_string(t.ids[i]);
            return s;
        }
        return flat_format(t.k);
    }
    std::string show(const Ty& t)
    {
        std::string s;
        if (t.k == K::DICT) s = std::string("dict:") + flat_format(t.aux);
        else s = format_of(t);
        if (!t.kids.empty())
        {
            s += "<";
            for (std::size_t i = 0; i < t.kids.size(); ++i) s += (i ? "," : "") + show(*t.kids[i]);
            s += ">";
        }
        return s;
    }
    std::string show(const Ty& t0, const Val& v0)
    {
        Leaf l = resolve(t0, v0);
        if (l.null) return "null";
        const Ty& t = *l.t;
        const Val& v = *l.v;
        if (t.k == K::STR || t.k == K::LSTR || t.k == K::STRV || t.k == K::BINV)
        {
            std::string s = "\"";
            for (char c : v.s) { if (c >= 32 && c < 127) s += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", u8(c)); s += b; } }
            return s + "\"";
        }
        if (width_of(t.k)) return std::to_string(v.bits);
        if (is_list(t.k) || t.k == K::STRUCT)
        {
            std::string s = t.k == K::STRUCT ? "{" : "[";
            for (std::size_t i = 0; i < v.kids.size(); ++i) s += (i ? "," : "") + show(t.k == K::STRUCT ? *t.kids[i] : *t.kids[0], v.kids[i]);
            return s + (t.k == K::STRUCT ? "}" : "]");
        }
        return "?";
    }
    Leaf resolve(const Ty& t0, const Val& v0)
    {
        const Ty* t = &t0;
        const Val* v = &v0;
        for (;;)
        {
            if (is_union(t->k))
            {
                if (v->kids.empty()) return {nullptr, v, true};
                t = t->kids[v->alt].get();
                v = &v->kids[0];
            }
            else if (t->k == K::DICT) t = t->kids[0].get();
            else if (t->k == K::REE) t = t->kids[1].get();
            else break;
        }
        return {t, v, t->k == K::NA || v->null};
    }
    u64 hash_val(const Ty& t0, const Val& v0)
    {
        Leaf l = resolve(t0, v0);
        if (l.null) return l.t ? u64(l.t->k) + 11 : 5;
        u64 h = mix64(u64(l.t->k) * 31 + 7);
        if (width_of(l.t->k)) return mix64(h ^ l.v->bits);
        if (is_flat(l.t->k)) return mix64(h ^ hash_str(l.v->s));
        for (std::size_t i = 0; i < l.v->kids.size(); ++i) h = mix64(h ^ hash_val(l.t->k == K::STRUCT ? *l.t->kids[i] : *l.t->kids[0], l.v->kids[i]));
        return h;
    }
    bool same(const Ty& t, const Val& a, const Val& b)
    {
        Leaf x = resolve(t, a), y = resolve(t, b);
        if (x.null || y.null) return x.null == y.null && (!x.t || !y.t || x.t == y.t);
        if (x.t != y.t) return false;
        if (width_of(x.t->k)) return x.v->bits == y.v->bits;
        if (is_flat(x.t->k)) return x.v->s == y.v->s;
        if (x.v->kids.size() != y.v->kids.size()) return false;
        for (std::size_t i = 0; i < x.v->kids.size(); ++i)
            if (!same(x.t->k == K::STRUCT ? *x.t->kids[i] : *x.t->kids[0], x.v->kids[i], y.v->kids[i])) return false;
        return true;
    }
    static u32 alternative(K k)
    {
        if (is_list(k)) return 100;
        if (k == K::STRV || k == K::LSTR) return u32(K::STR);
        return u32(k);
    }
    bool elements_equal(const Ty& ta, const Val& a, const Ty& tb, const Val& b)
    {
        Leaf x = resolve(ta, a), y = resolve(tb, b);
        u32 ax = x.t ? alternative(x.t->k) : u32(K::NA), ay = y.t ? alternative(y.t->k) : u32(K::NA);
        if (ax != ay) return false;
        if (x.null || y.null) return x.null == y.null;
        if (width_of(x.t->k)) return x.v->bits == y.v->bits;
        if (is_flat(x.t->k)) return x.v->s == y.v->s;
        if (x.v->kids.size() != y.v->kids.size()) return false;
        for (std::size_t i = 0; i < x.v->kids.size(); ++i)
        {
            const Ty& u = x.t->k == K::STRUCT ? *x.t->kids[i] : *x.t->kids[0];
            const Ty& w = y.t->k == K::STRUCT ? *y.t->kids[i] : *y.t->kids[0];
            if (!elements_equal(u, x.v->kids[i], w, y.v->kids[i])) return false;
        }
        return true;
    }
    bool arrays_equal(const Ty& ta, const Vals& a, const Ty& tb, const Vals& b)
    {
        if (ta.k != tb.k || (ta.k == K::DICT && ta.aux != tb.aux)) return false; // different layouts
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i) if (!elements_equal(ta, a[i], tb, b[i])) return false;
        return true;
    }
    u32 height(const Ty& t)
    {
        u32 h = 0;
        for (auto& k : t.kids) h = std::max(h, height(*k) + 1);
        return h;
    }

    TyP flat_type(K k) { auto t = std::make_shared<Ty>(); t->k = k; return t; }
    TyP with_name(const TyP& t, std::optional<std::string> name, i64 flags)
    {
        auto r = std::make_shared<Ty>(*t);
        r->name = std::move(name);
        r->flags = flags;
        return r;
    }
    K key_type(Rng& g, bool many)
    {
        static const K wide[] = {K::I16, K::I32, K::I64, K::U16, K::U32, K::U64};
        const K k = K(u32(K::I8) + g.below(8));
        return many && (k == K::I8 || k == K::U8) ? wide[g.below(6)] : k;
    }
    TyP gen_type(Rng& g, const GenOpts& o, u32 depth)
    {
        auto t = std::make_shared<Ty>();
        std::vector<K> pool;
        for (u32 k = 0; k <= u32(K::REE); ++k)
        {
            if (!((o.kinds >> k) & 1)) continue;
            if (depth >= o.max_depth && !is_flat(K(k))) continue;
            pool.push_back(K(k));
        }
        if (pool.empty()) pool = {K::I32, K::STR};
        // nested layouts are preferred near the root
        std::vector<K> nested;
        for (K k : pool) if (!is_flat(k)) nested.push_back(k);
        if (!nested.empty() && g.chance(2, 3)) pool = nested;
        t->k = g.pick(pool);
        if (o.names)
        {
            u32 x = g.below(4);
            if (x == 1) t->name = "";
            else if (x == 2) t->name = "f" + std::to_string(g.below(100));
            else if (x == 3) t->name = std::string("a_rather_long_field_name_") + std::to_string(g.below(100));
            t->flags = g.chance(1, 2) ? 2 : 0;
        }
        GenOpts sub = o;
        auto kid = [&] { return gen_type(g, sub, depth + 1); };
        switch (t->k)
        {
            case K::LIST: case K::LLIST: case K::LV: case K::LLV: sub.many = true; t->kids = {kid()}; break;
            case K::FSL: sub.many = true; t->width = o.foreign && g.chance(1, 10) ? 0 : depth == 0 && g.chance(1, 8) ? 9 + g.below(4) : 1 + g.below(3); t->kids = {kid()}; break;
            case K::STRUCT:
            {
                u32 n = o.foreign && g.chance(1, 20) ? 0 : 1 + g.below(3);
                for (u32 i = 0; i < n; ++i) t->kids.push_back(kid());
                break;
            }
            case K::DU: case K::SU:
            {
                u32 n = 1 + g.below(3);
                std::vector<u8> ids;
                bool straight = g.chance(1, 2);
                for (u32 i = 0; i < n; ++i)
                {
                    t->kids.push_back(kid());
                    u8 id = u8(i);
                    if (!straight) { do id = u8(g.below(120)); while (std::find(ids.begin(), ids.end(), id) != ids.end()); }
                    ids.push_back(id);
                }
                t->ids = ids;
                break;
            }
            case K::DICT:
                t->aux = key_type(g, o.many);
                sub.kinds &= ~((u64(1) << u32(K::DICT)) | (u64(1) << u32(K::REE))); // type of a null element is not determined otherwise
                t->kids = {kid()};
                break;
            case K::REE:
            {
                static const K re[] = {K::I16, K::I32, K::I64, K::U16, K::U32, K::U64};
                K r = re[g.below(o.foreign ? 3 : 6)];
                auto e = std::make_shared<Ty>();
                e->k = r;
                if (o.names) { e->name = "run_ends"; e->flags = 0; }
                t->kids = {e, kid()};
                break;
            }
            default: break;
        }
        return t;
    }
    Val gen_val(const Ty& t, Rng& g, u32 nn, u32 nd)
    {
        Val v;
        if (t.k == K::DICT) return gen_val(*t.kids[0], g, nn, nd);
        if (t.k == K::REE) return gen_val(*t.kids[1], g, nn, nd);
        if (is_union(t.k))
        {
            v.null = false;
            v.alt = g.below(u32(t.kids.size()));
            v.kids.push_back(gen_val(*t.kids[v.alt], g, nn, nd));
            return v;
        }
        if (t.k == K::NA) return v;
        if (nn && g.chance(nn, nd)) return v;
        v.null = false;
        if (u32 w = width_of(t.k))
        {
            u32 m = g.below(6);
            if (t.k == K::F16) v.bits = 0x3c00 + g.below(64);
            else if (t.k == K::F32) { float f = float(i64(g.below(200)) - 100) / 4; u32 b; std::memcpy(&b, &f, 4); if (f == 0) b = 0; v.bits = b; }
            else if (t.k == K::F64) { double f = double(i64(g.below(200)) - 100) / 4; u64 b; std::memcpy(&b, &f, 8); if (f == 0) b = 0; v.bits = b; }
            else
            {
                v.bits = m == 0 ? ~u64(0) : m == 1 ? u64(1) << (8 * w - 1) : m == 2 ? 0 : m == 3 ? g.next() : g.below(100);
                if (w < 8) v.bits &= (u64(1) << (8 * w)) - 1;
            }
            return v;
        }
        if (is_flat(t.k))
        {
            u32 m = g.below(8);
            std::size_t n = m == 0 ? 0 : m == 1 ? 12 + g.below(2) : m == 2 ? 13 + g.below(30) : g.below(7);
            for (std::size_t i = 0; i < n; ++i) v.s += char('a' + g.below(26));
            if (m == 3 && n) v.s[g.below(u32(n))] = '\0';
            return v;
        }
        if (t.k == K::STRUCT) { for (auto& k : t.kids) v.kids.push_back(gen_val(*k, g, nn, nd)); return v; }
        std::size_t n = t.k == K::FSL ? t.width : g.chance(1, 4) ? 0 : g.below(4);
        for (std::size_t i = 0; i < n; ++i) v.kids.push_back(gen_val(*t.kids[0], g, nn, nd));
        return v;
    }
    Vals gen_vals(const Ty& t, std::size_t n, Rng& g)
    {
        static const u32 num[] = {0, 1, 1, 1, 7}, den[] = {1, 2, 4, 8, 8};
        u32 m = g.below(5);
        Vals r;
        Vals pool;
        bool pooled = t.k == K::DICT && g.chance(3, 4);
        if (pooled) { u32 k = 1 + g.below(4); for (u32 i = 0; i < k; ++i) pool.push_back(gen_val(t, g, num[m], den[m])); }
        while (r.size() < n)
        {
            Val v = pooled ? pool[g.below(u32(pool.size()))] : gen_val(t, g, num[m], den[m]);
            if (pooled && g.chance(1, 8) && t.kids[0]->k != K::DICT) { v = Val(); } // null key
            std::size_t c = t.k == K::REE ? 1 + g.below(5) : 1;
            while (c-- && r.size() < n) r.push_back(v);
        }
        return r;
    }
}
