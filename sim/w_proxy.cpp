// Low-level world: edits of Arrow structure pairs through arrow_proxy, against a tree model.
#include "cdata.hpp"
#include "worlds.hpp"
#include <sparrow/arrow_array_schema_proxy.hpp>
#include <sparrow/arrow_interface/arrow_array.hpp>
#include <sparrow/arrow_interface/arrow_schema.hpp>
#include <algorithm>
#include <cstring>

namespace sim::inter
{
    namespace sp = sparrow;
    struct PN;
    using PNP = std::shared_ptr<PN>;
    using Bytes = std::vector<u8>;
    struct KidM { PNP n; bool owned; };
    struct PN // model of one structure pair
    {
        std::string format;
        std::optional<std::string> name, meta;
        i64 flags = 0;
        u64 length = 0, offset = 0;
        i64 nulls = 0;
        bool nulls_any = false;  // the count covers bits nobody has written yet
        u64 bits = 0;            // number of meaningful bits in the validity bitmap
        std::vector<std::optional<Bytes>> bufs;
        bool la = true, ls = true; // created by the library
        std::vector<KidM> kids;
        PNP dict;
    };
    static u32 width(const std::string& f)
    {
        if (f[0] == 'w' && f[1] == ':') return u32(std::stoul(f.substr(2)));
        if (f[0] == 'd' && f[1] == ':')
        {
            auto second = f.find(',', f.find(',') + 1);
            return second == std::string::npos ? 16 : u32(std::stoul(f.substr(second + 1))) / 8;
        }
        if (f[0] == 't') return f == "tdD" || f == "tts" || f == "ttm" || f == "tiM" ? 4 : f == "tin" ? 16 : 8;
        switch (f[0])
        {
            case 'c': case 'C': return 1;
            case 's': case 'S': case 'e': return 2;
            case 'i': case 'I': case 'f': return 4;
            case 'l': case 'L': case 'g': return 8;
            default: return 0;
        }
    }
    static bool str_like(const std::string& f) { return f == "u" || f == "z" || f == "U" || f == "Z"; }
    static u32 offset_width(const std::string& f) // of formats with an offsets buffer
    {
        return f == "u" || f == "z" || f == "+l" || f == "+m" ? 4 : f == "U" || f == "Z" || f == "+L" ? 8 : 0;
    }
    static bool bitmapped(const std::string& f) { return f != "n" && f.rfind("+u", 0) != 0 && f != "+r"; }
    static u64 total(const PN& n) { return n.length + n.offset; }
    template <class T> static T at(const Bytes& b, u64 i) { T v; std::memcpy(&v, b.data() + i * sizeof(T), sizeof(T)); return v; }
    // sizes of the buffers as the format and the length define them; nothing if it cannot be told
    static std::vector<std::optional<u64>> sizes(const PN& n)
    {
        const u64 N = total(n);
        std::vector<std::optional<u64>> r;
        const std::string& f = n.format;
        if (f == "n") return r;
        if (f == "+us:0") { r.push_back(N); return r; }
        if (f == "+ud:0") { r.push_back(N); r.push_back(N * 4); return r; }
        r.push_back((N + 7) / 8);
        if (f == "+s" || f.rfind("+w:", 0) == 0) return r;
        if (f == "b") { r.push_back((N + 7) / 8); return r; }
        if (u32 w = width(f)) { r.push_back(N * w); return r; }
        if (f == "+vl") { r.push_back(N * 4); r.push_back(N * 4); return r; }
        const u32 ow = offset_width(f);
        if (ow) r.push_back((N + 1) * ow);
        if (str_like(f))
        {
            if (!n.bufs[1]) r.push_back(0);
            else if (n.bufs[1]->size() < (N + 1) * ow) return {std::nullopt, std::nullopt, std::nullopt};
            else r.push_back(ow == 4 ? u64(at<std::int32_t>(*n.bufs[1], N)) : at<u64>(*n.bufs[1], N));
        }
        return r;
    }
    static std::optional<std::vector<bool>> bits_of(const PN& n) // of [0, offset + length)
    {
        const u64 N = total(n);
        std::vector<bool> r(N, true);
        if (!n.bufs[0]) return r;
        if (n.bits < N || n.bufs[0]->size() * 8 < N) return std::nullopt;
        for (u64 i = 0; i < N; ++i) r[i] = ((*n.bufs[0])[i / 8] >> (i % 8)) & 1;
        return r;
    }
    static void set_bits(PN& n, const std::vector<bool>& b)
    {
        Bytes r((b.size() + 7) / 8, 0);
        for (u64 i = 0; i < b.size(); ++i) if (b[i]) r[i / 8] |= u8(1u << (i % 8));
        n.bufs[0] = std::move(r);
        n.bits = b.size();
    }
    static void recount(PN& n)
    {
        n.nulls_any = false;
        if (n.format == "n") { n.nulls = i64(n.length); return; }
        if (!bitmapped(n.format)) return;
        auto b = bits_of(n);
        if (!b) { n.nulls_any = true; return; }
        n.nulls = std::count(b->begin() + long(n.offset), b->end(), false);
    }
    static u64 capacity(const PN& n) // elements that the buffers describe
    {
        u64 c = 40;
        if (n.bufs.empty()) return c;
        if (n.format == "+us:0") return n.bufs[0] ? n.bufs[0]->size() : 0;
        if (n.format == "+ud:0") return n.bufs[0] && n.bufs[1] ? std::min<u64>(n.bufs[0]->size(), n.bufs[1]->size() / 4) : 0;
        if (n.bufs[0]) c = std::min(c, n.bits);
        if (u32 w = width(n.format)) c = std::min<u64>(c, n.bufs[1] ? n.bufs[1]->size() / w : 0);
        if (n.format == "b") c = std::min<u64>(c, n.bufs[1] ? n.bufs[1]->size() * 8 : 0);
        if (n.format == "+vl") c = std::min<u64>(c, n.bufs[1] && n.bufs[2] ? std::min(n.bufs[1]->size(), n.bufs[2]->size()) / 4 : 0);
        if (const u64 ow = offset_width(n.format)) c = std::min<u64>(c, n.bufs[1] && n.bufs[1]->size() >= ow ? n.bufs[1]->size() / ow - 1 : 0);
        return c;
    }
    static u32 nodes(const PN& n)
    {
        u32 r = 1;
        for (auto& k : n.kids) r += nodes(*k.n);
        return n.dict ? r + nodes(*n.dict) : r;
    }
    static PNP clone(const PN& n)
    {
        auto r = std::make_shared<PN>(n);
        r->la = r->ls = true;
        auto z = sizes(n);
        for (std::size_t i = 0; i < r->bufs.size(); ++i)
            if (r->bufs[i] && z[i] && r->bufs[i]->size() > *z[i]) r->bufs[i]->resize(*z[i]);
        if (bitmapped(n.format))
        {
            if (!r->bufs[0]) set_bits(*r, std::vector<bool>(total(n), true));
            r->bits = std::min(r->bits, total(n));
        }
        if (offset_width(n.format) && !r->bufs[1]) r->bufs[1] = Bytes((total(n) + 1) * offset_width(n.format), 0);
        for (auto& k : r->kids) k = {clone(*k.n), true};
        if (r->dict) r->dict = clone(*r->dict);
        return r;
    }
    static void own_half(PN& n, bool array)
    {
        n.la = array;
        n.ls = !array;
        for (auto& k : n.kids) own_half(*k.n, array);
        if (n.dict) own_half(*n.dict, array);
    }
    static PNP from_raw(const ArrowArray& a, const ArrowSchema& s)
    {
        auto n = std::make_shared<PN>();
        n->format = s.format;
        if (s.name) n->name = s.name;
        if (s.metadata) n->meta = s.metadata;
        n->flags = s.flags;
        n->length = u64(a.length);
        n->offset = u64(a.offset);
        n->nulls = a.null_count;
        n->la = n->ls = false;
        n->bufs.resize(std::size_t(a.n_buffers));
        for (std::size_t i = 0; i < n->bufs.size(); ++i)
        {
            if (!a.buffers[i]) continue;
            auto z = sizes(*n);
            const u8* p = static_cast<const u8*>(a.buffers[i]);
            n->bufs[i] = Bytes(p, p + *z[i]);
        }
        n->bits = n->bufs.empty() ? 0 : total(*n);
        for (i64 i = 0; i < a.n_children; ++i) n->kids.push_back({from_raw(*a.children[i], *s.children[i]), true});
        if (a.dictionary) n->dict = from_raw(*a.dictionary, *s.dictionary);
        return n;
    }

    #define M05_CHECK(c, kind, msg) INTER_CHECK(c, M05, kind, msg)
    static std::string quote(const std::optional<std::string>& s) { return s ? "\"" + *s + "\"" : "none"; }
    static bool same_text(const char* p, const std::optional<std::string>& s) { return p ? s && *s == p : !s; }
    static void check_bytes(const PN& n, std::size_t i, const u8* p, const std::string& w)
    {
        auto z = sizes(n);
        if (i >= z.size() || !z[i] || !n.bufs[i] || *z[i] == 0) return;
        const Bytes& b = *n.bufs[i];
        if (!p && i == 0 && bitmapped(n.format)) // no bitmap means no nulls
        {
            auto v = bits_of(n);
            M05_CHECK(!v || std::find(v->begin(), v->end(), false) == v->end(), "buffer-missing", w + ": the validity bitmap is missing");
            return;
        }
        M05_CHECK(p != nullptr, "buffer-missing", w + ": buffer " + nn((long long) i) + " is missing");
        if (i == 0 && bitmapped(n.format))
        {
            const u64 N = std::min(total(n), n.bits);
            for (u64 k = 0; k < N; ++k)
                M05_CHECK(((p[k / 8] >> (k % 8)) & 1) == ((b[k / 8] >> (k % 8)) & 1), "buffer-content", w + ": bit " + nn((long long) k) + " of the validity bitmap is wrong");
            return;
        }
        const u64 m = std::min<u64>(*z[i], b.size());
        for (u64 k = 0; k < m; ++k)
            M05_CHECK(p[k] == b[k], "buffer-content", w + ": byte " + nn((long long) k) + " of buffer " + nn((long long) i) + " is wrong");
    }
    static void check_raw(const ArrowArray& a, const ArrowSchema& s, const PN& n, const std::string& w)
    {
        M05_CHECK(a.release && s.release, "released", w + ": the structures are released");
        M05_CHECK(s.format && n.format == s.format, "format", w + ": format " + std::string(s.format ? s.format : "(null)") + " instead of " + n.format);
        M05_CHECK(same_text(s.name, n.name), "name", w + ": name " + std::string(s.name ? s.name : "(null)") + " instead of " + quote(n.name));
        M05_CHECK(same_text(s.metadata, n.meta), "metadata", w + ": metadata " + std::string(s.metadata ? s.metadata : "(null)") + " instead of " + quote(n.meta));
        M05_CHECK(s.flags == n.flags, "flags", w + ": flags " + nn(s.flags));
        M05_CHECK(a.length == i64(n.length), "length", w + ": length " + nn(a.length) + " instead of " + nn((long long) n.length));
        M05_CHECK(a.offset == i64(n.offset), "offset", w + ": offset " + nn(a.offset) + " instead of " + nn((long long) n.offset));
        if (n.nulls_any) M05_CHECK(a.null_count >= -1 && a.null_count <= a.length, "null-count", w + ": null count " + nn(a.null_count));
        else M05_CHECK(a.null_count == n.nulls, "null-count", w + ": null count " + nn(a.null_count) + " instead of " + nn(n.nulls));
        M05_CHECK(a.n_buffers == i64(n.bufs.size()), "n-buffers", w + ": " + nn(a.n_buffers) + " buffers instead of " + nn((long long) n.bufs.size()));
        for (std::size_t i = 0; i < n.bufs.size(); ++i) check_bytes(n, i, static_cast<const u8*>(a.buffers[i]), w);
        M05_CHECK(a.n_children == i64(n.kids.size()) && s.n_children == i64(n.kids.size()), "n-children", w + ": " + nn(a.n_children) + "/" + nn(s.n_children) + " children instead of " + nn((long long) n.kids.size()));
        for (std::size_t i = 0; i < n.kids.size(); ++i)
        {
            M05_CHECK(a.children[i] && s.children[i], "child-missing", w + ": child " + nn((long long) i) + " is missing");
            check_raw(*a.children[i], *s.children[i], *n.kids[i].n, w + "." + nn((long long) i));
        }
        M05_CHECK(!a.dictionary == !n.dict && !s.dictionary == !n.dict, "dictionary", w + ": dictionary is " + (n.dict ? "missing" : "unexpected"));
        if (n.dict) check_raw(*a.dictionary, *s.dictionary, *n.dict, w + ".dictionary");
    }
    static void check_proxy(const sp::arrow_proxy& p, const PN& n, const std::string& w)
    {
        M05_CHECK(p.format() == n.format, "format", w + ": format()");
        M05_CHECK(p.data_type() == sp::format_to_data_type(n.format), "data-type", w + ": data_type()");
        M05_CHECK(p.name().has_value() == n.name.has_value() && (!n.name || *p.name() == *n.name), "name", w + ": name()");
        M05_CHECK(p.metadata().has_value() == n.meta.has_value() && (!n.meta || *p.metadata() == *n.meta), "metadata", w + ": metadata()");
        i64 f = 0;
        for (auto x : p.flags()) f |= i64(x);
        M05_CHECK(f == n.flags, "flags", w + ": flags()");
        M05_CHECK(p.length() == n.length && p.offset() == n.offset, "length", w + ": length() or offset()");
        M05_CHECK(p.null_count() == p.array().null_count, "null-count", w + ": null_count()");
        M05_CHECK(p.n_buffers() == n.bufs.size() && p.n_children() == n.kids.size(), "counts", w + ": n_buffers() or n_children()");
        M05_CHECK(p.is_created_with_sparrow() == (n.la && n.ls), "created-with-sparrow", w + ": is_created_with_sparrow()");
        M05_CHECK(p.private_data() == p.array().private_data, "private-data", w + ": private_data()");
        auto z = sizes(n);
        const auto& b = p.buffers();
        M05_CHECK(b.size() == z.size(), "buffers", w + ": " + nn((long long) b.size()) + " buffer views instead of " + nn((long long) z.size()));
        for (std::size_t i = 0; i < z.size(); ++i)
        {
            if (!z[i] || (i && !n.bufs[i] && *z[i])) continue; // being edited
            const u64 want = n.bufs[i] ? *z[i] : 0;
            const bool bitmap = i == 0 && bitmapped(n.format); // one without nulls can be left out
            M05_CHECK(b[i].size() == want || (bitmap && (!n.bufs[i] || !b[i].data())) || (want && n.bufs[i]->empty()), "buffer-size", w + ": the view of buffer " + nn((long long) i) + " has " + nn((long long) b[i].size()) + " bytes instead of " + nn((long long) want));
            if (want && !n.bufs[i]->empty())
            {
                if (bitmap && !b[i].data()) { check_bytes(n, i, nullptr, w); continue; }
                M05_CHECK(b[i].data() == p.array().buffers[i], "buffer-view", w + ": the view of buffer " + nn((long long) i) + " is not the exported buffer");
                check_bytes(n, i, b[i].data(), w);
            }
        }
        M05_CHECK(p.children().size() == n.kids.size(), "children", w + ": " + nn((long long) p.children().size()) + " children() instead of " + nn((long long) n.kids.size()));
        for (std::size_t i = 0; i < n.kids.size(); ++i)
        {
            const auto& c = p.children()[i];
            M05_CHECK(&c.array() == p.array().children[i] && &c.schema() == p.schema().children[i], "child-view", w + ": children()[" + nn((long long) i) + "] is not a view of the child");
            M05_CHECK(!c.owns_array() && !c.owns_schema(), "child-view", w + ": children()[" + nn((long long) i) + "] owns its structures");
            check_proxy(c, *n.kids[i].n, w + "." + nn((long long) i));
        }
        M05_CHECK(!p.dictionary() == !n.dict, "dictionary", w + ": dictionary()");
        if (n.dict)
        {
            M05_CHECK(&p.dictionary()->array() == p.array().dictionary && &p.dictionary()->schema() == p.schema().dictionary, "dictionary-view", w + ": dictionary() is not a view of the dictionary");
            check_proxy(*p.dictionary(), *n.dict, w + ".dictionary");
        }
    }
    static u64 shape(const PN& n)
    {
        u64 h = hash_str(n.format) + cls(n.length) * 3 + cls(n.offset) * 17 + n.la * 5 + n.ls * 7 + n.name.has_value() * 131 + n.meta.has_value() * 137 + (n.nulls > 0) * 139;
        for (auto& k : n.kids) h = mix64(h + k.owned + shape(*k.n));
        if (n.dict) h = mix64(h + 77 + shape(*n.dict));
        return mix64(h);
    }

    enum PxCode : u32
    {
        X_NEW, X_PRODUCE, X_MIX, X_WRAP, X_HALF, X_REF, X_COPY, X_COPY_ASSIGN, X_MOVE, X_MOVE_ASSIGN, X_VIEW, X_SLICE, X_SLICE_VIEW, X_EXTRACT, X_PART, X_DESTROY,
        X_FORMAT, X_TYPE, X_NAME, X_META, X_FLAGS, X_LENGTH, X_NULLS, X_OFFSET, X_BUFFER, X_PUSH, X_POP, X_INSERT, X_INSERT_RANGE, X_ERASE, X_RESIZE,
        X_ADD_PTR, X_ADD_OWN, X_ADD_MANY_PTR, X_ADD_MANY_OWN, X_SET_PTR, X_SET_OWN, X_POP_KIDS, X_DICT, X_NO_DICT, X_NBUF, X_OURS, X_COUNT
    };
    struct PPair { ArrowArray a{}; ArrowSchema s{}; u32 ra = 0, rs = 0; bool fa = false, fs = false; };
    struct PObj
    {
        u64 uid = 0;
        std::optional<sp::arrow_proxy> p;
        std::unique_ptr<PPair> pair;
        PNP n;
        bool own_a = true, own_s = true;
        bool view = false;   // shares its structures with another object: no edits
        bool sview = false;  // slice view
        bool zombie = false; // nothing to look at
        bool used = false;   // pair: somebody else works on the structures
        bool lent = false;   // pair: somebody else releases the contents
        std::vector<u64> deps;
    };

    struct Proxy final : World
    {
        std::vector<std::unique_ptr<PObj>> objs;
        u64 next_uid = 1;
        bool step_fault = false;

        static const char* name_of(u32 c)
        {
            static const char* n[] = {"new", "produce", "mix", "wrap-move", "wrap-half", "wrap-reference", "copy", "copy-assign", "move", "move-assign", "view", "slice", "slice-view", "extract", "extract-part", "destroy",
                "set-format", "set-data-type", "set-name", "set-metadata", "set-flags", "set-length", "set-null-count", "set-offset", "set-buffer", "push-bitmap", "pop-bitmap", "insert-bitmap", "insert-bitmap-range",
                "erase-bitmap", "resize-bitmap", "add-child", "add-child-owned", "add-children", "add-children-owned", "set-child", "set-child-owned", "pop-children", "set-dictionary", "reset-dictionary", "set-n-buffers", "library-half"};
            return c < X_COUNT ? n[c] : "?";
        }
        std::vector<OpInfo> ops() const override
        {
            static const u32 w[] = {1012, 1004, 2, 1008, 2, 5, 3, 3, 3, 3, 3, 3, 2, 3, 2, 3, 2, 1, 4, 3, 2, 4, 1, 3, 4, 3, 2, 3, 2, 3, 2, 4, 5, 2, 3, 3, 4, 4, 3, 1, 2, 4};
            std::vector<OpInfo> r;
            for (u32 i = 0; i < X_COUNT; ++i) r.push_back({name_of(i), w[i]});
            return r;
        }
        void generate(Program& p, Rng& g) const override
        {
            p.config = g.next() >> 8;
            generate_ops(*this, p, g, 5, 32, g.chance(1, 3) ? 1 : 0, 2, 10);
        }

        // ---- objects ------------------------------------------------------
        PObj* add(PNP n)
        {
            auto o = std::make_unique<PObj>();
            o->uid = next_uid++;
            o->n = std::move(n);
            objs.push_back(std::move(o));
            return objs.back().get();
        }
        template <class F>
        PObj* pick(u32 a, F&& f)
        {
            std::vector<PObj*> c;
            for (auto& o : objs) if (f(*o)) c.push_back(o.get());
            return c.empty() ? nullptr : c[a % c.size()];
        }
        static bool is_proxy(const PObj& o) { return o.p && !o.zombie; }
        static bool free_pair(const PObj& o) { return o.pair && !o.zombie && !o.used && !o.lent; }
        void drop_dependents(u64 uid)
        {
            for (;;)
            {
                PObj* d = nullptr;
                for (auto& o : objs)
                    if (std::find(o->deps.begin(), o->deps.end(), uid) != o->deps.end()) d = o.get();
                if (!d) return;
                destroy(d);
            }
        }
        bool depends(const PObj& o, u64 uid)
        {
            for (u64 d : o.deps)
            {
                if (d == uid) return true;
                for (auto& x : objs) if (x->uid == d && depends(*x, uid)) return true;
            }
            return false;
        }
        void destroy(PObj* o, bool schema_first = false)
        {
            drop_dependents(o->uid);
            lib([&] { o->p.reset(); });
            if (o->pair)
            {
                PPair& p = *o->pair;
                if (o->lent) M05_CHECK(!p.a.release && !p.s.release, "dictionary-not-released", "the owner of a dictionary is gone and the dictionary is not released");
                if (schema_first) release_schema(&p.s);
                release_array(&p.a);
                release_schema(&p.s);
            }
            for (std::size_t i = 0; i < objs.size(); ++i)
                if (objs[i].get() == o) { objs.erase(objs.begin() + long(i)); break; }
        }

        // ---- verification -------------------------------------------------
        void verify(PObj& o)
        {
            if (o.zombie) return;
            const std::string w = (o.pair ? "pair " : o.sview ? "slice view " : o.view ? "view " : "proxy ") + nn((long long) o.uid);
            if (o.pair)
            {
                check_raw(o.pair->a, o.pair->s, *o.n, w);
                return;
            }
            Scope s;
            const sp::arrow_proxy& p = *o.p;
            M05_CHECK(p.owns_array() == o.own_a && p.owns_schema() == o.own_s, "ownership", w + ": ownership reported is " + nn(p.owns_array()) + nn(p.owns_schema()));
            check_raw(p.array(), p.schema(), *o.n, w);
            check_proxy(p, *o.n, w);
        }
        void verify_all()
        {
            u64 h = objs.size();
            for (auto& o : objs)
            {
                verify(*o);
                u64 x = o->zombie ? 1 : shape(*o->n) + o->view + o->own_a * 2 + o->own_s * 4 + (o->pair ? 8 : 0);
                note(x);
                h = mix64(h + mix64(x));
            }
            check_foreign_memory(M05);
            note_state(h);
        }

        // ---- execution under faults ---------------------------------------
        // A failed call must change nothing and succeed when it is repeated without fault.
        template <class F>
        void attempt(const Op& op, F&& f, const std::function<bool()>& survives = {})
        {
            std::string what;
            Res r = guarded(op, f, &what);
            if (r == Res::threw) viol(M05, "unexpected-exception", what);
            if (r == Res::ok) return;
            step_fault = true;
            if (survives && !survives()) throw Consumed{};
            verify_all();
            Op again = op;
            again.fault = 0;
            r = guarded(again, f, &what);
            if (r != Res::ok) viol(M05, "retry-fails", "the edit fails again without any failed allocation: " + what);
            count("retry-after-fault");
        }
        struct Consumed {};
        // the edit must be refused and change nothing
        template <class F>
        void refused(F&& f, const char* why)
        {
            std::string what;
            Op none;
            Res r = guarded(none, f, &what);
            count("edit-refused");
            M05_CHECK(r != Res::ok, "edit-accepted", std::string("an edit was accepted although ") + why);
            M05_CHECK(what.find("arrow_proxy_exception") != std::string::npos, "refusal-type", "an edit is refused by " + what);
            verify_all();
        }

        // ---- content ------------------------------------------------------
        static std::string text(Rng& g)
        {
            static const char* t[] = {"", "a", "field", "a name that does not fit in the small string buffer of any implementation", "x:1", "\xc3\xa9t\xc3\xa9"};
            std::string s = t[g.below(6)];
            if (g.chance(1, 2)) s += std::to_string(g.below(1000));
            return s;
        }
        static std::optional<std::string> maybe_text(Rng& g) { return g.chance(1, 3) ? std::nullopt : std::optional(text(g)); }
        static Bytes random_bytes(u64 n, Rng& g)
        {
            Bytes b(n);
            for (auto& x : b) x = u8(g.next() >> 32);
            return b;
        }
        // the buffers of an array of N elements
        static void fill(PN& n, u64 N, Rng& g, u64 slack)
        {
            n.bufs.clear();
            n.bits = 0;
            const std::string& f = n.format;
            if (f == "n") return;
            if (f == "+us:0") { n.bufs.push_back(Bytes(N + slack, 0)); return; }
            if (f == "+ud:0") { n.bufs.push_back(Bytes(N + slack, 0)); n.bufs.push_back(random_bytes((N + slack) * 4, g)); return; }
            n.bufs.emplace_back();
            if (N + slack && !g.chance(1, 6))
            {
                std::vector<bool> b(N + slack);
                for (u64 i = 0; i < b.size(); ++i) b[i] = !g.chance(1, 3);
                set_bits(n, b);
            }
            if (u32 w = width(f)) n.bufs.push_back(random_bytes((N + slack) * w, g));
            else if (f == "b") n.bufs.push_back(random_bytes((N + slack + 7) / 8, g));
            else if (f == "+vl") { n.bufs.push_back(random_bytes((N + slack) * 4, g)); n.bufs.push_back(random_bytes((N + slack) * 4, g)); }
            else if (const u32 ow = offset_width(f))
            {
                Bytes o, d;
                u64 x = g.below(3);
                for (u64 i = 0; i <= N + slack; ++i)
                {
                    const u8* q = reinterpret_cast<const u8*>(&x);
                    o.insert(o.end(), q, q + ow);
                    if (i < N + slack) x += g.below(4);
                }
                n.bufs.push_back(o);
                if (str_like(f)) n.bufs.push_back(random_bytes(u64(x), g));
            }
        }
        static sp::buffer<u8> lib_buffer(const std::optional<Bytes>& b)
        {
            if (!b) return {};
            sp::buffer<u8> r(b->size());
            if (!b->empty()) std::memcpy(r.data(), b->data(), b->size());
            return r;
        }
        static std::string a_format(Rng& g, bool nest)
        {
            static const char* f[] = {"c", "C", "s", "S", "i", "I", "l", "L", "f", "g", "e", "u", "z", "n", "+us:0"};
            // layouts which are carried, not read
            static const char* more[] = {"U", "Z", "b", "w:3", "w:12", "d:10,2", "d:9,2,32", "d:18,3,64", "d:38,10,128", "d:76,10,256", "tdD", "tdm", "tts", "ttm", "ttu", "tsn:UTC", "tDs", "tiM", "tiD", "tin", "+ud:0"};
            static const char* kid[] = {"+l", "+L", "+m", "+w:2", "+vl"};
            if (nest && g.chance(1, 2)) return g.chance(1, 3) ? kid[g.below(5)] : "+s";
            return g.chance(1, 4) ? more[g.below(21)] : f[g.below(15)];
        }
        PNP gen_node(Rng& g, u32 depth)
        {
            auto n = std::make_shared<PN>();
            n->format = a_format(g, depth < 2);
            n->name = maybe_text(g);
            n->meta = g.chance(1, 2) ? std::nullopt : maybe_text(g);
            n->flags = g.chance(1, 3) ? 0 : i64(1) << g.below(3);
            n->offset = g.chance(1, 2) ? 0 : g.below(10);
            n->length = g.chance(1, 6) ? 0 : g.below(12);
            fill(*n, total(*n), g, g.chance(1, 2) ? 0 : g.below(9));
            recount(*n);
            if (bitmapped(n->format) && g.chance(1, 5)) n->nulls = -1;
            if (n->format[0] == '+')
            {
                u32 k = n->format == "+s" ? g.below(4) : 1;
                for (u32 i = 0; i < k; ++i) n->kids.push_back({gen_node(g, depth + 1), true});
            }
            if (width(n->format) && n->format != "f" && n->format != "g" && n->format != "e" && g.chance(1, 6) && depth < 2) n->dict = gen_node(g, 2);
            return n;
        }
        static void make_raw(const PN& n, ArrowArray* a, ArrowSchema* s)
        {
            std::vector<sp::buffer<u8>> b;
            for (auto& x : n.bufs) b.push_back(lib_buffer(x));
            const std::size_t k = n.kids.size();
            ArrowArray** ka = k ? new ArrowArray*[k] : nullptr;
            ArrowSchema** ks = k ? new ArrowSchema*[k] : nullptr;
            for (std::size_t i = 0; i < k; ++i) { ka[i] = new ArrowArray; ks[i] = new ArrowSchema; make_raw(*n.kids[i].n, ka[i], ks[i]); }
            ArrowArray* da = n.dict ? new ArrowArray : nullptr;
            ArrowSchema* ds = n.dict ? new ArrowSchema : nullptr;
            if (n.dict) make_raw(*n.dict, da, ds);
            *a = sp::make_arrow_array(i64(n.length), n.nulls, i64(n.offset), std::move(b), k, ka, da);
            *s = sp::make_arrow_schema(n.format, n.name, n.meta, n.flags ? std::optional(sp::ArrowFlag(n.flags)) : std::nullopt, i64(k), ks, ds);
        }

        // ---- steps --------------------------------------------------------
        void step(const Op& op)
        {
            Rng g(op.r);
            if (objs.size() >= 12) destroy(pick(op.c, [](PObj&) { return true; }));
            switch (op.code)
            {
                case X_NEW:
                {
                    PNP n = gen_node(g, 0);
                    auto p = std::make_unique<PPair>();
                    lib([&] { make_raw(*n, &p->a, &p->s); });
                    add(n)->pair = std::move(p);
                    break;
                }
                case X_PRODUCE:
                {
                    GenOpts o;
                    o.max_depth = g.below(3);
                    o.foreign = o.names = true;
                    o.kinds = 0;
                    for (K k : {K::NA, K::I8, K::U8, K::I16, K::U16, K::I32, K::U32, K::I64, K::U64, K::F16, K::F32, K::F64, K::STR, K::STRUCT}) o.kinds |= u64(1) << u32(k);
                    TyP t = gen_type(g, o);
                    auto p = std::make_unique<PPair>();
                    p->fa = p->fs = true;
                    p->ra = p->rs = produce(*t, gen_vals(*t, g.below(9), g), g, &p->a, &p->s);
                    PNP n = from_raw(p->a, p->s);
                    add(n)->pair = std::move(p);
                    break;
                }
                case X_MIX:
                {
                    auto plain = [](PObj& o) { return free_pair(o) && o.n->kids.empty() && !o.n->dict; };
                    PObj* x = pick(op.a, plain);
                    if (!x) break;
                    PObj* y = pick(op.b, [&](PObj& o) { return &o != x && plain(o) && o.n->format == x->n->format; });
                    if (!y) break;
                    drop_dependents(x->uid);
                    drop_dependents(y->uid);
                    std::swap(x->pair->s, y->pair->s);
                    std::swap(x->pair->rs, y->pair->rs);
                    std::swap(x->pair->fs, y->pair->fs);
                    std::swap(x->n->name, y->n->name);
                    std::swap(x->n->meta, y->n->meta);
                    std::swap(x->n->flags, y->n->flags);
                    std::swap(x->n->ls, y->n->ls);
                    break;
                }
                case X_OURS: // one of the two foreign structures gives way to a copy the library made
                {
                    PObj* x = pick(op.a, [](PObj& o) { return free_pair(o) && o.pair->fa && o.pair->fs && nodes(*o.n) <= 12; });
                    if (!x) break;
                    drop_dependents(x->uid);
                    PPair& p = *x->pair;
                    if (op.b & 1)
                    {
                        ArrowSchema c{};
                        attempt(op, [&] { sp::copy_schema(p.s, c); });
                        release_schema(&p.s);
                        p.s = c;
                        p.fs = false;
                        own_half(*x->n, false);
                    }
                    else
                    {
                        ArrowArray c{};
                        attempt(op, [&] { sp::copy_array(p.a, p.s, c); });
                        release_array(&p.a);
                        p.a = c;
                        p.fa = false;
                        x->n = clone(*x->n);
                        own_half(*x->n, true);
                    }
                    break;
                }
                case X_WRAP: wrap(op, 0); break;
                case X_HALF: wrap(op, 1); break;
                case X_REF: wrap(op, 2); break;
                case X_COPY:
                {
                    PObj* s = pick(op.a, is_proxy);
                    if (!s || nodes(*s->n) > 24) break;
                    std::optional<sp::arrow_proxy> c;
                    attempt(op, [&] { c.emplace(std::as_const(*s->p)); });
                    add(clone(*s->n))->p = std::move(c);
                    lib([&] { c.reset(); });
                    break;
                }
                case X_COPY_ASSIGN:
                {
                    PObj* s = pick(op.a, is_proxy);
                    if (!s || nodes(*s->n) > 24) break;
                    PObj* d = pick(op.b, [](PObj& o) { return o.p.has_value(); });
                    if (d == s) { attempt(op, [&] { *d->p = std::as_const(*s->p); }); break; }
                    const u64 su = s->uid;
                    drop_dependents(d->uid);
                    s = find(su, op.a);
                    if (!s || s == d) break;
                    attempt(op, [&] { *d->p = std::as_const(*s->p); });
                    d->n = clone(*s->n);
                    d->own_a = d->own_s = true;
                    d->view = d->sview = d->zombie = false;
                    d->deps.clear();
                    break;
                }
                case X_MOVE:
                {
                    PObj* s = pick(op.a, is_proxy);
                    if (!s) break;
                    drop_dependents(s->uid);
                    PObj* d = add(s->n);
                    take_state(*d, *s);
                    lib([&] { d->p.emplace(std::move(*s->p)); });
                    s->zombie = true;
                    s->view = true;
                    s->deps.clear();
                    break;
                }
                case X_MOVE_ASSIGN:
                {
                    PObj* s = pick(op.a, is_proxy);
                    PObj* d = pick(op.b, [](PObj& o) { return o.p.has_value(); });
                    if (!s || s == d) break;
                    const u64 du = d->uid, su = s->uid;
                    if (depends(*s, du)) break; // assigning over what the source refers to
                    drop_dependents(su);
                    if (!(d = find(du, op.b))) break;
                    drop_dependents(du);
                    auto left = d->deps;
                    lib([&] { *d->p = std::move(*s->p); });
                    take_state(*d, *s);
                    s->zombie = true;
                    s->deps.insert(s->deps.end(), left.begin(), left.end()); // may hold the old value until it is destroyed
                    break;
                }
                case X_VIEW:
                {
                    PObj* s = pick(op.a, is_proxy);
                    if (!s) break;
                    std::optional<sp::arrow_proxy> v;
                    attempt(op, [&] { v.emplace(s->p->view()); });
                    PObj* d = add(s->n);
                    d->p = std::move(v);
                    lib([&] { v.reset(); });
                    d->own_a = d->own_s = false;
                    d->view = true;
                    d->sview = s->sview;
                    d->deps = {s->uid};
                    break;
                }
                case X_SLICE: case X_SLICE_VIEW:
                {
                    const bool view = op.code == X_SLICE_VIEW;
                    PObj* s = pick(op.a, is_proxy);
                    if (!s || nodes(*s->n) > 24) break;
                    u64 b = g.below(u32(s->n->length + 1)), e = b + g.below(u32(s->n->length - b + 1));
                    std::optional<sp::arrow_proxy> v;
                    attempt(op, [&] { if (view) v.emplace(s->p->slice_view(b, e)); else v.emplace(s->p->slice(b, e)); });
                    PNP n = view ? std::make_shared<PN>(*s->n) : clone(*s->n);
                    n->offset += b;
                    n->length = e - b;
                    if (n->format == "n" || bitmapped(n->format)) recount(*n);
                    else if (n->nulls != 0) n->nulls = -1;
                    PObj* d = add(n);
                    d->p = std::move(v);
                    lib([&] { v.reset(); });
                    if (view)
                    {
                        n->la = n->ls = false;
                        for (auto& k : n->kids) k.owned = false;
                        d->view = d->sview = true;
                        d->deps = {s->uid};
                    }
                    break;
                }
                case X_EXTRACT: case X_PART: extract(op, g); break;
                case X_DESTROY: if (PObj* o = pick(op.a, [](PObj&) { return true; })) destroy(o, op.b & 1); break;
                default: edit(op, g); break;
            }
        }
        PObj* find(u64 uid, u32)
        {
            for (auto& o : objs) if (o->uid == uid) return o.get();
            return nullptr;
        }
        void take_state(PObj& d, const PObj& s)
        {
            d.n = s.n;
            d.own_a = s.own_a;
            d.own_s = s.own_s;
            d.view = s.view;
            d.sview = s.sview;
            d.zombie = false;
            d.deps = s.deps;
        }
        static void hand(const PPair& p, bool a, bool s)
        {
            if (p.fa && a) hand_over(p.ra, true, false);
            if (p.fs && s) hand_over(p.rs, false, true);
        }
        // Whether structures given away by a call that failed are still the caller's. Anything in between is an error.
        bool still_mine(PObj& o, bool a, bool s)
        {
            PPair& p = *o.pair;
            bool ga = a && !p.a.release, gs = s && !p.s.release;
            if (!ga && !gs) return true;
            M05_CHECK((!a || ga) && (!s || gs), "half-consumed", "a failed call has taken one of the two structures only");
            o.zombie = true;
            return false;
        }
        void wrap(const Op& op, int mode)
        {
            PObj* s = pick(op.a, free_pair);
            if (!s) return;
            drop_dependents(s->uid);
            PPair& p = *s->pair;
            if (mode != 2) hand(p, true, mode == 0);
            std::optional<sp::arrow_proxy> r;
            try
            {
                attempt(op, [&]
                {
                    if (mode == 0) r.emplace(std::move(p.a), std::move(p.s));
                    else if (mode == 1) r.emplace(std::move(p.a), &p.s);
                    else r.emplace(&p.a, &p.s);
                }, [&] { return still_mine(*s, mode != 2, mode == 0); });
            }
            catch (Consumed&) { return; }
            if (mode != 2) M05_CHECK(!p.a.release && (mode == 1 || !p.s.release), "move-not-cleared", "structures that were moved in still have a release callback");
            PObj* d = add(s->n);
            d->p = std::move(r);
            lib([&] { r.reset(); });
            d->own_a = mode != 2;
            d->own_s = mode == 0;
            d->deps = s->deps;
            if (mode == 0) { s->zombie = true; s->deps.clear(); return; }
            d->deps.push_back(s->uid);
            if (mode == 1) s->zombie = true; // the schema is still there, and released with the pair
        }
        void extract(const Op& op, Rng& g)
        {
            PObj* s = pick(op.a, [](PObj& o) { return is_proxy(o) && !(o.sview && o.own_a); });
            if (!s) return;
            drop_dependents(s->uid);
            if (!s->own_a || !s->own_s)
            {
                for (int k = 0; k < 2; ++k)
                {
                    if (k == 0 ? s->own_a : s->own_s) continue;
                    std::string what;
                    Op none;
                    Res r = guarded(none, [&] { if (k == 0) (void) s->p->extract_array(); else (void) s->p->extract_schema(); }, &what);
                    M05_CHECK(r == Res::threw, "extracted-not-owned", "a structure that is not owned can be extracted");
                }
                return;
            }
            auto p = std::make_unique<PPair>();
            const bool part = op.code == X_PART, first = g.chance(1, 2);
            attempt(op, [&]
            {
                if (part) { if (first) p->a = s->p->extract_array(); else p->s = s->p->extract_schema(); }
                else if (first) { p->a = s->p->extract_array(); p->s = s->p->extract_schema(); }
                else { p->s = s->p->extract_schema(); p->a = s->p->extract_array(); }
            });
            s->zombie = true;
            PObj* d = add(s->n);
            // the two structures of the pair may come from different foreign trees; the consumer releases them
            d->pair = std::move(p);
            d->deps = s->deps;
            if (part) d->zombie = true; // released by the consumer on its own
            else s->deps.clear();
            if (op.b & 1) destroy(s);
        }

        // ---- edits --------------------------------------------------------
        void edit(const Op& op, Rng& g)
        {
            PObj* o = pick(op.a, [](PObj& x) { return is_proxy(x) && (!x.view || (x.sview && x.own_a)); });
            if (!o) return;
            drop_dependents(o->uid);
            sp::arrow_proxy* p = &*o->p;
            PN* n = o->n.get();
            std::string where = "root";
            while (!o->sview && (!n->kids.empty() || n->dict) && g.chance(2, 5))
            {
                u32 k = g.below(u32(n->kids.size() + (n->dict ? 1 : 0)));
                if (k < n->kids.size()) { p = &p->children()[k]; n = n->kids[k].n.get(); where += "." + nn(k); }
                else { p = &*p->dictionary(); n = n->dict.get(); where += ".dictionary"; }
            }
            vlog("  edit %s of proxy %llu (format %s, length %llu, offset %llu)\n", where.c_str(), (unsigned long long) o->uid, n->format.c_str(), (unsigned long long) n->length, (unsigned long long) n->offset);
            const u32 c = op.code;
            const bool schema_edit = c >= X_FORMAT && c <= X_FLAGS, array_edit = (c >= X_LENGTH && c <= X_RESIZE) || c == X_NBUF;
            const bool allowed = schema_edit ? n->ls : array_edit ? n->la : n->la && n->ls;
            const char* why = "the structures were not created by the library";
            switch (c)
            {
                case X_FORMAT: case X_TYPE:
                {
                    static const std::vector<std::vector<const char*>> groups = {{"c", "C"}, {"s", "S", "e"}, {"i", "I", "f"}, {"l", "L", "g"}, {"u", "z"}};
                    std::string f;
                    for (auto& gr : groups)
                        for (auto* x : gr) if (n->format == x) f = gr[g.below(u32(gr.size()))];
                    if (f.empty()) return;
                    auto go = [&] { if (c == X_FORMAT) p->set_format(f); else p->set_data_type(sp::format_to_data_type(f)); };
                    if (!allowed) { refused(go, why); return; }
                    attempt(op, go);
                    n->format = f;
                    return;
                }
                case X_NAME: case X_META:
                {
                    auto t = maybe_text(g);
                    auto go = [&]
                    {
                        std::optional<const std::string_view> v;
                        if (t) v.emplace(*t);
                        if (c == X_NAME) p->set_name(v); else p->set_metadata(v);
                    };
                    if (!allowed) { refused(go, why); return; }
                    attempt(op, go);
                    (c == X_NAME ? n->name : n->meta) = t;
                    return;
                }
                case X_FLAGS:
                {
                    std::vector<sp::ArrowFlag> v;
                    i64 x = 0;
                    for (i64 k : {1, 2, 4}) if (g.chance(1, 2)) { v.push_back(sp::ArrowFlag(k)); x |= k; }
                    auto go = [&] { p->set_flags(v); };
                    if (!allowed) { refused(go, why); return; }
                    attempt(op, go);
                    n->flags = x;
                    return;
                }
                case X_LENGTH:
                {
                    u64 len = g.below(14);
                    if (!allowed) { refused([&] { p->set_length(len); }, why); return; }
                    if (n->offset + len <= capacity(*n) && g.chance(2, 3)) { set_length(op, *p, *n, len); return; }
                    set_length(op, *p, *n, len);
                    refill(op, *p, *n, g, false);
                    return;
                }
                case X_NULLS:
                {
                    i64 x = i64(g.below(u32(n->length + 1)));
                    if (g.chance(1, 4)) x = -1;
                    auto go = [&] { p->set_null_count(x); };
                    if (!allowed) { refused(go, why); return; }
                    attempt(op, go);
                    n->nulls = x;
                    n->nulls_any = false;
                    return;
                }
                case X_OFFSET:
                {
                    u64 cap = capacity(*n);
                    u64 x = cap > n->length ? g.below(u32(std::min<u64>(cap - n->length, 12) + 1)) : 0;
                    if (total(*n) > cap) return;
                    auto go = [&] { p->set_offset(x); };
                    if (!allowed) { refused(go, why); return; }
                    attempt(op, go);
                    n->offset = x;
                    return;
                }
                case X_BUFFER:
                {
                    if (n->bufs.empty()) return;
                    if (!allowed)
                    {
                        std::size_t i = g.below(u32(n->bufs.size()));
                        Bytes b(8);
                        if (g.chance(1, 2)) refused([&] { p->set_buffer(i, sp::buffer_view<u8>(b.data(), b.size())); }, why);
                        else refused([&] { p->set_buffer(i, sp::buffer<u8>(8)); }, why);
                        return;
                    }
                    refill(op, *p, *n, g, true);
                    return;
                }
                case X_NBUF:
                {
                    const std::size_t k = n->bufs.size(), more = k + 1 + g.below(3);
                    if (n->format[0] == '+' || !allowed)
                    {
                        if (!n->la) refused([&] { p->set_n_buffers(more); }, why);
                        return;
                    }
                    attempt(op, [&] { p->set_n_buffers(more); });
                    n->bufs.resize(more);
                    verify_all();
                    attempt(op, [&] { p->set_n_buffers(k); });
                    n->bufs.resize(k);
                    return;
                }
                case X_PUSH: case X_POP: case X_INSERT: case X_INSERT_RANGE: case X_ERASE: case X_RESIZE: bitmap_edit(op, *p, *n, g, allowed, why); return;
                default: structure_edit(op, *o, *p, *n, g, allowed, why); return;
            }
        }
        void set_length(const Op& op, sp::arrow_proxy& p, PN& n, u64 len)
        {
            attempt(op, [&] { p.set_length(len); });
            n.length = len;
            recount(n);
        }
        void set_buffer(const Op& op, sp::arrow_proxy& p, PN& n, std::size_t i, const std::optional<Bytes>& b, u64 bits, bool view)
        {
            attempt(op, [&]
            {
                if (view && b) p.set_buffer(i, sp::buffer_view<u8>(const_cast<u8*>(b->data()), b->size()));
                else p.set_buffer(i, lib_buffer(b));
            });
            n.bufs[i] = b;
            if (i == 0) n.bits = bits;
            recount(n);
        }
        // new buffers for the current length
        void refill(const Op& op, sp::arrow_proxy& p, PN& n, Rng& g, bool some)
        {
            PN f;
            f.format = n.format;
            fill(f, total(n), g, g.below(4));
            for (std::size_t i = 0; i < n.bufs.size(); ++i)
            {
                if (some && n.bufs[i] && n.bufs.size() < 3 && g.chance(1, 2)) continue;
                set_buffer(op, p, n, i, f.bufs[i], f.bits, g.chance(1, 2));
            }
        }
        void bitmap_edit(const Op& op, sp::arrow_proxy& p, PN& n, Rng& g, bool allowed, const char* why)
        {
            if (!bitmapped(n.format)) return;
            auto cur = bits_of(n);
            if (!cur || total(n) > capacity(n)) return;
            std::vector<bool> b = *cur;
            const bool v = g.chance(1, 2);
            const u64 idx = g.below(u32(n.length + 1)), cnt = g.chance(1, 8) ? 0 : 1 + g.below(g.chance(1, 4) ? 12 : 4);
            u64 len = n.length;
            const auto pos = long(n.offset + idx);
            switch (op.code)
            {
                case X_PUSH:
                    if (!allowed) { refused([&] { p.push_back_bitmap(v); }, why); return; }
                    attempt(op, [&] { p.push_back_bitmap(v); });
                    b.push_back(v);
                    ++len;
                    break;
                case X_POP:
                    if (n.length == 0) return;
                    if (!allowed) { refused([&] { p.pop_back_bitmap(); }, why); return; }
                    attempt(op, [&] { p.pop_back_bitmap(); });
                    b.pop_back();
                    --len;
                    break;
                case X_INSERT:
                {
                    if (!allowed) { refused([&] { (void) p.insert_bitmap(idx, v, cnt); }, why); return; }
                    std::size_t r = 0;
                    attempt(op, [&] { r = p.insert_bitmap(idx, v, cnt); });
                    M05_CHECK(r == idx, "returned-index", "insert_bitmap returns " + nn((long long) r) + " instead of " + nn((long long) idx));
                    b.insert(b.begin() + pos, cnt, v);
                    len += cnt;
                    break;
                }
                case X_INSERT_RANGE:
                {
                    std::vector<bool> x;
                    for (u64 i = 0; i < cnt; ++i) x.push_back(g.chance(1, 2));
                    if (!allowed) { refused([&] { (void) p.insert_bitmap(idx, x); }, why); return; }
                    std::size_t r = 0;
                    attempt(op, [&] { r = p.insert_bitmap(idx, x); });
                    M05_CHECK(r == idx, "returned-index", "insert_bitmap returns " + nn((long long) r) + " instead of " + nn((long long) idx));
                    b.insert(b.begin() + pos, x.begin(), x.end());
                    len += cnt;
                    break;
                }
                case X_ERASE:
                {
                    if (n.length == 0) return;
                    const u64 i = idx % n.length, c = std::min(cnt, n.length - i);
                    if (!allowed) { refused([&] { (void) p.erase_bitmap(i, c); }, why); return; }
                    std::size_t r = 0;
                    attempt(op, [&] { r = p.erase_bitmap(i, c); });
                    M05_CHECK(r == i, "returned-index", "erase_bitmap returns " + nn((long long) r) + " instead of " + nn((long long) i));
                    b.erase(b.begin() + long(n.offset + i), b.begin() + long(n.offset + i + c));
                    len -= c;
                    break;
                }
                default:
                {
                    len = g.below(14);
                    if (!allowed) { refused([&] { p.resize_bitmap(n.offset + len, v); }, why); return; }
                    attempt(op, [&] { p.resize_bitmap(n.offset + len, v); });
                    b.resize(n.offset + len, v);
                    break;
                }
            }
            set_bits(n, b);
            if (len == n.length) return;
            // the other buffers follow the length
            set_length(op, p, n, len);
            PN f;
            f.format = n.format;
            fill(f, total(n), g, 0);
            for (std::size_t i = 1; i < n.bufs.size(); ++i)
                if (!(width(n.format) && n.bufs[i] && n.bufs[i]->size() >= total(n) * width(n.format))) set_buffer(op, p, n, i, f.bufs[i], 0, g.chance(1, 2));
        }
        void check_replaced(const PNP& old)
        {
            for (auto& q : objs)
                if (old && q->lent && q->n == old) M05_CHECK(!q->pair->a.release && !q->pair->s.release, "dictionary-not-released", "a dictionary that was replaced is not released");
        }
        void structure_edit(const Op& op, PObj& o, sp::arrow_proxy& p, PN& n, Rng& g, bool allowed, const char* why)
        {
            const u32 c = op.code;
            if (c == X_NO_DICT)
            {
                auto go = [&] { p.set_dictionary(nullptr, nullptr); };
                if (!allowed) { refused(go, why); return; }
                const PNP old = n.dict;
                attempt(op, go);
                n.dict = nullptr;
                check_replaced(old);
                return;
            }
            if (c == X_POP_KIDS)
            {
                const u64 k = g.below(u32(n.kids.size() + 2));
                auto go = [&] { p.pop_children(k); };
                if (!allowed) { refused(go, why); return; }
                if (k > n.kids.size()) { refused(go, "there are fewer children"); return; }
                attempt(op, go);
                n.kids.resize(n.kids.size() - k);
                return;
            }
            const bool set = c == X_SET_PTR || c == X_SET_OWN, own = c == X_ADD_OWN || c == X_ADD_MANY_OWN || c == X_SET_OWN, many = c == X_ADD_MANY_PTR || c == X_ADD_MANY_OWN;
            if (set && n.kids.empty()) return;
            // what is attached: structures that neither are nor contain the object itself
            std::vector<PObj*> x;
            const u32 want = many ? g.below(4) : 1;
            for (u32 i = 0; i < want; ++i)
            {
                PObj* y = pick(op.b + i, [&](PObj& q)
                {
                    return free_pair(q) && !depends(o, q.uid) && !depends(q, o.uid) && std::find(x.begin(), x.end(), &q) == x.end() && nodes(*q.n) < 8
                        && std::none_of(x.begin(), x.end(), [&](PObj* z) { return depends(*z, q.uid) || depends(q, z->uid); });
                });
                if (y) x.push_back(y);
            }
            if (!many && x.empty()) return;
            if (nodes(*o.n) > 24) return;
            const std::size_t idx = set ? g.below(u32(n.kids.size())) : n.kids.size();
            if (allowed)
            {
                std::vector<u64> ids;
                for (auto* y : x) ids.push_back(y->uid);
                for (u64 id : ids)
                    if (PObj* y = find(id, 0)) drop_dependents(y->uid);
                std::erase_if(x, [&](PObj* y) { return std::none_of(objs.begin(), objs.end(), [&](auto& q) { return q.get() == y; }); });
                if (!many && x.empty()) return;
            }
            std::vector<sp::arrow_array_and_schema_pointers> ptrs;
            std::vector<sp::arrow_array_and_schema> vals;
            for (auto* y : x)
            {
                ptrs.push_back({&y->pair->a, &y->pair->s});
                if (own && allowed) hand(*y->pair, true, true);
            }
            auto load = [&] { vals.clear(); for (auto* y : x) vals.push_back({y->pair->a, y->pair->s}); };
            auto go = [&]
            {
                switch (c)
                {
                    case X_ADD_PTR: p.add_child(ptrs[0].array, ptrs[0].schema); break;
                    case X_ADD_OWN: p.add_child(std::move(vals[0].array), std::move(vals[0].schema)); break;
                    case X_ADD_MANY_PTR: p.add_children(ptrs); break;
                    case X_ADD_MANY_OWN: p.add_children(std::move(vals)); break;
                    case X_SET_PTR: p.set_child(idx, ptrs[0].array, ptrs[0].schema); break;
                    case X_SET_OWN: p.set_child(idx, std::move(vals[0].array), std::move(vals[0].schema)); break;
                    default: p.set_dictionary(ptrs[0].array, ptrs[0].schema); break;
                }
            };
            load();
            if (!allowed) { refused(go, why); return; }
            if (c == X_DICT) { for (auto* y : x) hand(*y->pair, true, true); }
            const PNP old_dict = n.dict;
            attempt(op, go, [&]
            {
                // a call that fails leaves what it was given to the caller
                if (own)
                    for (auto& v : vals) M05_CHECK(v.array.release && v.schema.release, "lost-on-failure", "a failed call has taken structures that it does not keep");
                load();
                return true;
            });
            if (c == X_DICT) check_replaced(old_dict);
            std::vector<PObj*> owners{&o}; // of the structures that are edited
            for (u64 d : std::vector<u64>(o.deps))
                if (PObj* q = find(d, 0)) if (q->pair) owners.push_back(q);
            auto depend = [&](const std::vector<u64>& d) { for (auto* q : owners) q->deps.insert(q->deps.end(), d.begin(), d.end()); };
            for (std::size_t i = 0; i < x.size(); ++i)
            {
                PObj* y = x[i];
                if (c == X_DICT)
                {
                    n.dict = y->n;
                    y->used = y->lent = true;
                    y->zombie = true; // looked at through its owner, until that releases it
                    depend({y->uid});
                    continue;
                }
                KidM k{y->n, own};
                if (set) n.kids[idx] = k; else n.kids.push_back(k);
                depend(y->deps);
                if (own)
                {
                    y->pair->a.release = nullptr;
                    y->pair->s.release = nullptr;
                    y->zombie = true;
                    y->deps.clear();
                }
                else
                {
                    y->used = true;
                    depend({y->uid});
                }
            }
        }

        void run(const Program& p) override
        {
            for (std::size_t i = 0; i < p.ops.size(); ++i)
            {
                set_op(i, name_of(p.ops[i].code));
                step_fault = false;
                step(p.ops[i]);
                verify_all();
            }
            set_op(p.ops.size(), "teardown");
            while (!objs.empty()) { destroy(objs[mix64(p.config + objs.size()) % objs.size()].get(), p.config & 1); for (auto& o : objs) verify(*o); check_foreign_memory(M05); }
            set_op(p.ops.size() + 1, "end");
            check_all_released(M05);
            AllocStats st = alloc_stats();
            if (st.live_blocks) viol(M05, "leak", nn((long long) st.live_blocks) + " blocks of the library are never freed: " + describe_live_blocks());
        }
    };
}
namespace sim
{
    World* make_proxy(bool)
    {
        inter::set_interest(inter::M05 | inter::L01 | inter::L02 | inter::L04);
        return new inter::Proxy();
    }
}
