#include "cdata.hpp"
#include <cstdlib>
#include <cstring>

namespace sim::inter
{
    thread_local std::vector<Node*> g_nodes;
    thread_local bool g_consumer_release = false;
    static thread_local u32 g_roots = 0;

    static u64 digest(const void* p, std::size_t n)
    {
        const u8* c = static_cast<const u8*>(p);
        u64 h = n + 1469598103934665603ull;
        for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
        return h;
    }
    static void* keep(std::vector<Mem>& v, const void* src, std::size_t n)
    {
        void* p = malloc(n); // exact size: the memory checker guards both ends
        if (n) std::memcpy(p, src, n);
        v.push_back({p, n, digest(p, n)});
        return p;
    }
    static void drop(std::vector<Mem>& v)
    {
        for (auto& m : v) { memory_freed(m.p, m.n); free(m.p); }
        v.clear();
    }
    bool struct_unchanged(const ArrowArray& n, const ArrowArray& o)
    {
        return n.length == o.length && n.null_count == o.null_count && n.offset == o.offset && n.n_buffers == o.n_buffers && n.n_children == o.n_children
            && n.buffers == o.buffers && n.children == o.children && n.dictionary == o.dictionary && n.private_data == o.private_data;
    }
    static bool struct_unchanged(const ArrowSchema& n, const ArrowSchema& o)
    {
        return n.format == o.format && n.name == o.name && n.metadata == o.metadata && n.flags == o.flags && n.n_children == o.n_children
            && n.children == o.children && n.dictionary == o.dictionary && n.private_data == o.private_data;
    }
    static void cb_array(ArrowArray* a)
    {
        Pause z;
        Node* n = static_cast<Node*>(a->private_data);
        count("release:array");
        INTER_CHECK(n->array_alive && n->array_released == 0, L01, "double-release", "array of " + n->what + " released again");
        INTER_CHECK(g_consumer_release || n->array_handed, L01, "borrowed-released", "the library released the array of " + n->what + ", which it only borrowed");
        INTER_CHECK(a->release == &cb_array, L01, "release-pointer", "release called on a structure whose release member is different");
        INTER_CHECK(struct_unchanged(*a, n->a0), L04, "foreign-struct-written", "the ArrowArray of " + n->what + " was modified before its release");
        ++n->array_released;
        n->array_alive = false;
        for (auto* k : n->akids)
        {
            if (k->release) k->release(k);
            free(k);
        }
        n->akids.clear();
        drop(n->amem);
        a->release = nullptr;
    }
    static void cb_schema(ArrowSchema* s)
    {
        Pause z;
        Node* n = static_cast<Node*>(s->private_data);
        count("release:schema");
        INTER_CHECK(n->schema_alive && n->schema_released == 0, L01, "double-release", "schema of " + n->what + " released again");
        INTER_CHECK(g_consumer_release || n->schema_handed, L01, "borrowed-released", "the library released the schema of " + n->what + ", which it only borrowed");
        INTER_CHECK(s->release == &cb_schema, L01, "release-pointer", "release called on a structure whose release member is different");
        INTER_CHECK(struct_unchanged(*s, n->s0), L04, "foreign-struct-written", "the ArrowSchema of " + n->what + " was modified before its release");
        ++n->schema_released;
        n->schema_alive = false;
        for (auto* k : n->skids)
        {
            if (k->release) k->release(k);
            free(k);
        }
        n->skids.clear();
        drop(n->smem);
        s->release = nullptr;
    }
    void hand_over(u32 root, bool array, bool schema)
    { Pause quiet;
        for (auto* n : g_nodes)
            if (n->root == root) { n->array_handed |= array; n->schema_handed |= schema; }
    }
    void check_foreign_memory(u32 extra)
    { Pause quiet;
        for (auto* n : g_nodes)
        {
            if (n->array_alive)
            {
                for (auto& m : n->amem) INTER_CHECK(digest(m.p, m.n) == m.digest, L04 | extra, "foreign-memory-written", "a buffer of " + n->what + " changed");
                for (auto* k : n->akids)
                {
                    if (!k->release) continue;
                    Node* c = static_cast<Node*>(k->private_data);
                    INTER_CHECK(struct_unchanged(*k, c->a0), L04 | extra, "foreign-struct-written", "the ArrowArray of " + c->what + " changed");
                }
            }
            if (n->schema_alive)
            {
                for (auto& m : n->smem) INTER_CHECK(digest(m.p, m.n) == m.digest, L04 | extra, "foreign-memory-written", "a string of the schema of " + n->what + " changed");
                for (auto* k : n->skids)
                {
                    if (!k->release) continue;
                    Node* c = static_cast<Node*>(k->private_data);
                    INTER_CHECK(struct_unchanged(*k, c->s0), L04 | extra, "foreign-struct-written", "the ArrowSchema of " + c->what + " changed");
                }
            }
        }
    }
    void check_all_released(u32 extra)
    { Pause quiet;
        for (auto* n : g_nodes)
        {
            INTER_CHECK(n->array_released == 1, L01 | extra, "not-released", "array of " + n->what + " was released " + nn(n->array_released) + " times");
            INTER_CHECK(n->schema_released == 1, L01 | extra, "not-released", "schema of " + n->what + " was released " + nn(n->schema_released) + " times");
        }
    }
    void release_array(ArrowArray* a)
    {
        if (!a->release) return;
        bool old = g_consumer_release;
        g_consumer_release = true;
        lib([&] { a->release(a); });
        g_consumer_release = old;
        INTER_CHECK(a->release == nullptr, L01 | L02, "release-not-cleared", "release of an array did not reset its release member");
    }
    void release_schema(ArrowSchema* s)
    {
        if (!s->release) return;
        bool old = g_consumer_release;
        g_consumer_release = true;
        lib([&] { s->release(s); });
        g_consumer_release = old;
        INTER_CHECK(s->release == nullptr, L01 | L02, "release-not-cleared", "release of a schema did not reset its release member");
    }

    // --------------------------------------------------------------- produce --
    struct Bytes
    {
        std::vector<u8> b;
        template <class T> void put(T v) { std::size_t n = b.size(); b.resize(n + sizeof(T)); std::memcpy(b.data() + n, &v, sizeof(T)); }
        void put_w(u64 v, u32 w) { for (u32 i = 0; i < w; ++i) b.push_back(u8(v >> (8 * i))); }
    };
    static void bitmap_of(const std::vector<bool>& valid, Rng& g, Bytes& out)
    {
        out.b.assign((valid.size() + 7) / 8, 0);
        for (std::size_t i = 0; i < out.b.size() * 8; ++i)
        {
            bool v = i < valid.size() ? valid[i] : g.chance(1, 2); // padding bits are arbitrary
            if (v) out.b[i / 8] |= u8(1u << (i % 8));
        }
    }
    static void build(const Ty& t, const Vals& vals, Rng& g, ArrowArray* a, ArrowSchema* s, u32 root, const std::string& path);

    static void add_kid(Node* n, const Ty& t, const Vals& vals, Rng& g, u32 root, const std::string& path, bool dictionary)
    {
        auto* ka = static_cast<ArrowArray*>(malloc(sizeof(ArrowArray)));
        auto* ks = static_cast<ArrowSchema*>(malloc(sizeof(ArrowSchema)));
        (void) dictionary;
        build(t, vals, g, ka, ks, root, path);
        n->akids.push_back(ka);
        n->skids.push_back(ks);
    }
    static void build(const Ty& t, const Vals& vals, Rng& g, ArrowArray* a, ArrowSchema* s, u32 root, const std::string& path)
    {
        Node* n = new Node();
        n->id = u32(g_nodes.size());
        n->root = root;
        n->what = "producer tree " + nn(root) + path + " (" + show(t) + ")";
        g_nodes.push_back(n);
        *a = {};
        *s = {};
        const std::size_t L = vals.size();
        const std::size_t off = g.chance(1, 2) ? 0 : g.chance(1, 4) ? 8 + g.below(4) : g.below(6);
        const std::size_t N = off + L;
        // physical elements: some that precede the array
        Vals ph;
        for (std::size_t i = 0; i < off; ++i) ph.push_back(gen_val(t, g, 1, 4));
        ph.insert(ph.end(), vals.begin(), vals.end());

        // which elements are null at this level
        std::vector<bool> valid(N, true);
        bool any_null = false; // in the visible part
        std::vector<std::size_t> key(N, 0);
        Vals pool;
        if (has_bitmap(t.k) && t.k != K::DICT)
            for (std::size_t i = 0; i < N; ++i) valid[i] = !ph[i].null;
        if (t.k == K::DICT)
        {
            u32 junk = g.below(3);
            for (u32 i = 0; i < junk; ++i) pool.push_back(gen_val(*t.kids[0], g, 1, 4));
            bool dedup = g.chance(3, 4);
            bool value_nulls = g.chance(1, 2) && !is_union(t.kids[0]->k) && pool.size() < 60;
            for (std::size_t i = 0; i < N; ++i)
            {
                const Val& v = ph[i];
                Leaf l = resolve(t, v);
                bool unknown = l.t == nullptr;
                if (unknown || (l.null && !value_nulls && !is_union(t.kids[0]->k) && t.kids[0]->k != K::NA)) { valid[i] = false; continue; }
                std::size_t k = pool.size();
                if (dedup) for (std::size_t j = 0; j < pool.size(); ++j) if (same(*t.kids[0], pool[j], v)) { k = j; break; }
                if (k >= 100) for (std::size_t j = 0; j < pool.size(); ++j) if (same(*t.kids[0], pool[j], v)) { k = j; break; }
                if (k == pool.size()) pool.push_back(v);
                key[i] = k;
            }
        }
        for (std::size_t i = off; i < N; ++i) any_null |= !valid[i];

        // validity bitmap
        std::vector<const void*> bufs;
        if (has_bitmap(t.k))
        {
            bool omit = !any_null && g.chance(2, 3);
            if (!omit)
            {
                Bytes bm;
                bitmap_of(valid, g, bm);
                bufs.push_back(keep(n->amem, bm.b.data(), bm.b.size()));
            }
            else
            {
                bufs.push_back(nullptr);
                // without bitmap every physical element is valid
            }
        }
        auto push = [&](const Bytes& b)
        {
            if (b.b.empty() && g.chance(1, 3)) bufs.push_back(nullptr);
            else bufs.push_back(keep(n->amem, b.b.data(), b.b.size()));
        };
        auto garbage_val = [&](const Ty& k) { return gen_val(k, g, 1, 4); };
        switch (t.k)
        {
            case K::NA: break;
            case K::STR: case K::LSTR:
            {
                const u32 w = t.k == K::STR ? 4 : 8;
                Bytes o, d;
                u32 lead = g.chance(1, 3) ? g.below(5) : 0;
                for (u32 i = 0; i < lead; ++i) d.put<u8>(u8('#'));
                if (N == 0 && g.chance(1, 3)) { bufs.push_back(nullptr); push(d); break; } // offsets of an empty array omitted
                o.put_w(d.b.size(), w);
                for (auto& v : ph)
                {
                    std::string x = v.null ? (g.chance(1, 3) ? std::string("junk") : std::string()) : v.s;
                    d.b.insert(d.b.end(), x.begin(), x.end());
                    o.put_w(d.b.size(), w);
                }
                push(o);
                push(d);
                break;
            }
            case K::STRV: case K::BINV:
            {
                u32 nd = 1 + g.below(2);
                std::vector<Bytes> data(nd);
                Bytes views;
                for (auto& v : ph)
                {
                    std::string x = v.null ? std::string(g.below(20), 'z') : v.s;
                    views.put<std::int32_t>(std::int32_t(x.size()));
                    if (x.size() <= 12)
                    {
                        std::string y = x;
                        y.resize(12, '\0');
                        views.b.insert(views.b.end(), y.begin(), y.end());
                    }
                    else
                    {
                        u32 k = g.below(nd);
                        views.b.insert(views.b.end(), x.begin(), x.begin() + 4);
                        views.put<std::int32_t>(std::int32_t(k));
                        views.put<std::int32_t>(std::int32_t(data[k].b.size()));
                        data[k].b.insert(data[k].b.end(), x.begin(), x.end());
                    }
                }
                push(views);
                Bytes sizes;
                for (auto& d : data)
                {
                    bufs.push_back(keep(n->amem, d.b.data(), d.b.size()));
                    sizes.put<std::int64_t>(std::int64_t(d.b.size()));
                }
                bufs.push_back(keep(n->amem, sizes.b.data(), sizes.b.size()));
                break;
            }
            case K::LIST: case K::LLIST:
            {
                Bytes o;
                u32 w = t.k == K::LIST ? 4 : 8;
                Vals kv;
                u32 lead = g.chance(1, 3) ? g.below(4) : 0;
                for (u32 i = 0; i < lead; ++i) kv.push_back(garbage_val(*t.kids[0]));
                bool nothing = N == 0 && g.chance(1, 3);
                if (!nothing) o.put_w(kv.size(), w);
                for (auto& v : ph)
                {
                    if (v.null) { u32 x = g.chance(1, 3) ? g.below(3) : 0; for (u32 i = 0; i < x; ++i) kv.push_back(garbage_val(*t.kids[0])); }
                    else kv.insert(kv.end(), v.kids.begin(), v.kids.end());
                    o.put_w(kv.size(), w);
                }
                u32 tail = g.chance(1, 3) ? g.below(4) : 0;
                for (u32 i = 0; i < tail; ++i) kv.push_back(garbage_val(*t.kids[0]));
                if (nothing) bufs.push_back(nullptr);
                else push(o);
                add_kid(n, *t.kids[0], kv, g, root, path + ".item", false);
                break;
            }
            case K::LV: case K::LLV:
            {
                u32 w = t.k == K::LV ? 4 : 8;
                std::vector<std::size_t> order(N), where(N, 0), size(N, 0);
                for (std::size_t i = 0; i < N; ++i) order[i] = i;
                if (g.chance(1, 2)) for (std::size_t i = N; i > 1; --i) std::swap(order[i - 1], order[g.below(u32(i))]);
                Vals kv;
                for (std::size_t i : order)
                {
                    if (g.chance(1, 6)) kv.push_back(garbage_val(*t.kids[0]));
                    if (ph[i].null) continue;
                    where[i] = kv.size();
                    size[i] = ph[i].kids.size();
                    kv.insert(kv.end(), ph[i].kids.begin(), ph[i].kids.end());
                }
                Bytes o, z;
                for (std::size_t i = 0; i < N; ++i)
                {
                    if (ph[i].null && !kv.empty()) { where[i] = g.below(u32(kv.size())); size[i] = g.below(u32(kv.size() - where[i] + 1)); }
                    else if (size[i] == 0 && g.chance(1, 2)) where[i] = g.below(u32(kv.size() + 1));
                    o.put_w(where[i], w);
                    z.put_w(size[i], w);
                }
                push(o);
                push(z);
                add_kid(n, *t.kids[0], kv, g, root, path + ".item", false);
                break;
            }
            case K::FSL:
            {
                Vals kv;
                for (auto& v : ph)
                    for (u32 i = 0; i < t.width; ++i) kv.push_back(v.null ? garbage_val(*t.kids[0]) : v.kids[i]);
                u32 tail = g.chance(1, 3) ? g.below(4) : 0;
                for (u32 i = 0; i < tail; ++i) kv.push_back(garbage_val(*t.kids[0]));
                add_kid(n, *t.kids[0], kv, g, root, path + ".item", false);
                break;
            }
            case K::STRUCT:
                for (std::size_t c = 0; c < t.kids.size(); ++c)
                {
                    Vals kv;
                    for (auto& v : ph) kv.push_back(v.null ? garbage_val(*t.kids[c]) : v.kids[c]);
                    u32 tail = g.chance(1, 4) ? g.below(4) : 0;
                    for (u32 i = 0; i < tail; ++i) kv.push_back(garbage_val(*t.kids[c]));
                    add_kid(n, *t.kids[c], kv, g, root, path + "." + nn((long long) c), false);
                }
                break;
            case K::DU: case K::SU:
            {
                Bytes ids, o;
                std::vector<Vals> kv(t.kids.size());
                for (auto& v : ph)
                {
                    ids.put<u8>(t.ids[v.alt]);
                    for (std::size_t c = 0; c < t.kids.size(); ++c)
                    {
                        if (t.k == K::SU) kv[c].push_back(c == v.alt ? v.kids[0] : garbage_val(*t.kids[c]));
                        else if (c == v.alt)
                        {
                            if (g.chance(1, 6)) kv[c].push_back(garbage_val(*t.kids[c]));
                            o.put<std::int32_t>(std::int32_t(kv[c].size()));
                            kv[c].push_back(v.kids[0]);
                        }
                    }
                }
                push(ids);
                if (t.k == K::DU) push(o);
                for (std::size_t c = 0; c < t.kids.size(); ++c) add_kid(n, *t.kids[c], kv[c], g, root, path + "." + nn((long long) c), false);
                break;
            }
            case K::DICT:
            {
                Bytes k;
                for (std::size_t i = 0; i < N; ++i) k.put_w(valid[i] ? key[i] : (g.chance(1, 2) ? 0 : 77), width_of(t.aux));
                push(k);
                break; // the dictionary is attached below
            }
            case K::REE:
            {
                Vals rv;
                std::vector<u64> ends;
                for (std::size_t i = 0; i < N; ++i)
                {
                    bool merge = !rv.empty() && same(t, rv.back(), ph[i]) && !g.chance(1, 5);
                    if (merge) ends.back() = i + 1;
                    else { rv.push_back(ph[i]); ends.push_back(i + 1); }
                }
                if (!ends.empty() && g.chance(1, 3)) ends.back() += g.below(4);
                else if (N && g.chance(1, 6)) { rv.push_back(garbage_val(*t.kids[1])); ends.push_back(ends.back() + 1 + g.below(3)); }
                Vals ev;
                for (u64 e : ends) { Val v; v.null = false; v.bits = e; ev.push_back(v); }
                add_kid(n, *t.kids[0], ev, g, root, path + ".ends", false);
                add_kid(n, *t.kids[1], rv, g, root, path + ".values", false);
                break;
            }
            default: // fixed width
            {
                Bytes d;
                u32 w = width_of(t.k);
                for (auto& v : ph) d.put_w(v.null ? g.next() : v.bits, w);
                push(d);
                break;
            }
        }
        i64 nulls = 0;
        for (std::size_t i = off; i < N; ++i) nulls += !valid[i];
        if (t.k == K::NA) nulls = i64(L);
        a->length = i64(L);
        a->offset = i64(off);
        a->null_count = t.k != K::REE && !is_union(t.k) && t.k != K::NA && g.chance(1, 3) ? -1 : nulls;
        a->n_buffers = i64(bufs.size());
        a->buffers = bufs.empty() && g.chance(1, 2) ? nullptr : static_cast<const void**>(keep(n->amem, bufs.data(), bufs.size() * sizeof(void*)));
        a->n_children = i64(n->akids.size());
        s->n_children = a->n_children;
        if (a->n_children)
        {
            a->children = static_cast<ArrowArray**>(keep(n->amem, n->akids.data(), n->akids.size() * sizeof(void*)));
            s->children = static_cast<ArrowSchema**>(keep(n->smem, n->skids.data(), n->skids.size() * sizeof(void*)));
        }
        if (t.k == K::DICT)
        {
            add_kid(n, *t.kids[0], pool, g, root, path + ".dictionary", true);
            a->dictionary = n->akids.back();
            s->dictionary = n->skids.back();
        }
        std::string f = format_of(t);
        s->format = static_cast<const char*>(keep(n->smem, f.c_str(), f.size() + 1));
        if (t.name) s->name = static_cast<const char*>(keep(n->smem, t.name->c_str(), t.name->size() + 1));
        s->flags = t.flags;
        a->release = cb_array;
        s->release = cb_schema;
        a->private_data = n;
        s->private_data = n;
        n->a0 = *a;
        n->s0 = *s;
    }
    u32 produce(const Ty& t, const Vals& vals, Rng& g, ArrowArray* a, ArrowSchema* s)
    { Pause quiet;
        u32 root = ++g_roots;
        build(t, vals, g, a, s, root, "");
        return root;
    }

    // --------------------------------------------------------------- consume --
    static i64 get_int(const void* p, K k, i64 i)
    {
        switch (k)
        {
            case K::I8: return static_cast<const std::int8_t*>(p)[i];
            case K::U8: return static_cast<const std::uint8_t*>(p)[i];
            case K::I16: return static_cast<const std::int16_t*>(p)[i];
            case K::U16: return static_cast<const std::uint16_t*>(p)[i];
            case K::I32: return static_cast<const std::int32_t*>(p)[i];
            case K::U32: return static_cast<const std::uint32_t*>(p)[i];
            case K::I64: return static_cast<const std::int64_t*>(p)[i];
            default: return i64(static_cast<const std::uint64_t*>(p)[i]);
        }
    }
    static bool valid_at(const ArrowArray& a, i64 p)
    {
        const u8* b = static_cast<const u8*>(a.buffers[0]);
        return !b || ((b[p / 8] >> (p % 8)) & 1);
    }
    static i64 child_of(const Ty& t, u8 id)
    {
        for (std::size_t i = 0; i < t.ids.size(); ++i) if (t.ids[i] == id) return i64(i);
        return -1;
    }
    Val read_at(const ArrowArray& a, const Ty& t, i64 index)
    { Pause quiet;
        Val v;
        const i64 p = index + a.offset;
        if (t.k == K::NA) return v;
        if (has_bitmap(t.k) && !valid_at(a, p)) return v;
        v.null = false;
        switch (t.k)
        {
            case K::STR:
            {
                const auto* o = static_cast<const std::int32_t*>(a.buffers[1]);
                const auto* d = static_cast<const char*>(a.buffers[2]);
                for (auto i = o[p]; i < o[p + 1]; ++i) v.s += d[i];
                break;
            }
            case K::LSTR:
            {
                const auto* o = static_cast<const std::int64_t*>(a.buffers[1]);
                const auto* d = static_cast<const char*>(a.buffers[2]);
                for (auto i = o[p]; i < o[p + 1]; ++i) v.s += d[i];
                break;
            }
            case K::STRV: case K::BINV:
            {
                const u8* e = static_cast<const u8*>(a.buffers[1]) + 16 * p;
                std::int32_t n, b, o;
                std::memcpy(&n, e, 4);
                if (n <= 12) { for (i64 i = 0; i < n; ++i) v.s += char(e[4 + i]); break; }
                std::memcpy(&b, e + 8, 4);
                std::memcpy(&o, e + 12, 4);
                const char* d = static_cast<const char*>(a.buffers[2 + b]);
                for (i64 i = 0; i < n; ++i) v.s += d[o + i];
                break;
            }
            case K::LIST: case K::LLIST: case K::LV: case K::LLV:
            {
                K w = t.k == K::LIST || t.k == K::LV ? K::I32 : K::I64;
                i64 b = get_int(a.buffers[1], w, p), n;
                if (t.k == K::LIST || t.k == K::LLIST) n = get_int(a.buffers[1], w, p + 1) - b;
                else n = get_int(a.buffers[2], w, p);
                for (i64 i = 0; i < n; ++i) v.kids.push_back(read_at(*a.children[0], *t.kids[0], b + i));
                break;
            }
            case K::FSL:
                for (u32 i = 0; i < t.width; ++i) v.kids.push_back(read_at(*a.children[0], *t.kids[0], p * i64(t.width) + i));
                break;
            case K::STRUCT:
                for (std::size_t c = 0; c < t.kids.size(); ++c) v.kids.push_back(read_at(*a.children[c], *t.kids[c], p));
                break;
            case K::DU: case K::SU:
            {
                u8 id = static_cast<const u8*>(a.buffers[0])[p];
                v.alt = u32(child_of(t, id));
                i64 q = t.k == K::SU ? p : get_int(a.buffers[1], K::I32, p);
                v.kids.push_back(read_at(*a.children[v.alt], *t.kids[v.alt], q));
                break;
            }
            case K::DICT: return read_at(*a.dictionary, *t.kids[0], get_int(a.buffers[1], t.aux, p));
            case K::REE:
            {
                const ArrowArray& e = *a.children[0];
                i64 r = 0;
                while (get_int(e.buffers[1], t.kids[0]->k, e.offset + r) <= p) ++r;
                return read_at(*a.children[1], *t.kids[1], r);
            }
            default:
                std::memcpy(&v.bits, static_cast<const u8*>(a.buffers[1]) + std::size_t(p) * width_of(t.k), width_of(t.k));
        }
        return v;
    }
    Vals read_all(const ArrowArray& a, const Ty& t)
    { Pause quiet;
        Vals r;
        for (i64 i = 0; i < a.length; ++i) r.push_back(read_at(a, t, i));
        return r;
    }
    void conform(const ArrowArray& a, const ArrowSchema& s, const Ty& t, u32 mask, const std::string& path)
    { Pause quiet;
        #define CONF(c, m) INTER_CHECK(c, mask, "export-conformance", path + " (" + show(t) + "): " + (m))
        CONF(a.release, "array is released");
        CONF(s.release, "schema is released");
        CONF(s.format, "no format");
        CONF(format_of(t) == s.format, std::string("format is ") + s.format);
        CONF(a.length >= 0 && a.offset >= 0, "length " + nn(a.length) + ", offset " + nn(a.offset));
        CONF(bool(s.name) == bool(t.name) || (!t.name && s.name && !*s.name), "name is " + std::string(s.name ? s.name : "missing"));
        if (t.name && s.name) CONF(*t.name == s.name, std::string("name is ") + s.name);
        CONF(s.flags == t.flags, "flags are " + nn(s.flags));
        CONF(s.metadata == nullptr, "unexpected metadata");
        const i64 nk = t.k == K::DICT ? 0 : i64(t.kids.size());
        CONF(a.n_children == nk && s.n_children == nk, nn(a.n_children) + " array children, " + nn(s.n_children) + " schema children");
        CONF((t.k == K::DICT) == (a.dictionary != nullptr) && (t.k == K::DICT) == (s.dictionary != nullptr), "dictionary presence");
        static const int nb[] = {0, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 2, 2, 3, 3, 1, 1, 2, 1, 2, 0};
        if (t.k == K::STRV || t.k == K::BINV) CONF(a.n_buffers >= 3, nn(a.n_buffers) + " buffers");
        else CONF(a.n_buffers == nb[int(t.k)], nn(a.n_buffers) + " buffers");
        CONF(a.n_buffers == 0 || a.buffers, "no buffers");
        CONF(nk == 0 || (a.children && s.children), "no children");
        const i64 L = a.length, N = a.length + a.offset;
        if (has_bitmap(t.k))
        {
            i64 nulls = 0;
            for (i64 i = a.offset; i < N; ++i) nulls += !valid_at(a, i);
            CONF(a.null_count == -1 || a.null_count == nulls, "null_count is " + nn(a.null_count) + " with " + nn(nulls) + " null elements");
        }
        else CONF(a.null_count >= -1 && a.null_count <= L, "null_count is " + nn(a.null_count));
        if (t.k == K::NA) CONF(a.null_count == L || a.null_count == -1, "null_count is " + nn(a.null_count));
        for (i64 i = has_bitmap(t.k); i < a.n_buffers; ++i)
            if (L > 0 && !((t.k == K::STR || t.k == K::LSTR || t.k == K::STRV || t.k == K::BINV) && i >= 2)) CONF(a.buffers[i], "buffer " + nn(i) + " is null");
        for (i64 c = 0; c < nk; ++c)
        {
            CONF(a.children[c] && s.children[c], "child " + nn(c) + " is null");
            conform(*a.children[c], *s.children[c], *t.kids[std::size_t(c)], mask, path + "." + nn(c));
        }
        if (t.k == K::DICT) conform(*a.dictionary, *s.dictionary, *t.kids[0], mask, path + ".dictionary");
        switch (t.k)
        {
            case K::STR: case K::LSTR:
                if (!a.buffers[1]) break;
                for (i64 i = a.offset; i < N; ++i)
                {
                    K w = t.k == K::STR ? K::I32 : K::I64;
                    i64 b = get_int(a.buffers[1], w, i), e = get_int(a.buffers[1], w, i + 1);
                    CONF(b >= 0 && b <= e, "string offsets " + nn(b) + ", " + nn(e));
                    CONF(b == e || a.buffers[2], "no character data");
                }
                break;
            case K::LIST: case K::LLIST:
                if (!a.buffers[1]) break;
                for (i64 i = a.offset; i < N; ++i)
                {
                    K w = t.k == K::LIST ? K::I32 : K::I64;
                    i64 b = get_int(a.buffers[1], w, i), e = get_int(a.buffers[1], w, i + 1);
                    CONF(b >= 0 && b <= e && e <= a.children[0]->length, "list offsets " + nn(b) + ", " + nn(e) + " of " + nn(a.children[0]->length));
                }
                break;
            case K::LV: case K::LLV:
                for (i64 i = a.offset; i < N; ++i)
                {
                    K w = t.k == K::LV ? K::I32 : K::I64;
                    i64 b = get_int(a.buffers[1], w, i), n = get_int(a.buffers[2], w, i);
                    CONF(b >= 0 && n >= 0 && b + n <= a.children[0]->length, "list view " + nn(b) + "+" + nn(n) + " of " + nn(a.children[0]->length));
                }
                break;
            case K::FSL: CONF(N * i64(t.width) <= a.children[0]->length, "child has only " + nn(a.children[0]->length) + " elements"); break;
            case K::STRUCT: case K::SU:
                for (i64 c = 0; c < nk; ++c) CONF(a.children[c]->length >= N, "child " + nn(c) + " has only " + nn(a.children[c]->length) + " elements for " + nn(N));
                [[fallthrough]];
            case K::DU:
                if (t.k == K::STRUCT) break;
                for (i64 i = a.offset; i < N; ++i)
                {
                    i64 c = child_of(t, static_cast<const u8*>(a.buffers[0])[i]);
                    CONF(c >= 0, "type id " + nn(static_cast<const u8*>(a.buffers[0])[i]));
                    if (t.k == K::DU)
                    {
                        i64 o = get_int(a.buffers[1], K::I32, i);
                        CONF(o >= 0 && o < a.children[c]->length, "union offset " + nn(o) + " of " + nn(a.children[c]->length));
                    }
                }
                break;
            case K::DICT:
                for (i64 i = a.offset; i < N; ++i)
                {
                    if (!valid_at(a, i)) continue;
                    i64 k = get_int(a.buffers[1], t.aux, i);
                    CONF(k >= 0 && k < a.dictionary->length, "key " + nn(k) + " of " + nn(a.dictionary->length));
                }
                break;
            case K::REE:
            {
                const ArrowArray& e = *a.children[0];
                CONF(e.length == a.children[1]->length, "run ends and values of different length");
                i64 last = 0;
                for (i64 r = 0; r < e.length; ++r)
                {
                    CONF(valid_at(e, e.offset + r), "null run end");
                    i64 x = get_int(e.buffers[1], t.kids[0]->k, e.offset + r);
                    CONF(x > last, "run ends not increasing");
                    last = x;
                }
                CONF(last >= N, "run ends stop at " + nn(last) + " before " + nn(N));
                break;
            }
            default: break;
        }
        #undef CONF
    }
    void check_export(const ArrowArray& a, const ArrowSchema& s, const Ty& t, const Vals& vals, u32 mask, const std::string& where)
    { Pause quiet;
        conform(a, s, t, mask, where);
        INTER_CHECK(a.length == i64(vals.size()), mask, "export-length", where + ": length " + nn(a.length) + " instead of " + nn((long long) vals.size()));
        for (std::size_t i = 0; i < vals.size(); ++i)
        {
            Val v = read_at(a, t, i64(i));
            INTER_CHECK(same(t, v, vals[i]), mask, "export-value",
                        where + " (" + show(t) + "): a reader of the C data interface finds " + show(t, v) + " at " + nn((long long) i) + " instead of " + show(t, vals[i]));
        }
    }
}
