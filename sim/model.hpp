// Types and logical values of arrays: the reference model of the interoperability world.
#pragma once
#include "common.hpp"
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace sim::inter
{
    enum class K : u8 { NA, I8, U8, I16, U16, I32, U32, I64, U64, F16, F32, F64, STR, LSTR, LIST, LLIST, LV, LLV, FSL, STRUCT, DU, SU, DICT, REE, STRV, BINV, COUNT };
    struct Ty;
    using TyP = std::shared_ptr<const Ty>;
    struct Ty
    {
        K k = K::NA;
        std::vector<TyP> kids; // list: items; struct, union: children; DICT: values; REE: run ends, values
        u32 width = 0;         // FSL
        K aux = K::I32;        // DICT: key type
        std::vector<u8> ids;   // union: type id of each child
        std::optional<std::string> name;
        i64 flags = 0;
    };
    // The logical value of one element. A union element is the value of the selected child, a
    // dictionary or run-end encoded element is the decoded value.
    struct Val
    {
        bool null = true;
        u64 bits = 0;
        std::string s;
        std::vector<Val> kids;
        u32 alt = 0;
    };
    using Vals = std::vector<Val>;

    inline bool is_int(K k) { return k >= K::I8 && k <= K::U64; }
    inline bool is_flat(K k) { return k <= K::LSTR || k == K::STRV || k == K::BINV; }
    inline bool is_list(K k) { return k >= K::LIST && k <= K::FSL; }
    inline bool is_union(K k) { return k == K::DU || k == K::SU; }
    inline bool has_bitmap(K k) { return k != K::NA && !is_union(k) && k != K::REE; }
    u32 width_of(K k); // bytes of a primitive
    std::string format_of(const Ty& t);
    std::string show(const Ty& t);
    std::string show(const Ty& t, const Val& v);
    u64 hash_val(const Ty& t, const Val& v);

    // follows unions, dictionaries and run-end encoding down to the value that is read;
    // t becomes null if the type of a null element is not determined
    struct Leaf { const Ty* t; const Val* v; bool null; };
    Leaf resolve(const Ty& t, const Val& v);
    bool same(const Ty& t, const Val& a, const Val& b);                         // same type
    bool elements_equal(const Ty& ta, const Val& a, const Ty& tb, const Val& b); // what == of the library means
    bool arrays_equal(const Ty& ta, const Vals& a, const Ty& tb, const Vals& b);
    u32 height(const Ty& t);

    struct GenOpts { u32 max_depth = 2; u64 kinds = ~u64(0); bool foreign = false; bool names = false; bool many = false; /* more elements than 8-bit keys can tell apart */ };
    K key_type(Rng& g, bool many);
    TyP gen_type(Rng& g, const GenOpts& o, u32 depth = 0);
    TyP flat_type(K k);
    TyP with_name(const TyP& t, std::optional<std::string> name, i64 flags);
    Val gen_val(const Ty& t, Rng& g, u32 null_num, u32 null_den);
    Vals gen_vals(const Ty& t, std::size_t n, Rng& g);

    // ---- verdicts ---------------------------------------------------------
    enum P : u32 { L01 = 1, L02 = 2, L03 = 4, L04 = 8, F01 = 16, F02 = 32, S01 = 64, S02 = 128, S03 = 256, T02 = 512, M05 = 1024, ANY = ~0u };
    void set_interest(u32 mask);
    // Reports a violation of the properties in `mask`. If the profile looks at none of them the run ends.
    [[noreturn]] void viol(u32 mask, const std::string& kind, const std::string& msg);
    #define INTER_CHECK(cond, mask, kind, msg) do { if (!(cond)) ::sim::inter::viol((mask), (kind), (msg)); } while (0)
    inline std::string nn(long long v) { return std::to_string(v); }
}
