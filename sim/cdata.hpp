// An independent implementation of the Arrow C data interface: a foreign producer with counted
// release callbacks, and a consumer that reads and validates structures by the specification alone.
#pragma once
#include "model.hpp"
#include <sparrow/c_interface.hpp>

namespace sim::inter
{
    // ---- producer ---------------------------------------------------------
    struct Mem { void* p; std::size_t n; u64 digest; };
    struct Node // one array/schema pair of a produced tree
    {
        u32 id, root;
        std::string what;
        int array_released = 0, schema_released = 0;
        bool array_alive = true, schema_alive = true;
        bool array_handed = false, schema_handed = false; // may be released by the library
        std::vector<Mem> amem, smem;
        std::vector<ArrowArray*> akids; // structs owned by this node
        std::vector<ArrowSchema*> skids;
        ArrowArray a0; // what the structs contained when they were produced
        ArrowSchema s0;
    };
    extern thread_local std::vector<Node*> g_nodes;
    extern thread_local bool g_consumer_release; // the harness itself is releasing
    // Physical representation of vals with everything the specification leaves open drawn from g.
    u32 produce(const Ty& t, const Vals& vals, Rng& g, ArrowArray* a, ArrowSchema* s); // returns the root id
    void hand_over(u32 root, bool array, bool schema);
    void check_foreign_memory(u32 extra_mask); // nothing of the producer's memory may change
    bool struct_unchanged(const ArrowArray& now, const ArrowArray& then);
    void check_all_released(u32 extra_mask);
    void release_array(ArrowArray* a);   // as a consumer
    void release_schema(ArrowSchema* s); // as a consumer

    // ---- consumer ---------------------------------------------------------
    // Validates the pair against the specification and the type, reads all elements.
    void conform(const ArrowArray& a, const ArrowSchema& s, const Ty& t, u32 mask, const std::string& path);
    Val read_at(const ArrowArray& a, const Ty& t, i64 index); // index counted from the offset
    Vals read_all(const ArrowArray& a, const Ty& t);
    void check_export(const ArrowArray& a, const ArrowSchema& s, const Ty& t, const Vals& vals, u32 mask, const std::string& where);
}
