// Arrays made by the generic builder from nested standard containers.
#pragma once
#include "typed.hpp"
#include <functional>

namespace sim::inter
{
    // thrown by the range handed to the library
    struct RangeError : std::exception
    {
        const char* what() const noexcept override { return "the range throws"; }
    };
    extern thread_local i64 g_throw_in; // the n-th access to an element of a throwing range throws (0: never)
    extern thread_local u32 g_thrown;
    void throw_tick(); // an access to an element of such a range
    struct Shape
    {
        TyP t;
        std::function<Vals(Rng&, std::size_t)> gen;
        std::function<TypedP(const Vals&, Rng&)> make; // the range may throw (g_throw_in)
    };
    const std::vector<Shape>& shapes();
}
