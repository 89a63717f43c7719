#pragma once
#include "core.hpp"
namespace sim
{
    World* make_bits(bool faults);
    World* make_prim(const std::string& profile);
    World* make_str(const std::string& profile);
    World* make_buf(bool faults);
    World* make_proxy(bool faults);
    World* make_inter(const std::string& profile);
}
