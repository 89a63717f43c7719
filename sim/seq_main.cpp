#include "worlds.hpp"
int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, [](const std::string& p) -> sim::World* {
        if (p == "M04") return sim::make_bits(false);
        if (p == "F03-bits") return sim::make_bits(true);
        if (p == "M01" || p == "M06-prim" || p == "F03-prim") return sim::make_prim(p);
        if (p == "M02" || p == "M06-str" || p == "F03-str") return sim::make_str(p);
        if (p == "M03") return sim::make_buf(false);
        if (p == "F03-buf") return sim::make_buf(true);
        return nullptr;
    });
}
