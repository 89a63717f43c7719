#include "worlds.hpp"
int main(int argc, char** argv)
{
    return sim::sim_main(argc, argv, [](const std::string& p) -> sim::World* { return p == "M05" ? sim::make_proxy(true) : sim::make_inter(p); });
}
