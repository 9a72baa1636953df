// C35: a program in which several translation units use the library links, and they agree.
#include "c35_common.h"
std::vector<std::pair<std::string, uint64_t>> tu2(uint64_t seed);
void run_case(mon::Rng& r)
{
    uint64_t seed = r.next();
    auto a = use_everything(seed), b = tu2(seed);
    mon::ok(a.size() == b.size(), "units.size");
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) mon::ok(a[i] == b[i], "units." + a[i].first);
    uint64_t h = 3;
    for (auto& i : a) h = mon::mix(h, i.second);
    mon::nontrivial(h);
    mon::cover("units_compared", 2);
    mon::sample("two translation units");
}
