#define MON_NO_MAIN
#include "c35_common.h"
std::vector<std::pair<std::string, uint64_t>> tu2(uint64_t seed)
{
    return use_everything(seed);
}
