// Stand-in: arrays of the Python interface are plain xtensor arrays here.
#ifndef STUB_PYTENSOR
#define STUB_PYTENSOR
#include <xtensor/xtensor.hpp>
namespace xt {
template <class T, size_t N>
using pytensor = xt::xtensor<T, N>;
inline void import_numpy() {}
} // namespace xt
#endif
