// Stand-in for xtensor-python: `pytensor` holds the strides of the NumPy array that it wraps, whatever
// they are (its layout is dynamic by default). Here the memory is that of xtensor.
#ifndef LAYOUT_STUB_PYTENSOR
#define LAYOUT_STUB_PYTENSOR
#include <xtensor/xtensor.hpp>
namespace xt {
template <class T, size_t N>
using pytensor = xt::xtensor<T, N, xt::layout_type::dynamic>;
} // namespace xt
#endif
