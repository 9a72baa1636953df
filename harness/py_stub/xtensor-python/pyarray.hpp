#ifndef STUB_PYARRAY
#define STUB_PYARRAY
#include "pytensor.hpp"
#include <xtensor/xarray.hpp>
namespace xt {
template <class T>
using pyarray = xt::xarray<T>;
} // namespace xt
#endif
