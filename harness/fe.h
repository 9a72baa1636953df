// Random finite-element discretisations (connectivity, DOF-numbers, partitions) and random fields,
// with plain std::vector copies of everything for the oracles.
#ifndef FE_H
#define FE_H
#include "ref.h"
#include <xtensor/xarray.hpp>
#include <xtensor/xtensor.hpp>
namespace fe {
using namespace ref;
#ifdef FE_DYNAMIC_LAYOUT // (c37_layout.cpp)
template <class T, size_t N>
using Tensor = xt::xtensor<T, N, xt::layout_type::dynamic>;
template <class T, size_t N>
Tensor<T, N> relay(const Tensor<T, N>& a); // the same values, stored differently
template <class A>
void into_begin(const A& a);
template <class A>
void into_end(const A& a, const std::string& name);
#else
template <class T, size_t N>
using Tensor = xt::xtensor<T, N>;
template <class A>
inline const A& relay(const A& a)
{
    return a;
}
template <class A>
inline void into_begin(const A&)
{
}
template <class A>
inline void into_end(const A&, const std::string&)
{
}
#endif
typedef Tensor<size_t, 1> U1;
typedef Tensor<size_t, 2> U2;
typedef Tensor<double, 1> D1;
typedef Tensor<double, 2> D2;
typedef Tensor<double, 3> D3;

struct Prob {
    std::string what;
    size_t nelem = 0, nne = 0, nnode = 0, ndim = 0, ndof = 0;
    U2 conn, dofs;
    D2 coor; // empty for a purely topological problem
    vvu c, d;
    bool shared = false; // some DOF is shared by several node-components
    bool orphan = false; // some node is in no element
    uint64_t h = 0;
    double unit = 1.0; // scale of exact data: now and then tiny, so that nothing may be compared to an absolute threshold
    void finish()
    {
        c = umat(conn);
        d = umat(dofs);
        nelem = c.size();
        nne = c.empty() ? 0 : c[0].size();
        nnode = d.size();
        ndim = d[0].size();
        ndof = 0;
        std::set<size_t> seen;
        for (auto& i : d)
            for (auto j : i) {
                ndof = std::max(ndof, j + 1);
                if (!seen.insert(j).second) shared = true;
            }
        std::vector<bool> in(nnode, false);
        for (auto& e : c)
            for (auto n : e) in[n] = true;
        for (auto i : in)
            if (!i) orphan = true;
        h = 1469598103934665603ull;
        for (auto& e : c)
            for (auto n : e) h = mon::mix(h, n);
        for (auto& i : d)
            for (auto j : i) h = mon::mix(h, j);
        unit = mon::mix(h, 77) % 10 < 3 ? std::ldexp(1.0, -40) : 1.0;
    }
};

inline U2 to_u2(const vvu& a)
{
    U2 r = xt::empty<size_t>({a.size(), a.empty() ? size_t(0) : a[0].size()});
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a[i].size(); ++j) r(i, j) = a[i][j];
    return r;
}
inline U1 to_u1(const vu& a)
{
    U1 r = xt::empty<size_t>({a.size()});
    for (size_t i = 0; i < a.size(); ++i) r(i) = a[i];
    return r;
}
inline D1 to_d1(const vd& a)
{
    D1 r = xt::empty<double>({a.size()});
    for (size_t i = 0; i < a.size(); ++i) r(i) = a[i];
    return r;
}

// random field; magnitudes vary so that a mix-up of entries is visible
template <class T>
inline void fill(mon::Rng& r, T& a, double lo = -1.0, double hi = 1.0)
{
    for (auto& v : a) v = r.uni(lo, hi);
}
// integer valued: sums are exact in every order
template <class T>
inline void fill_int(mon::Rng& r, T& a, int m = 1000, double unit = 1.0)
{
    for (auto& v : a) v = unit * static_cast<double>(static_cast<int>(r.range(0, 2 * m)) - m);
}
// large and tiny values in one array (sums of products with numbers of 10 bits remain exact)
template <class T>
inline void fill_mix(mon::Rng& r, T& a, int m, double unit)
{
    fill_int(r, a, m, unit);
    if (r.coin())
        for (auto& v : a) v = r.coin(0.3) ? std::ldexp(v, -20) : v;
}
template <class T>
inline void poison(T& a)
{
    for (auto& v : a) v = std::numeric_limits<double>::quiet_NaN();
}

// DOF-numbers: standard, periodic-like (tied), random permutation
inline vvu random_dofs(mon::Rng& r, size_t nnode, size_t ndim)
{
    size_t n = nnode * ndim;
    vu flat(n);
    int kind = (int)r.range(0, 3);
    if (kind == 0) {
        for (size_t i = 0; i < n; ++i) flat[i] = i;
    }
    else if (kind == 1) {
        auto p = r.perm(n);
        for (size_t i = 0; i < n; ++i) flat[i] = p[i];
    }
    else {
        // tie random node-components (also across dimensions for kind 3); renumber to 0 ... m - 1
        for (size_t i = 0; i < n; ++i) flat[i] = i;
        size_t nt = r.range(1, std::max<size_t>(1, n / 3));
        for (size_t t = 0; t < nt; ++t) {
            size_t a = r.range(0, nnode - 1), b = r.range(0, nnode - 1);
            if (kind == 2) {
                for (size_t i = 0; i < ndim; ++i) flat[a * ndim + i] = flat[b * ndim + i];
            }
            else {
                flat[a * ndim + r.range(0, ndim - 1)] = flat[b * ndim + r.range(0, ndim - 1)];
            }
        }
        std::set<size_t> s(flat.begin(), flat.end());
        vu u(s.begin(), s.end());
        auto p = r.coin() ? r.perm(u.size()) : vu();
        std::map<size_t, size_t> m;
        for (size_t i = 0; i < u.size(); ++i) m[u[i]] = p.empty() ? i : p[i];
        for (auto& i : flat) i = m[i];
    }
    vvu ret(nnode, vu(ndim));
    for (size_t i = 0; i < n; ++i) ret[i / ndim][i % ndim] = flat[i];
    return ret;
}

// purely topological: every element has distinct nodes
inline Prob random_topology(mon::Rng& r, size_t maxelem = 12)
{
    Prob p;
    size_t nne = r.pick(std::vector<size_t>{1, 2, 3, 4, 4, 4, 5, 8, 8});
    size_t nnode = r.range(nne, nne + 14);
    size_t ndim = r.range(1, 3);
    size_t nelem = r.range(1, maxelem);
    vvu c(nelem);
    for (auto& e : c) e = r.subset(nnode, nne);
    p.conn = to_u2(c);
    p.dofs = to_u2(random_dofs(r, nnode, ndim));
    p.what = fmt("topology nelem=%zu nne=%zu nnode=%zu ndim=%zu", nelem, nne, nnode, ndim);
    p.finish();
    return p;
}

// a partition of the DOFs; iip in arbitrary order unless `sorted`
inline vu random_iip(mon::Rng& r, size_t ndof, bool sorted = false, size_t min_u = 0)
{
    size_t n;
    switch (r.range(0, 4)) {
    case 0: n = 0; break;
    case 1: n = ndof; break;
    default: n = r.range(0, ndof);
    }
    if (n + min_u > ndof) n = ndof - std::min(ndof, min_u);
    auto p = r.subset(ndof, n);
    if (sorted || r.coin(0.4)) std::sort(p.begin(), p.end());
    return p;
}
} // namespace fe
#endif
