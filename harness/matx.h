// Element matrices, dense assembly and dense reference solutions for the matrix drivers.
#ifndef MATX_H
#define MATX_H
#include "fe_mesh.h"
#include <Eigen/Dense>
#include <Eigen/Sparse>
namespace fe {
typedef Eigen::MatrixXd EM;
typedef Eigen::VectorXd EV;

inline D3 elemmat_int(mon::Rng& r, const Prob& p)
{
    size_t k = p.nne * p.ndim;
    D3 K = xt::empty<double>({p.nelem, k, k});
    fill_mix(r, K, 50, p.unit);
    if (r.coin(0.2))
        for (auto& v : K)
            if (r.coin()) v = 0.0;
    return K;
}
// symmetric positive definite; scale differs from call to call so that stale data is visible
inline D3 elemmat_spd(mon::Rng& r, const Prob& p, double nonsym = 0.0)
{
    size_t k = p.nne * p.ndim;
    D3 K = xt::empty<double>({p.nelem, k, k});
    double s = r.uni(0.3, 3.0);
    for (size_t e = 0; e < p.nelem; ++e) {
        EM R(k, k);
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j) R(i, j) = r.uni(-1, 1);
        EM A = R.transpose() * R / (double)k + EM::Identity(k, k) * r.uni(0.5, 1.5);
        if (nonsym > 0) A += nonsym * (R - R.transpose());
        for (size_t i = 0; i < k; ++i)
            for (size_t j = 0; j < k; ++j) K(e, i, j) = s * A(i, j);
    }
    return K;
}
inline D3 elemmat_diag(mon::Rng& r, const Prob& p, bool integer)
{
    size_t k = p.nne * p.ndim;
    D3 K = xt::zeros<double>({p.nelem, k, k});
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t i = 0; i < k; ++i) K(e, i, i) = integer ? p.unit * (double)r.range(1, 1000) : r.uni(0.2, 3);
    return K;
}
inline EM assemble_dense(const Prob& p, const D3& K)
{
    EM A = EM::Zero(p.ndof, p.ndof);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t m = 0; m < p.nne; ++m)
            for (size_t i = 0; i < p.ndim; ++i)
                for (size_t n = 0; n < p.nne; ++n)
                    for (size_t j = 0; j < p.ndim; ++j)
                        A(p.d[p.c[e][m]][i], p.d[p.c[e][n]][j]) += K(e, m * p.ndim + i, n * p.ndim + j);
    return A;
}
inline EV ev(const D1& a)
{
    EV r(a.size());
    for (size_t i = 0; i < a.size(); ++i) r((long)i) = a(i);
    return r;
}
inline vd sv(const EV& a)
{
    return vd(a.data(), a.data() + a.size());
}
inline vd dense_flat(const EM& A)
{
    vd r;
    for (long i = 0; i < A.rows(); ++i)
        for (long j = 0; j < A.cols(); ++j) r.push_back(A(i, j));
    return r;
}
inline vd dense_flat(const Eigen::SparseMatrix<double>& S)
{
    return dense_flat(EM(S));
}
// a nodal vector which holds the same value for all node-components that share a DOF
inline D2 as_node(const Prob& p, const D1& dv)
{
    D2 r = xt::empty<double>({p.nnode, p.ndim});
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) r(m, i) = dv(p.d[m][i]);
    return r;
}
inline vd as_node(const Prob& p, const vd& dv)
{
    vd r;
    for (auto& m : p.d)
        for (auto d : m) r.push_back(dv[d]);
    return r;
}
// small enough for dense algebra; every DOF is used by some element if `used`
inline Prob matrix_problem(mon::Rng& r, bool used = false, size_t maxdof = 90)
{
    for (int it = 0; it < 100; ++it) {
        Prob p = r.coin(0.5) ? random_topology(r, 8) : random_mesh(r, -1, true, 3);
        if (p.ndof > maxdof) continue;
        if (used) {
            std::vector<bool> in(p.ndof, false);
            for (auto& e : p.c)
                for (auto m : e)
                    for (auto d : p.d[m]) in[d] = true;
            if (std::count(in.begin(), in.end(), false)) continue;
        }
        return p;
    }
    return random_mesh(r, 0, false, 2);
}
inline vu random_rows(mon::Rng& r, size_t ndof)
{
    return r.subset(ndof, r.range(1, std::min<size_t>(ndof, 6)));
}
} // namespace fe
#endif
