// Ingredients of whole boundary-value problems, for the drivers of C30.
#ifndef PROBLEM_H
#define PROBLEM_H
#include "matx.h"
#include "mon.h"
#include "quadx.h"
#include "tyings.h"
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
#include <GooseFEM/VectorPartitionedTyings.h>

namespace fe {
// elastic tangent with minor and major symmetries, positive definite (integer-free: random)
inline std::vector<double> random_tangent(mon::Rng& r, size_t t, double cs, bool isotropic)
{
    std::vector<double> C(t * t * t * t, 0.0);
    double K = r.uni(0.3, 1) * cs, G = r.uni(0.3, 1) * cs;
    vvd S(t, vd(t));
    for (size_t i = 0; i < t; ++i)
        for (size_t j = 0; j <= i; ++j) S[i][j] = S[j][i] = r.uni(-1, 1);
    double a = isotropic || r.coin() ? 0.0 : r.uni(0, 1) * cs;
    for (size_t i = 0; i < t; ++i)
        for (size_t j = 0; j < t; ++j)
            for (size_t k = 0; k < t; ++k)
                for (size_t l = 0; l < t; ++l)
                    C[((i * t + j) * t + k) * t + l] =
                        K * (i == j) * (k == l) + G * ((i == k) * (j == l) + (i == l) * (j == k)) + a * S[i][j] * S[k][l];
    return C;
}
template <class Q>
inline D6 tangent(mon::Rng& r, Q& quad, const QC& c, bool homogeneous, double cs)
{
    size_t t = c.tdim;
    D6 C = quad.template allocate_qtensor<4>(0.0);
    // (a uniform strain is in equilibrium in an axisymmetric body only if the hoop and radial stress are equal)
    bool iso = homogeneous && c.kind == AXI;
    auto one = random_tangent(r, t, cs, iso);
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q) {
            if (!homogeneous) one = random_tangent(r, t, cs, iso);
            for (size_t i = 0; i < t; ++i)
                for (size_t j = 0; j < t; ++j)
                    for (size_t k = 0; k < t; ++k)
                        for (size_t l = 0; l < t; ++l) C(e, q, i, j, k, l) = one[((i * t + j) * t + k) * t + l];
        }
    return C;
}
inline D4 stress(const QC& c, const D6& C, const D4& eps)
{
    size_t t = c.tdim;
    D4 s = xt::zeros<double>({c.nelem, c.nip, t, t});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t i = 0; i < t; ++i)
                for (size_t j = 0; j < t; ++j)
                    for (size_t k = 0; k < t; ++k)
                        for (size_t l = 0; l < t; ++l) s(e, q, i, j) += C(e, q, i, j, k, l) * eps(e, q, k, l);
    return s;
}
// fill QC from a discretisation
inline void describe(QC& c, const Prob& p, Kind kind)
{
    c.kind = kind;
    c.ndim = p.ndim;
    c.nne = p.nne;
    c.tdim = kind == QUAD ? 2 : 3;
    c.meshed = true;
    c.p = p;
    c.nelem = p.nelem;
    c.x.assign(c.nelem, vvd(c.nne, vd(c.ndim)));
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t m = 0; m < c.nne; ++m)
            for (size_t i = 0; i < c.ndim; ++i) c.x[e][m][i] = p.coor(p.c[e][m], i);
}
// rules that integrate the stiffness without spurious modes
inline void full_rule(mon::Rng& r, QC& c)
{
    gauss(c.ndim, c.xi, c.w);
    c.nip = c.w.size();
    c.def_rule = r.coin();
    c.rule = c.def_rule ? "default" : "Gauss";
}
inline vvd affine(mon::Rng& r, Kind kind, size_t nd)
{
    vvd F(nd, vd(nd + 1));
    for (auto& i : F)
        for (auto& j : i) j = r.uni(-0.5, 0.5);
    if (kind == AXI) F[0][1] = F[1][0] = F[1][2] = 0.0; // u_z = a z + b, u_r = c r
    return F;
}
inline double aff(const vvd& F, const D2& x, size_t m, size_t i)
{
    size_t nd = F.size();
    double s = F[i][nd];
    for (size_t j = 0; j < nd; ++j) s += F[i][j] * x(m, j);
    return s;
}
template <class Q>
inline D2 internal_force(const GooseFEM::Vector& vec, Q& quad, const QC& c, const D6& C, const D2& u)
{
    D4 eps = quad.SymGradN_vector(vec.AsElement(u));
    return vec.AssembleNode(quad.Int_gradN_dot_tensor2_dV(stress(c, C, eps)));
}

inline bool t_interior(const std::vector<bool>& bnd)
{
    return std::count(bnd.begin(), bnd.end(), false) > 0;
}
} // namespace fe
#endif
