// C17: gradients of nodal fields at the integration points: exact for affine fields, any element
// shape, any integration rule; the transposed and symmetric variants agree.
#include "mon.h"
#include "quadx.h"
using namespace fe;

void run_case(mon::Rng& r)
{
    QC c = random_quad(r);
    mon::nontrivial(c.h);
    with_quad(c, [&](auto& quad) {
        typedef std::decay_t<decltype(quad)> T;
        std::string k = kindname(c.kind);
        // --- affine field: u_j = b_j + sum_i A_ij x_i
        vvd A(c.ndim, vd(c.ndim));
        vd b(c.ndim);
        for (auto& i : A)
            for (auto& j : i) j = r.uni(-1, 1);
        for (auto& i : b) i = r.uni(-1, 1) * c.size;
        if (c.kind == AXI) b[1] = 0; // u_r = c r + d z + b: keep general through the reference below
        D3 u = xt::empty<double>({c.nelem, c.nne, c.ndim});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t j = 0; j < c.ndim; ++j) {
                    u(e, m, j) = b[j];
                    for (size_t i = 0; i < c.ndim; ++i) u(e, m, j) += A[i][j] * c.x[e][m][i];
                }
        double us = maxabs(u) + 1e-300;
        D4 expect = xt::zeros<double>({c.nelem, c.nip, c.tdim, c.tdim});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q) {
                if (c.kind != AXI) {
                    for (size_t i = 0; i < c.ndim; ++i)
                        for (size_t j = 0; j < c.ndim; ++j) expect(e, q, i, j) = A[i][j];
                }
                else {
                    vd p = c.pos(e, q);
                    double ur = b[1] + A[0][1] * p[0] + A[1][1] * p[1];
                    expect(e, q, 0, 0) = A[1][1];
                    expect(e, q, 2, 2) = A[0][0];
                    expect(e, q, 0, 2) = A[1][0];
                    expect(e, q, 2, 0) = A[0][1];
                    expect(e, q, 1, 1) = ur / p[1];
                }
            }
        D4 exT = expect, exS = expect;
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q)
                for (size_t i = 0; i < c.tdim; ++i)
                    for (size_t j = 0; j < c.tdim; ++j) {
                        exT(e, q, i, j) = expect(e, q, j, i);
                        exS(e, q, i, j) = 0.5 * (expect(e, q, i, j) + expect(e, q, j, i));
                    }
        double tol = gtol(c) * c.gs * us;
        mon::close_seq(quad.GradN_vector(u), expect, tol, "affine.grad." + k);
        mon::close_seq(quad.GradN_vector_T(u), exT, tol, "affine.gradT." + k);
        mon::close_seq(quad.SymGradN_vector(u), exS, tol, "affine.sym." + k);
        // --- general field against the reference operator
        D3 v = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, v);
        double tv = gtol(c) * c.gs;
        D4 g = quad.GradN_vector(v);
        mon::ok(g.shape(0) == c.nelem && g.shape(1) == c.nip && g.shape(2) == c.tdim && g.shape(3) == c.tdim, "shape." + k);
        mon::close_seq(g, ref_grad(c, v, 0), tv, "field.grad." + k);
        mon::close_seq(quad.GradN_vector_T(v), ref_grad(c, v, 1), tv, "field.gradT." + k);
        mon::close_seq(quad.SymGradN_vector(v), ref_grad(c, v, 2), tv, "field.sym." + k);
        // --- in place, on a buffer with old content
        D4 o = xt::empty<double>({c.nelem, c.nip, c.tdim, c.tdim});
        auto inplace = [&](int mode, const char* n) {
            fill(r, o, -1e6, 1e6);
            if (mode == 0) quad.gradN_vector(v, o);
            if (mode == 1) quad.gradN_vector_T(v, o);
            if (mode == 2) quad.symGradN_vector(v, o);
            mon::close_seq(o, ref_grad(c, v, mode), tv, std::string("inplace.") + n + "." + k);
        };
        inplace(0, "grad");
        inplace(1, "gradT");
        inplace(2, "sym");
        // --- a container of dynamic rank as input
        if (r.coin(0.3)) {
            xt::xarray<double> va = v;
            mon::close_seq(quad.GradN_vector(va), ref_grad(c, v, 0), tv, "field.grad_xarray." + k);
            mon::close_seq(quad.SymGradN_vector(va), ref_grad(c, v, 2), tv, "field.sym_xarray." + k);
        }
        // --- shape-function gradients themselves
        if constexpr (!is_axi<T>) {
            auto& dN = quad.GradN();
            mon::ok(dN.shape(0) == c.nelem && dN.shape(1) == c.nip && dN.shape(2) == c.nne && dN.shape(3) == c.ndim, "gradN.shape." + k);
            vd want;
            for (auto& e : c.dN)
                for (auto& q : e)
                    for (auto& m : q)
                        for (auto s : m) want.push_back(s);
            mon::close_seq(dN, want, tv, "gradN." + k);
            // partition of unity
            bool ok = true;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q)
                    for (size_t i = 0; i < c.ndim; ++i) {
                        double s = 0;
                        for (size_t m = 0; m < c.nne; ++m) s += dN(e, q, m, i);
                        ok &= std::abs(s) <= tv;
                    }
            mon::ok(ok, "gradN.partition_of_unity." + k);
        }
        else {
            auto& B = quad.B();
            bool ok = B.shape(0) == c.nelem && B.shape(1) == c.nip && B.shape(2) == c.nne && B.shape(3) == 3 && B.shape(4) == 3 && B.shape(5) == 3;
            mon::ok(ok, "B.shape." + k);
            static const int comp[3] = {1, -1, 0};
            double worst = 0;
            for (size_t e = 0; ok && e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q)
                    for (size_t m = 0; m < c.nne; ++m)
                        for (size_t i = 0; i < 3; ++i)
                            for (size_t j = 0; j < 3; ++j)
                                for (size_t l = 0; l < 3; ++l) {
                                    double want = comp[l] < 0 ? 0.0 : c.B(e, q, m, comp[l], i, j);
                                    worst = std::max(worst, std::abs(B(e, q, m, i, j, l) - want));
                                }
            mon::close(worst, 0.0, tv, "B.value." + k);
        }
        mon::sample(c.what + fmt(" |grad| scale %.3g", c.gs));
    });
}
