// C21: mass matrix and distributed load: volume integrals weighted with the shape functions.
#include "mon.h"
#include "quadx.h"
using namespace fe;

void run_case(mon::Rng& r)
{
    QC c = random_quad(r);
    mon::nontrivial(c.h);
    with_quad(c, [&](auto& quad) {
        std::string k = kindname(c.kind);
        size_t n = c.nne * c.ndim;
        double rs = r.logu(0.01, 100.0);
        D2 rho = xt::empty<double>({c.nelem, c.nip});
        fill(r, rho, 0.1 * rs, rs);
        double tol = gtol(c) * c.vs * rs * (double)c.nip;
        D3 want = ref_mass(c, rho);
        D3 M = quad.Int_N_scalar_NT_dV(rho);
        mon::ok(M.shape(0) == c.nelem && M.shape(1) == n && M.shape(2) == n, "mass.shape." + k);
        mon::close_seq(M, want, tol, "mass." + k);
        D3 o = xt::empty<double>({c.nelem, n, n});
        fill(r, o, -1e6, 1e6);
        quad.int_N_scalar_NT_dV(rho, o);
        mon::close_seq(o, want, tol, "mass.inplace." + k);
        auto& dV = quad.dV();
        // total mass per direction, directions do not couple, symmetric, positive
        for (size_t e = 0; e < c.nelem; ++e) {
            double m = 0;
            for (size_t q = 0; q < c.nip; ++q) m += rho(e, q) * dV(e, q);
            bool sym = true, pos = true;
            for (size_t i = 0; i < c.ndim; ++i)
                for (size_t j = 0; j < c.ndim; ++j) {
                    double s = 0;
                    for (size_t a = 0; a < c.nne; ++a)
                        for (size_t b = 0; b < c.nne; ++b) s += M(e, a * c.ndim + i, b * c.ndim + j);
                    mon::close(s, i == j ? m : 0.0, tol * (double)(c.nne * c.nne), "mass.total." + k);
                }
            for (size_t a = 0; a < n; ++a) {
                pos &= M(e, a, a) >= 0;
                for (size_t b = 0; b < n; ++b) sym &= std::abs(M(e, a, b) - M(e, b, a)) <= tol;
            }
            mon::ok(sym, "mass.symmetric." + k);
            mon::ok(pos, "mass.diagonal_positive." + k);
        }
        if (c.rule == "Nodal") {
            mon::cover("lumped");
            double off = 0;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t a = 0; a < n; ++a)
                    for (size_t b = 0; b < n; ++b)
                        if (a != b) off = std::max(off, std::abs(M(e, a, b)));
            mon::close(off, 0.0, 1e-14 * c.vs * rs, "mass.nodal_diagonal." + k);
        }
        // --- distributed load, any number of components
        for (size_t nc : {size_t(c.tdim), r.range(1, 6)}) {
            D3 f = xt::empty<double>({c.nelem, c.nip, nc});
            fill(r, f, -rs, rs);
            D3 wf = ref_intN(c, f);
            D3 g = quad.Int_N_vector_dV(f);
            mon::ok(g.shape(0) == c.nelem && g.shape(1) == c.nne && g.shape(2) == nc, "load.shape." + k);
            mon::close_seq(g, wf, tol, "load." + k, fmt("n=%zu", nc));
            D3 og = xt::empty<double>({c.nelem, c.nne, nc});
            fill(r, og, -1e6, 1e6);
            quad.int_N_vector_dV(f, og);
            mon::close_seq(og, wf, tol, "load.inplace." + k, fmt("n=%zu", nc));
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t i = 0; i < nc; ++i) {
                    double a = 0, b = 0;
                    for (size_t m = 0; m < c.nne; ++m) a += g(e, m, i);
                    for (size_t q = 0; q < c.nip; ++q) b += f(e, q, i) * dV(e, q);
                    mon::close(a, b, tol * (double)c.nne, "load.total." + k);
                }
            // work: g . u = sum f . u(q) dV
            D3 u = xt::empty<double>({c.nelem, c.nne, nc});
            fill(r, u);
            D3 uq = quad.InterpQuad_vector(u);
            for (size_t e = 0; e < c.nelem; ++e) {
                double a = 0, b = 0;
                for (size_t i = 0; i < nc; ++i) {
                    for (size_t m = 0; m < c.nne; ++m) a += g(e, m, i) * u(e, m, i);
                    for (size_t q = 0; q < c.nip; ++q) b += f(e, q, i) * uq(e, q, i) * dV(e, q);
                }
                mon::close(a, b, tol * (double)(c.nne * nc), "load.work." + k);
            }
        }
        // --- M u is the load rho u
        D3 u = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, u);
        D3 uq = quad.InterpQuad_vector(u);
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q)
                for (size_t i = 0; i < c.ndim; ++i) uq(e, q, i) *= rho(e, q);
        D3 g = quad.Int_N_vector_dV(uq), Mu = xt::zeros<double>({c.nelem, c.nne, c.ndim});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < n; ++b) Mu(e, a / c.ndim, a % c.ndim) += M(e, a, b) * u(e, b / c.ndim, b % c.ndim);
        mon::close_seq(Mu, g, tol * (double)n, "mass_is_load_of_rho_u." + k);
        mon::sample(c.what + fmt(" rho scale %.3g", rs));
    });
}
