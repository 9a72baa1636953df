// C20: stiffness matrix: derivative of the internal force, symmetry, rigid body modes, energy.
#include "mon.h"
#include "quadx.h"
using namespace fe;

void run_case(mon::Rng& r)
{
    QC c = random_quad(r);
    mon::nontrivial(c.h);
    with_quad(c, [&](auto& quad) {
        std::string k = kindname(c.kind);
        size_t t = c.tdim, n = c.nne * c.ndim;
        double cs = r.logu(0.01, 100.0);
        int sym = (int)r.range(0, 3); // 0: nothing, 1: major, 2: isotropic elastic, 3: minor + major, positive definite
        D6 C = xt::zeros<double>({c.nelem, c.nip, t, t, t, t});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q) {
                if (sym == 2) {
                    double K = r.uni(0.2, 1) * cs, G = r.uni(0.2, 1) * cs;
                    for (size_t i = 0; i < t; ++i)
                        for (size_t j = 0; j < t; ++j)
                            for (size_t l = 0; l < t; ++l)
                                for (size_t m = 0; m < t; ++m)
                                    C(e, q, i, j, l, m) = K * (i == j) * (l == m) + G * ((i == l) * (j == m) + (i == m) * (j == l));
                    continue;
                }
                if (sym == 3) {
                    // sum of squares of symmetric tensors
                    for (size_t a = 0; a < t * (t + 1) / 2 + 2; ++a) {
                        vvd S(t, vd(t));
                        for (size_t i = 0; i < t; ++i)
                            for (size_t j = 0; j <= i; ++j) S[i][j] = S[j][i] = r.uni(-1, 1) * std::sqrt(cs);
                        for (size_t i = 0; i < t; ++i)
                            for (size_t j = 0; j < t; ++j)
                                for (size_t l = 0; l < t; ++l)
                                    for (size_t m = 0; m < t; ++m) C(e, q, i, j, l, m) += 0.3 * S[i][j] * S[l][m];
                    }
                    continue;
                }
                for (size_t i = 0; i < t; ++i)
                    for (size_t j = 0; j < t; ++j)
                        for (size_t l = 0; l < t; ++l)
                            for (size_t m = 0; m < t; ++m) C(e, q, i, j, l, m) = r.uni(-1, 1) * cs;
                if (sym == 1)
                    // major symmetry for the convention sigma = C : (grad u)^T
                    for (size_t a = 0; a < t * t; ++a)
                        for (size_t b = 0; b < a; ++b)
                            C(e, q, a / t, a % t, b % t, b / t) = C(e, q, b / t, b % t, a % t, a / t);
            }
        mon::cover(fmt("symmetry%d", sym));
        double tol = gtol(c) * c.gs * c.gs * c.vs * cs * (double)(c.nip * t * t);
        D3 want = ref_stiff(c, C);
        D3 K = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        mon::ok(K.shape(0) == c.nelem && K.shape(1) == n && K.shape(2) == n, "shape." + k);
        mon::close_seq(K, want, tol, "stiffness." + k);
        D3 o = xt::empty<double>({c.nelem, n, n});
        fill(r, o, -1e6, 1e6);
        quad.int_gradN_dot_tensor4_dot_gradNT_dV(C, o);
        mon::close_seq(o, want, tol, "stiffness.inplace." + k);
        if (r.coin(0.2)) {
            xt::xarray<double> Ca = C;
            mon::close_seq(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(Ca), want, tol, "stiffness.xarray." + k);
        }
        // --- K u is the internal force of the stress C : (grad u)^T
        D3 u = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, u);
        D4 g = quad.GradN_vector_T(u);
        D4 s = xt::zeros<double>({c.nelem, c.nip, t, t});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q)
                for (size_t i = 0; i < t; ++i)
                    for (size_t j = 0; j < t; ++j)
                        for (size_t l = 0; l < t; ++l)
                            for (size_t m = 0; m < t; ++m) s(e, q, i, j) += C(e, q, i, j, l, m) * g(e, q, l, m);
        D3 f = quad.Int_gradN_dot_tensor2_dV(s);
        D3 Ku = xt::zeros<double>({c.nelem, c.nne, c.ndim});
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t a = 0; a < n; ++a)
                for (size_t b = 0; b < n; ++b) Ku(e, a / c.ndim, a % c.ndim) += K(e, a, b) * u(e, b / c.ndim, b % c.ndim);
        mon::close_seq(Ku, f, tol * (double)n, "consistent_with_force." + k);
        // --- symmetry
        if (sym >= 1) {
            double worst = 0;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t a = 0; a < n; ++a)
                    for (size_t b = 0; b < a; ++b) worst = std::max(worst, std::abs(K(e, a, b) - K(e, b, a)));
            mon::close(worst, 0.0, tol, "symmetric." + k);
        }
        // --- translations (and infinitesimal rotations if minor symmetric) cost nothing
        auto null_mode = [&](const D3& w, double scale, const std::string& key) {
            double worst = 0;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t a = 0; a < n; ++a) {
                    double v = 0;
                    for (size_t b = 0; b < n; ++b) v += K(e, a, b) * w(e, b / c.ndim, b % c.ndim);
                    worst = std::max(worst, std::abs(v));
                }
            mon::close(worst, 0.0, tol * (double)n * scale, key + "." + k);
        };
        for (size_t i = 0; i < c.ndim; ++i) {
            if (c.kind == AXI && i == 1) continue;
            D3 w = xt::zeros<double>({c.nelem, c.nne, c.ndim});
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t m = 0; m < c.nne; ++m) w(e, m, i) = 1.0;
            null_mode(w, 1.0, "rigid_translation");
        }
        if (sym >= 2 && c.kind != AXI) {
            for (size_t i = 0; i < c.ndim; ++i)
                for (size_t j = 0; j < i; ++j) {
                    D3 w = xt::zeros<double>({c.nelem, c.nne, c.ndim});
                    for (size_t e = 0; e < c.nelem; ++e)
                        for (size_t m = 0; m < c.nne; ++m) w(e, m, i) = c.x[e][m][j], w(e, m, j) = -c.x[e][m][i];
                    null_mode(w, c.size, "rigid_rotation");
                }
        }
        // --- energy
        if (sym >= 2) {
            double lo = 0;
            for (size_t e = 0; e < c.nelem; ++e) {
                double E = 0;
                for (size_t a = 0; a < n; ++a) E += Ku(e, a / c.ndim, a % c.ndim) * u(e, a / c.ndim, a % c.ndim);
                lo = std::min(lo, E);
            }
            mon::close(lo, 0.0, tol * (double)(n * n), "energy_not_negative." + k);
        }
        mon::sample(c.what + fmt(" symmetry class %d", sym));
    });
}
