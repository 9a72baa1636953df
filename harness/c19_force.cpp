// C19: internal force: virtual work, equilibrium of the element, divergence theorem.
#include "mon.h"
#include "quadx.h"
#include <GooseFEM/Vector.h>
using namespace fe;

void run_case(mon::Rng& r)
{
    QC c = random_quad(r);
    mon::nontrivial(c.h);
    with_quad(c, [&](auto& quad) {
        std::string k = kindname(c.kind);
        size_t t = c.tdim;
        double ss = r.logu(0.01, 100.0);
        D4 s = xt::empty<double>({c.nelem, c.nip, t, t});
        fill(r, s, -ss, ss);
        double n = (double)(c.nip * t);
        double tol = gtol(c) * c.gs * c.vs * ss * n;
        D3 want = ref_force(c, s);
        D3 f = quad.Int_gradN_dot_tensor2_dV(s);
        mon::ok(f.shape(0) == c.nelem && f.shape(1) == c.nne && f.shape(2) == c.ndim, "shape." + k);
        mon::close_seq(f, want, tol, "force." + k);
        D3 o = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, o, -1e6, 1e6);
        quad.int_gradN_dot_tensor2_dV(s, o);
        mon::close_seq(o, want, tol, "force.inplace." + k);
        if (r.coin(0.2)) {
            xt::xarray<double> sa = s;
            mon::close_seq(quad.Int_gradN_dot_tensor2_dV(sa), want, tol, "force.xarray." + k);
        }
        // --- virtual work with the library's own gradient and volume: f . v = sum s : grad v dV
        D3 v = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, v);
        D4 g = quad.GradN_vector(v);
        auto& dV = quad.dV();
        for (size_t e = 0; e < c.nelem; ++e) {
            double a = 0, b = 0;
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t i = 0; i < c.ndim; ++i) a += f(e, m, i) * v(e, m, i);
            for (size_t q = 0; q < c.nip; ++q)
                for (size_t i = 0; i < t; ++i)
                    for (size_t j = 0; j < t; ++j) b += s(e, q, i, j) * g(e, q, i, j) * dV(e, q);
            mon::close(a, b, tol * (double)c.nne * 3, "virtual_work." + k);
        }
        // --- the element is in equilibrium: no net force (axial only if axisymmetric), and no net
        //     moment if the stress is symmetric
        for (size_t i = 0; i < c.ndim; ++i) {
            if (c.kind == AXI && i == 1) continue;
            double worst = 0;
            for (size_t e = 0; e < c.nelem; ++e) {
                double a = 0;
                for (size_t m = 0; m < c.nne; ++m) a += f(e, m, i);
                worst = std::max(worst, std::abs(a));
            }
            mon::close(worst, 0.0, tol * (double)c.nne, "no_net_force." + k);
        }
        if (c.kind != AXI) {
            D4 y = s;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q)
                    for (size_t i = 0; i < t; ++i)
                        for (size_t j = 0; j < t; ++j) y(e, q, i, j) = 0.5 * (s(e, q, i, j) + s(e, q, j, i));
            D3 h = quad.Int_gradN_dot_tensor2_dV(y);
            double worst = 0;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t i = 0; i < c.ndim; ++i)
                    for (size_t j = 0; j < i; ++j) {
                        double a = 0;
                        for (size_t m = 0; m < c.nne; ++m) a += c.x[e][m][i] * h(e, m, j) - c.x[e][m][j] * h(e, m, i);
                        worst = std::max(worst, std::abs(a));
                    }
            mon::close(worst, 0.0, tol * (double)c.nne * 2 * (1 + c.size), "no_net_moment." + k);
        }
        // --- a uniform stress on a conforming mesh: residual forces only on the boundary
        bool exact = c.rule == "default" || c.rule == "Gauss" || (c.ndim == 2 && c.rule == "Nodal");
        if (c.meshed && exact && c.kind != AXI) {
            D4 y = s;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q)
                    for (size_t i = 0; i < t; ++i)
                        for (size_t j = 0; j < t; ++j) y(e, q, i, j) = s(0, 0, i, j);
            GooseFEM::Vector vec(c.p.conn, c.p.dofs);
            D2 F = vec.AssembleNode(quad.Int_gradN_dot_tensor2_dV(y));
            // boundary: a node on a face (edge) that belongs to one element
            std::map<vu, int> cnt;
            auto faces = [&](const vu& el, auto&& fn) {
                if (c.ndim == 2)
                    for (size_t i = 0; i < 4; ++i) fn(vu{el[i], el[(i + 1) % 4]});
                else
                    for (int a = 0; a < 6; ++a) {
                        vu q;
                        for (int b = 0; b < 4; ++b) q.push_back(el[hexfaces()[a][b]]);
                        fn(q);
                    }
            };
            for (auto& el : c.p.c) faces(el, [&](vu q) { std::sort(q.begin(), q.end()); ++cnt[q]; });
            std::vector<bool> bnd(c.p.nnode, false);
            for (auto& i : cnt)
                if (i.second == 1)
                    for (auto m : i.first) bnd[m] = true;
            size_t ni = 0;
            double worst = 0;
            for (size_t m = 0; m < c.p.nnode; ++m) {
                if (bnd[m]) continue;
                ++ni;
                for (size_t i = 0; i < c.ndim; ++i) worst = std::max(worst, std::abs(F(m, i)));
            }
            if (ni) {
                mon::cover("uniform_stress_meshes");
                mon::close(worst, 0.0, tol * 8, "uniform_stress." + k);
            }
        }
        mon::sample(c.what + fmt(" f(0,0,0)=%.6g", (double)f(0, 0, 0)));
    });
}
