// C30: whole boundary-value problems: mesh -> elements -> assembly -> solve, judged by mechanics only:
// patch test, equilibrium, balance of reactions and loads, Hill's condition for periodic problems,
// conservation of momentum and reversibility of explicit dynamics.
#include "problem.h"
using namespace fe;

// Dirichlet problem; the solution is affine for a homogeneous body ------------------------------------
static void dirichlet(mon::Rng& r)
{
    int kind = (int)r.range(0, 3);
    QC c;
    for (int it = 0;; ++it) {
        Prob p = random_mesh(r, kind == HEX ? 1 : 0, false, 4);
        if (p.ndof > 300 && it < 50) continue;
        QC t;
        t.ndim = p.ndim;
        full_rule(r, t);
        vd lo(p.ndim, 1e300), hi(p.ndim, -1e300);
        for (size_t m = 0; m < p.nnode; ++m)
            for (size_t i = 0; i < p.ndim; ++i) lo[i] = std::min(lo[i], p.coor(m, i)), hi[i] = std::max(hi[i], p.coor(m, i));
        double L = 0;
        for (size_t i = 0; i < p.ndim; ++i) L = std::max(L, hi[i] - lo[i]);
        std::vector<bool> bnd(p.nnode, false);
        for (size_t m = 0; m < p.nnode; ++m)
            for (size_t i = 0; i < p.ndim; ++i)
                if (std::abs(p.coor(m, i) - lo[i]) < 1e-8 * L || std::abs(p.coor(m, i) - hi[i]) < 1e-8 * L) bnd[m] = true;
        if (it < 100 && r.coin(0.85)) distort(r, p, 0.22);
        if (kind == AXI) {
            double a = 1e300;
            for (size_t m = 0; m < p.nnode; ++m) a = std::min(a, p.coor(m, 1));
            double s = -a + r.uni(0.1, 1.0) * L;
            for (size_t m = 0; m < p.nnode; ++m) p.coor(m, 1) += s;
        }
        describe(t, p, (Kind)kind);
        bool good = true;
        for (auto& x : t.x) good &= well_shaped(t.ndim, x, t.xi, 0.05);
        if (!good) continue;
        for (size_t m = 0; m < p.nnode; ++m)
            if (!bnd[m]) t.p.orphan = true; // reuse: there is an interior node
        c = t;
        c.thick = kind == PLANAR ? r.uni(0.3, 3) : 1.0;
        // prescribed: all of the boundary; or, for the balance of loads only, some of it
        c.reference();
        bool patch = r.coin(0.55);
        std::string k = kindname((Kind)kind);
        mon::context() = fmt("dirichlet %s %s patch=%d", k.c_str(), p.what.c_str(), patch);
        vu iip;
        for (size_t m = 0; m < p.nnode; ++m)
            if (bnd[m] && (patch || r.coin(0.7)))
                for (size_t i = 0; i < p.ndim; ++i) iip.push_back(p.d[m][i]);
        if (patch)
            for (size_t m = 0; m < p.nnode; ++m)
                if (!bnd[m] && r.coin(0.1)) iip.push_back(p.d[m][r.range(0, p.ndim - 1)]);
        if (iip.size() < 3 * p.ndim) continue;
        if (r.coin()) r.shuffle(iip);
        std::set<size_t> P(iip.begin(), iip.end());
        with_quad(c, [&](auto& quad) {
            double cs = r.logu(0.1, 10);
            GooseFEM::VectorPartitioned vec(p.conn, p.dofs, to_u1(iip));
            GooseFEM::MatrixPartitioned K(p.conn, p.dofs, to_u1(iip));
            GooseFEM::MatrixPartitionedSolver<> solver;
            D6 C = tangent(r, quad, c, patch, cs);
            K.assemble(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
            auto F = affine(r, (Kind)kind, p.ndim);
            D2 u = xt::zeros<double>({p.nnode, p.ndim}), want = u;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i) {
                    want(m, i) = aff(F, p.coor, m, i);
                    if (P.count(p.d[m][i])) u(m, i) = want(m, i);
                }
            // load: a body force, lumped consistently
            D2 fext = xt::zeros<double>({p.nnode, p.ndim});
            vd total(p.ndim, 0.0);
            if (!patch) {
                D3 b = xt::empty<double>({c.nelem, c.nip, c.ndim});
                fill(r, b, -cs, cs);
                fext = vec.AssembleNode(quad.Int_N_vector_dV(b));
                for (size_t e = 0; e < c.nelem; ++e)
                    for (size_t q = 0; q < c.nip; ++q)
                        for (size_t i = 0; i < c.ndim; ++i) total[i] += b(e, q, i) * c.vol[e][q];
            }
            // unknowns: stiff enough?
            double cond = 1;
            if (vec.nnu() > 0) {
                EM Kuu(K.data_uu());
                if (Kuu.rows() > 130) return;
                auto sv_ = Eigen::SelfAdjointEigenSolver<EM>(0.5 * (Kuu + Kuu.transpose())).eigenvalues();
                mon::ok(sv_.minCoeff() > 0, "positive_definite." + k);
                cond = sv_.maxCoeff() / sv_.minCoeff();
                if (!(cond < 1e7)) {
                    mon::cover("skipped.ill_conditioned");
                    return;
                }
            }
            // Newton: start from anything for the unknowns, one step must converge (linear)
            D2 u0 = u;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i)
                    if (!P.count(p.d[m][i])) u0(m, i) = r.uni(-1, 1);
            D2 fint0 = internal_force(vec, quad, c, C, u0);
            D2 res = fext - fint0;
            D2 du = xt::zeros<double>({p.nnode, p.ndim});
            solver.solve(K, res, du);
            u = u0 + du;
            D2 fint = internal_force(vec, quad, c, C, u);
            double us = 1 + maxabs(u), fs = 0;
            for (long a = 0; a < K.data_uu().outerSize(); ++a)
                for (Eigen::SparseMatrix<double>::InnerIterator i(K.data_uu(), a); i; ++i) fs = std::max(fs, std::abs(i.value()));
            fs = std::max(fs, maxabs(fint)) * us + maxabs(fext);
            double ft = 1e-10 * fs * (1 + c.gs * c.size), ut = 1e-12 * us * cond * (1 + c.gs * c.size);
            double worst = 0, moved = 0;
            vd sum(p.ndim, 0.0), rtot(p.ndim, 0.0);
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i) {
                    double g = fint(m, i) - fext(m, i);
                    if (P.count(p.d[m][i])) {
                        moved = std::max(moved, std::abs(u(m, i) - want(m, i)));
                        rtot[i] += g;
                    }
                    else {
                        worst = std::max(worst, std::abs(g));
                    }
                    sum[i] += fint(m, i);
                }
            mon::close(worst, 0, ft, "equilibrium." + k);
            mon::close(moved, 0, 0, "prescribed_kept." + k);
            // reactions by the matrix: K u on the prescribed DOFs
            D2 reac = K.Reaction(u, fext);
            double wr = 0;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i)
                    wr = std::max(wr, std::abs(reac(m, i) - (P.count(p.d[m][i]) ? fint(m, i) : fext(m, i))));
            mon::close(wr, 0, ft, "reaction." + k);
            for (size_t i = 0; i < p.ndim; ++i) {
                if (kind == AXI && i == 1) continue; // hoop stress carries radial force
                mon::close(sum[i], 0, ft * (double)p.nnode, "net_internal_force." + k);
                mon::close(rtot[i] + total[i], 0, ft * (double)p.nnode, "global_balance." + k);
            }
            if (patch) {
                mon::close_seq(u, want, ut, "patch.displacement." + k);
                D4 eps = quad.SymGradN_vector(vec.AsElement(u));
                size_t t = c.tdim;
                D4 ew = xt::zeros<double>({c.nelem, c.nip, t, t});
                for (size_t e = 0; e < c.nelem; ++e)
                    for (size_t q = 0; q < c.nip; ++q) {
                        if (kind == AXI) {
                            ew(e, q, 0, 0) = ew(e, q, 1, 1) = F[1][1];
                            ew(e, q, 2, 2) = F[0][0];
                        }
                        else
                            for (size_t i = 0; i < p.ndim; ++i)
                                for (size_t j = 0; j < p.ndim; ++j) ew(e, q, i, j) = 0.5 * (F[i][j] + F[j][i]);
                    }
                mon::close_seq(eps, ew, ut * c.gs * 10, "patch.strain." + k);
                mon::cover("patch");
                if (t_interior(bnd)) mon::cover("patch.interior");
            }
            else {
                // energy: u . fint = 2 * elastic energy >= 0
                D4 eps = quad.SymGradN_vector(vec.AsElement(u));
                D4 sig = stress(c, C, eps);
                D2 dV = quad.dV();
                double W = 0, uf = 0;
                for (size_t e = 0; e < c.nelem; ++e)
                    for (size_t q = 0; q < c.nip; ++q)
                        for (size_t i = 0; i < c.tdim; ++i)
                            for (size_t j = 0; j < c.tdim; ++j) W += eps(e, q, i, j) * sig(e, q, i, j) * dV(e, q);
                for (size_t m = 0; m < p.nnode; ++m)
                    for (size_t i = 0; i < p.ndim; ++i) uf += u(m, i) * fint(m, i);
                mon::close(W, uf, ft * us * (double)p.ndof, "energy." + k);
                mon::cover("loaded");
            }
            mon::cover("dirichlet." + k);
            mon::nontrivial(mon::mix(c.h, iip.size()));
            mon::sample(mon::context());
        });
        return;
    }
}

// periodic cell: prescribed macroscopic deformation -------------------------------------------------
static void periodic(mon::Rng& r)
{
    Tied t;
    QC c;
    for (int it = 0;; ++it) {
        t = random_tied(r, true);
        if (t.ndof > 160 || t.nu == 0) continue;
        bool fixed = true; // no rigid translation
        for (size_t j = 0; j < t.nd; ++j) fixed = fixed && t.relabel[t.dofs(t.ties(0, 0), j)] >= (long)t.nu;
        for (auto d : t.control) fixed = fixed && t.relabel[d] >= (long)t.nu;
        if (!fixed) continue;
        Prob q = t.p;
        QC n;
        n.ndim = q.ndim;
        full_rule(r, n);
        describe(n, q, q.ndim == 3 ? HEX : (r.coin() ? QUAD : PLANAR));
        bool good = true;
        for (auto& x : n.x) good &= well_shaped(n.ndim, x, n.xi, 0.05);
        if (!good) continue;
        c = n;
        c.thick = c.kind == PLANAR ? r.uni(0.3, 3) : 1.0;
        c.reference();
        break;
    }
    size_t nd = t.nd;
    std::string k = kindname(c.kind);
    Prob q = t.p;
    q.dofs = t.per.dofs();
    q.finish();
    bool homogeneous = r.coin(0.4);
    mon::context() = fmt("periodic %s %s homogeneous=%d", k.c_str(), t.what.c_str(), homogeneous);
    with_quad(c, [&](auto& quad) {
        double cs = r.logu(0.1, 10);
        GooseFEM::VectorPartitionedTyings vec(q.conn, q.dofs, t.per.Cdu(), t.per.Cdp(), t.per.Cdi());
        GooseFEM::MatrixPartitionedTyings K(q.conn, q.dofs, t.per.Cdu(), t.per.Cdp());
        GooseFEM::MatrixPartitionedTyingsSolver<> solver;
        D6 C = tangent(r, quad, c, homogeneous, cs);
        K.assemble(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
        auto F = affine(r, c.kind, nd);
        for (auto& i : F) i[nd] = 0.0;
        // prescribed: control = F; all other prescribed DOFs follow F as well
        U2 ctl = t.per.control();
        D2 u = xt::zeros<double>({t.nnode, nd});
        std::map<size_t, double> given;
        for (size_t m = 0; m < t.p.nnode; ++m)
            for (size_t i = 0; i < nd; ++i) given[q.d[m][i]] = aff(F, t.coor, m, i);
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < nd; ++j) given[ctl(i, j)] = F[i][j];
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < nd; ++i)
                if (q.d[m][i] >= t.nu && q.d[m][i] < t.nni) u(m, i) = given[q.d[m][i]];
        D2 want = u;
        for (size_t m = 0; m < t.nnode; ++m)
            for (size_t i = 0; i < nd; ++i) want(m, i) = given[q.d[m][i]];
        D2 f = xt::zeros<double>({t.nnode, nd});
        solver.solve(K, f, u);
        // ties
        double us = 1 + maxabs(u), w = 0;
        for (size_t i = 0; i < t.ties.shape(0); ++i)
            for (size_t j = 0; j < nd; ++j) {
                double g = u(t.ties(i, 1), j) - u(t.ties(i, 0), j);
                for (size_t l = 0; l < nd; ++l) g -= F[j][l] * (t.coor(t.ties(i, 1), l) - t.coor(t.ties(i, 0), l));
                w = std::max(w, std::abs(g));
            }
        mon::close(w, 0, 1e-11 * us * (1 + maxabs(t.coor)), "periodic.ties." + k);
        D4 eps = quad.SymGradN_vector(vec.AsElement(u));
        D4 sig = stress(c, C, eps);
        D2 fint = vec.AssembleNode(quad.Int_gradN_dot_tensor2_dV(sig));
        double V = 0;
        size_t T = c.tdim;
        vvd es(T, vd(T, 0.0)), ss = es;
        D2 dV = quad.dV();
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t g = 0; g < c.nip; ++g) {
                V += dV(e, g);
                for (size_t i = 0; i < T; ++i)
                    for (size_t j = 0; j < T; ++j) es[i][j] += eps(e, g, i, j) * dV(e, g), ss[i][j] += sig(e, g, i, j) * dV(e, g);
            }
        double fs = (maxabs(fint) + cs * V * c.gs * c.gs * us) * 1e-9;
        double et = 1e-10 * us * c.gs * (1 + c.gs * c.size);
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < nd; ++j) mon::close(es[i][j] / V, 0.5 * (F[i][j] + F[j][i]), et, "periodic.average_strain." + k);
        // equilibrium of the condensed forces
        D1 fi = vec.AsDofs_i(fint);
        double worst = 0;
        for (size_t d = 0; d < t.nu; ++d) worst = std::max(worst, std::abs(fi(d)));
        mon::close(worst, 0, fs, "periodic.equilibrium." + k);
        // Hill: work of the condensed forces in any affine virtual displacement = volume * average stress
        for (size_t a = 0; a < nd; ++a)
            for (size_t b = 0; b < nd; ++b) {
                std::vector<double> dv(t.nni, 0.0);
                for (size_t m = 0; m < t.p.nnode; ++m)
                    if (q.d[m][a] < t.nni) dv[q.d[m][a]] = t.coor(m, b);
                dv[ctl(a, b)] = 1.0;
                double work = 0;
                for (size_t d = 0; d < t.nni; ++d) work += dv[d] * fi(d);
                mon::close(work, ss[a][b], fs * (double)t.nni * (1 + c.size), "periodic.hill." + k);
            }
        if (homogeneous) mon::close_seq(u, want, 1e-8 * us, "periodic.affine." + k);
        mon::cover("periodic." + k);
        if (!homogeneous) mon::cover("periodic.heterogeneous");
        mon::nontrivial(mon::mix(c.h, t.iip.size()));
        mon::sample(mon::context());
    });
}

// explicit dynamics of a free body --------------------------------------------------------------------
static void dynamics(mon::Rng& r)
{
    QC c;
    Prob p;
    for (int it = 0;; ++it) {
        int kind = (int)r.range(0, 2);
        p = random_mesh(r, kind == HEX ? 1 : 0, false, 4);
        if (p.ndof > 200) continue;
        if (r.coin(0.8)) distort(r, p, 0.2);
        QC t;
        t.ndim = p.ndim;
        full_rule(r, t);
        describe(t, p, (Kind)kind);
        bool good = true;
        for (auto& x : t.x) good &= well_shaped(t.ndim, x, t.xi, 0.05);
        if (!good) continue;
        c = t;
        c.thick = kind == PLANAR ? r.uni(0.3, 3) : 1.0;
        c.reference();
        break;
    }
    QC n = c; // nodal rule for the mass
    for (auto& q : n.xi)
        for (auto& v : q) v = v > 0 ? 1.0 : -1.0;
    n.def_rule = false;
    n.rule = "Nodal";
    n.reference();
    for (auto& e : n.vol)
        for (auto v : e)
            if (!(v > 0)) return;
    std::string k = kindname(c.kind);
    mon::context() = fmt("dynamics %s %s", k.c_str(), p.what.c_str());
    with_quad(c, [&](auto& quad) {
        typedef std::decay_t<decltype(quad)> Quad;
        GooseFEM::Vector vec(p.conn, p.dofs);
        double cs = r.logu(0.1, 10);
        D6 C = tangent(r, quad, c, r.coin(), cs);
        GooseFEM::MatrixDiagonal M(p.conn, p.dofs);
        double mass = 0;
        {
            auto qn = Make<Quad>::make(n);
            D2 rho = qn.allocate_qscalar(0.0);
            fill(r, rho, 0.5, 2.0);
            M.assemble(qn.Int_N_scalar_NT_dV(rho));
            for (size_t e = 0; e < n.nelem; ++e)
                for (size_t q = 0; q < n.nip; ++q) mass += rho(e, q) * n.vol[e][q];
        }
        double msum = 0;
        D1 one = xt::ones<double>({p.ndof});
        D1 md = M.Dot(one);
        double mmin = 1e300;
        for (auto v : md) msum += v, mmin = std::min(mmin, v);
        mon::close(msum, mass * (double)p.ndim, 1e-11 * mass * (double)p.ndim * (1 + c.gs * c.size), "total_mass." + k);
        // stable step
        double kmax = cs * 6 * c.gs * c.gs * c.vs * (double)(c.nip * c.tdim * c.tdim * c.nne);
        double dt = 0.5 * std::sqrt(mmin / kmax);
        D2 u = xt::zeros<double>({p.nnode, p.ndim}), v = u;
        fill(r, u, -0.1 * c.size, 0.1 * c.size);
        fill(r, v, -1 / dt * 0.01 * c.size, 1 / dt * 0.01 * c.size);
        auto acc = [&](const D2& x) -> D2 {
            D2 f = internal_force(vec, quad, c, C, x);
            f *= -1.0;
            return M.Solve(f);
        };
        auto moment = [&](const D2& vel, vd& P, vd& L) {
            D2 mv = M.Dot(vel);
            P.assign(p.ndim, 0.0);
            L.assign(3, 0.0);
            for (size_t m = 0; m < p.nnode; ++m) {
                for (size_t i = 0; i < p.ndim; ++i) P[i] += mv(m, i);
                for (size_t i = 0; i < p.ndim; ++i)
                    for (size_t j = 0; j < i; ++j) L[i + j - 1] += p.coor(m, i) * mv(m, j) - p.coor(m, j) * mv(m, i);
            }
        };
        D2 u0 = u, v0 = v;
        vd P0, L0, P, L;
        moment(v, P0, L0);
        size_t nstep = r.range(3, 12);
        double vs = maxabs(v), us = maxabs(u);
        auto run = [&]() {
            D2 a = acc(u);
            for (size_t s = 0; s < nstep; ++s) {
                u += dt * v + 0.5 * dt * dt * a;
                D2 an = acc(u);
                v += 0.5 * dt * (a + an);
                a = an;
                vs = std::max(vs, maxabs(v)), us = std::max(us, maxabs(u));
            }
        };
        run();
        moment(v, P, L);
        double pt = 1e-9 * mass * (vs + us / dt) * (double)(nstep + 1) * (1 + c.gs * c.size);
        for (size_t i = 0; i < p.ndim; ++i) mon::close(P[i], P0[i], pt, "momentum." + k);
        for (size_t i = 0; i < 3; ++i) mon::close(L[i], L0[i], pt * (1 + c.size), "angular_momentum." + k);
        v *= -1.0;
        run();
        mon::close_seq(u, u0, 1e-9 * (us + dt * vs) * (1 + c.gs * c.size), "reversible." + k);
        mon::cover("dynamics." + k);
        mon::cover("time_steps", 2 * nstep);
        mon::nontrivial(mon::mix(c.h, nstep));
        mon::sample(mon::context());
    });
}

void run_case(mon::Rng& r)
{
    double d = r.uni();
    if (d < 0.45)
        dirichlet(r);
    else if (d < 0.75)
        periodic(r);
    else
        dynamics(r);
}
