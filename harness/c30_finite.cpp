// C30: supported bodies (rigid displacement of the supports, superposition, reciprocity, overall balance)
// and finite strain (Newton with the first Piola-Kirchhoff stress; total and updated Lagrangian agree).
#include "problem.h"
#include <GooseFEM/Iterate.h>
using namespace fe;

// a distorted mesh of the kind (with shared DOFs if it is periodic)
static bool body(mon::Rng& r, Kind kind, bool periodic, QC& c, std::vector<bool>& bnd)
{
    size_t nmax = 3;
    for (int it = 0; it < 100; ++it) {
        Prob p = random_mesh(r, kind == HEX ? 1 : 0, periodic, nmax);
        if (p.ndof > 120 || (p.shared && kind == AXI)) continue;
        QC t;
        t.ndim = p.ndim;
        full_rule(r, t);
        double L = maxabs(p.coor);
        bnd.assign(p.nnode, false);
        for (size_t i = 0; i < p.ndim; ++i) {
            double lo = 1e300, hi = -1e300;
            for (size_t m = 0; m < p.nnode; ++m) lo = std::min(lo, p.coor(m, i)), hi = std::max(hi, p.coor(m, i));
            for (size_t m = 0; m < p.nnode; ++m)
                if (p.coor(m, i) - lo < 1e-8 * L || hi - p.coor(m, i) < 1e-8 * L) bnd[m] = true;
        }
        if (it < 80 && r.coin(0.85)) distort(r, p, 0.2);
        if (kind == AXI) {
            double a = 1e300;
            for (size_t m = 0; m < p.nnode; ++m) a = std::min(a, p.coor(m, 1));
            double s = -a + r.uni(0.1, 1.0) * L;
            for (size_t m = 0; m < p.nnode; ++m) p.coor(m, 1) += s;
        }
        describe(t, p, kind);
        bool good = true;
        for (auto& x : t.x) good &= well_shaped(t.ndim, x, t.xi, 0.05);
        if (!good) continue;
        c = t;
        c.thick = kind == PLANAR ? r.uni(0.3, 3) : 1.0;
        c.reference();
        return true;
    }
    return false;
}
// rigid displacements of the DOFs: translations, and rotations unless DOFs are shared
static EM rigid_modes(const Prob& p, Kind kind)
{
    size_t nd = p.ndim, n = p.ndof;
    std::vector<EV> out;
    for (size_t i = 0; i < nd; ++i) {
        if (kind == AXI && i == 1) continue;
        EV v = EV::Zero(n);
        for (size_t m = 0; m < p.nnode; ++m) v(p.d[m][i]) = 1.0;
        out.push_back(v);
    }
    if (!p.shared && kind != AXI)
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < i; ++j) {
                EV v = EV::Zero(n);
                double L = maxabs(p.coor);
                for (size_t m = 0; m < p.nnode; ++m) v(p.d[m][i]) = p.coor(m, j) / L, v(p.d[m][j]) = -p.coor(m, i) / L;
                out.push_back(v);
            }
    EM R(n, out.size());
    for (size_t k = 0; k < out.size(); ++k) R.col(k) = out[k];
    return R;
}

static void supported(mon::Rng& r)
{
    Kind kind = (Kind)r.range(0, 3);
    QC c;
    std::vector<bool> bnd;
    if (!body(r, kind, true, c, bnd)) return;
    const Prob& p = c.p;
    std::string k = kindname(kind);
    size_t nd = p.ndim, n = p.ndof;
    EM R = rigid_modes(p, kind);
    // supports: as few as possible (statically determinate), or some more
    vu order = r.perm(n), iip;
    size_t rank = 0;
    double smin = 0;
    for (auto d : order) {
        auto t = iip;
        t.push_back(d);
        EM A(t.size(), R.cols());
        for (size_t i = 0; i < t.size(); ++i) A.row(i) = R.row(t[i]);
        auto sv = Eigen::JacobiSVD<EM>(A).singularValues();
        size_t k = 0;
        for (long i = 0; i < sv.size(); ++i) k += sv(i) > 0.05;
        if (k > rank) iip = t, rank = k, smin = sv.minCoeff();
        if ((long)rank == R.cols()) break;
    }
    if ((long)rank < R.cols()) return;
    bool determinate = r.coin(0.6);
    if (!determinate)
        for (size_t i = r.range(1, 4); i--;) {
            size_t d = r.range(0, n - 1);
            if (std::find(iip.begin(), iip.end(), d) == iip.end()) iip.push_back(d);
        }
    if (iip.size() >= n) return;
    if (r.coin()) r.shuffle(iip);
    std::set<size_t> P(iip.begin(), iip.end());
    mon::context() = fmt("supported %s %s determinate=%d", k.c_str(), p.what.c_str(), determinate);
    with_quad(c, [&](auto& quad) {
        double cs = r.logu(0.1, 10);
        GooseFEM::VectorPartitioned vec(p.conn, p.dofs, to_u1(iip));
        GooseFEM::MatrixPartitioned K(p.conn, p.dofs, to_u1(iip));
        GooseFEM::MatrixPartitionedSolver<> solver;
        D6 C = tangent(r, quad, c, false, cs);
        K.assemble(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
        EM Kuu(K.data_uu());
        auto ev_ = Eigen::SelfAdjointEigenSolver<EM>(0.5 * (Kuu + Kuu.transpose())).eigenvalues();
        mon::ok(ev_.minCoeff() > 0, "supported.positive_definite." + k);
        double cond = ev_.maxCoeff() / ev_.minCoeff();
        if (!(cond < 1e6)) {
            mon::cover("skipped.ill_conditioned");
            return;
        }
        double kmax = ev_.maxCoeff();
        // the same solve in each of the interfaces
        auto solve = [&](const D1& f, const D1& u) -> D1 {
            D1 out = xt::empty<double>({n});
            switch (r.range(0, 5)) {
            case 0: out = vec.AsDofs(solver.Solve(K, vec.AsNode(f), vec.AsNode(u))); break;
            case 1: {
                D2 w = vec.AsNode(u), b = vec.AsNode(f);
                solver.solve(K, b, w);
                out = vec.AsDofs(w);
                break;
            }
            case 2: out = solver.Solve(K, f, u); break;
            case 3: out = u; solver.solve(K, f, out); break;
            default: {
                D1 fu = xt::empty<double>({vec.nnu()}), up = xt::empty<double>({vec.nnp()});
                U1 iu = vec.iiu(), ip = vec.iip();
                for (size_t i = 0; i < iu.size(); ++i) fu(i) = f(iu(i));
                for (size_t i = 0; i < ip.size(); ++i) up(i) = u(ip(i));
                D1 w = solver.Solve_u(K, fu, up);
                for (size_t i = 0; i < iu.size(); ++i) out(iu(i)) = w(i);
                for (size_t i = 0; i < ip.size(); ++i) out(ip(i)) = up(i);
            }
            }
            return out;
        };
        auto load = [&](vd& total) -> D1 {
            D3 b = xt::empty<double>({c.nelem, c.nip, c.ndim});
            fill(r, b, -cs, cs);
            total.assign(nd, 0.0);
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q)
                    for (size_t i = 0; i < nd; ++i) total[i] += b(e, q, i) * c.vol[e][q];
            return vec.AssembleDofs(quad.Int_N_vector_dV(b));
        };
        vd T1, T2;
        D1 f1 = load(T1), f2 = load(T2), zero = xt::zeros<double>({n}), up = zero;
        for (auto d : iip) up(d) = r.uni(-1, 1);
        double fs = std::max(maxabs(f1), maxabs(f2));
        D1 u1 = solve(f1, zero), u2 = solve(f2, zero), u0 = solve(zero, up);
        double us = std::max({maxabs(u1), maxabs(u2), maxabs(u0), fs / kmax});
        double ut = 1e-12 * cond * (us + 1) * (1 + c.gs * c.size);
        // superposition
        double a = r.uni(-2, 2);
        D1 fb = f1 + a * f2, ub = solve(fb, up), want = u1 + a * u2 + u0;
        mon::close_seq(ub, want, 3 * ut, "superposition." + k);
        // rigid displacement of the supports displaces the body
        D1 rb = zero, ur = up;
        for (long j = 0; j < R.cols(); ++j) {
            double s = r.coin(0.8) ? r.uni(-1, 1) : 0.0;
            for (size_t d = 0; d < n; ++d) rb(d) += s * R(d, j);
        }
        for (auto d : iip) ur(d) = up(d) + rb(d);
        D1 uc = solve(fb, ur), wc = ub + rb;
        mon::close_seq(uc, wc, 3 * ut, "rigid_supports." + k);
        // reciprocity
        double w12 = 0, w21 = 0;
        for (size_t d = 0; d < n; ++d) w12 += f1(d) * u2(d), w21 += f2(d) * u1(d);
        mon::close(w12, w21, 1e-12 * cond * fs * us * (double)n, "reciprocity." + k);
        // a positive load does positive work
        double w11 = 0;
        for (size_t d = 0; d < n; ++d) w11 += f1(d) * u1(d);
        mon::ok(w11 >= 0, "work_positive." + k);
        // reactions balance the loads (forces, and moments about the origin)
        D1 fint = vec.AssembleDofs(quad.Int_gradN_dot_tensor2_dV(stress(c, C, quad.SymGradN_vector(vec.AsElement(uc)))));
        double ft = 1e-10 * (fs * (1 + std::abs(a)) + kmax * (1 + maxabs(uc))) * (1 + c.gs * c.size);
        D1 reac = K.Reaction(uc, fb);
        for (size_t d = 0; d < n; ++d) {
            if (P.count(d))
                mon::close(reac(d), fint(d), ft, "supported.reaction." + k);
            else
                mon::close(fint(d), fb(d), ft, "supported.equilibrium." + k);
        }
        for (long j = 0; j < R.cols(); ++j) {
            double in = 0, ext = 0;
            for (size_t d = 0; d < n; ++d) in += R(d, j) * reac(d), ext += R(d, j) * (reac(d) - fb(d));
            mon::close(in, 0, ft * (double)n, "supported.self_equilibrated." + k);
            double sup = 0, tot = 0;
            for (size_t d = 0; d < n; ++d) (P.count(d) ? sup : tot) += R(d, j) * (P.count(d) ? reac(d) - fb(d) : 0.0);
            mon::close(ext, sup, ft * (double)n, "supported.balance." + k);
        }
        for (size_t i = 0; i < nd; ++i) {
            if (kind == AXI && i == 1) continue;
            double s = 0;
            for (auto d : iip)
                for (size_t m = 0, done = 0; m < p.nnode && !done; ++m)
                    if (p.d[m][i] == d) s += reac(d) - fb(d), done = 1;
            mon::close(s + T1[i] + a * T2[i], 0, ft * (double)n, "supported.reactions_carry_load." + k);
        }
        // a statically determinate body is free of stress if only its supports move
        if (determinate && (long)iip.size() == R.cols()) {
            D1 f0 = vec.AssembleDofs(quad.Int_gradN_dot_tensor2_dV(stress(c, C, quad.SymGradN_vector(vec.AsElement(u0)))));
            mon::close(maxabs(f0), 0, ft / std::min(1.0, smin), "supported.determinate_stress_free." + k);
            mon::cover("supported.determinate");
        }
        mon::cover("supported." + k);
        if (p.shared) mon::cover("supported.shared_dofs");
        mon::nontrivial(mon::mix(c.h, iip.size()));
        mon::sample(mon::context());
    });
}

// neo-Hookean: P = mu (F - F^-T) + lam ln(J) F^-T; in terms of the arguments: sig_ij = P_ji, C_ijkl = dP_ji / dF_kl
struct Neo {
    double mu, lam;
};
static bool neo(const Neo& n, const EM& F, EM& P, std::vector<double>* A, double& W)
{
    long t = F.rows();
    double J = F.determinant();
    if (!(J > 0.2)) return false;
    EM G = F.inverse(); // F^-1
    EM Gt = G.transpose();
    double l = std::log(J);
    P = n.mu * (F - Gt) + n.lam * l * Gt;
    W = 0.5 * n.mu * ((F.transpose() * F).trace() - (double)t) - n.mu * l + 0.5 * n.lam * l * l;
    if (A)
        for (long i = 0; i < t; ++i)
            for (long j = 0; j < t; ++j)
                for (long k = 0; k < t; ++k)
                    for (long m = 0; m < t; ++m)
                        // dP_ji/dF_km
                        (*A)[((i * t + j) * t + k) * t + m] = n.mu * (j == k) * (i == m) + (n.mu - n.lam * l) * G(i, k) * G(m, j) + n.lam * G(i, j) * G(m, k);
    return true;
}

static void finite(mon::Rng& r)
{
    Kind kind = (Kind)std::vector<int>{QUAD, PLANAR, HEX}[r.range(0, 2)];
    QC c;
    std::vector<bool> bnd;
    if (!body(r, kind, false, c, bnd)) return;
    const Prob& p = c.p;
    std::string k = kindname(kind);
    size_t nd = p.ndim, t = c.tdim;
    bool patch = r.coin(0.4);
    vu iip;
    vd lo(nd, 1e300), hi(nd, -1e300);
    double L = 0;
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < nd; ++i) lo[i] = std::min(lo[i], p.coor(m, i)), hi[i] = std::max(hi[i], p.coor(m, i));
    for (size_t i = 0; i < nd; ++i) L = std::max(L, hi[i] - lo[i]);
    for (size_t m = 0; m < p.nnode; ++m)
        if (bnd[m] && (patch || p.coor(m, 0) < lo[0] + 0.3 * L || r.coin(0.3)))
            for (size_t i = 0; i < nd; ++i) iip.push_back(p.d[m][i]);
    if (iip.size() < 3 * nd) return;
    std::set<size_t> S(iip.begin(), iip.end());
    mon::context() = fmt("finite %s %s patch=%d", k.c_str(), p.what.c_str(), patch);
    with_quad(c, [&](auto& quad) {
        typedef std::decay_t<decltype(quad)> Quad;
        double cs = r.logu(0.1, 10);
        std::vector<Neo> mat(c.nelem * c.nip);
        Neo one{cs * r.uni(0.5, 1), cs * r.uni(0.5, 2)};
        for (auto& m : mat) {
            if (!patch) one = Neo{cs * r.uni(0.5, 1), cs * r.uni(0.5, 2)};
            m = one;
        }
        GooseFEM::VectorPartitioned vec(p.conn, p.dofs, to_u1(iip));
        GooseFEM::MatrixPartitioned K(p.conn, p.dofs, to_u1(iip));
        GooseFEM::MatrixPartitionedSolver<> solver;
        D4 P = quad.template allocate_qtensor<2>(0.0), cauchy = P;
        D6 C = quad.template allocate_qtensor<4>(0.0);
        D2 dV = quad.dV();
        double energy = 0;
        auto law = [&](const D2& u, bool tan) -> bool {
            // du_k/dX_l, by either of the functions
            D3 ue = vec.AsElement(u);
            bool T = r.coin();
            D4 g = T ? quad.GradN_vector_T(ue) : quad.GradN_vector(ue);
            energy = 0;
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q) {
                    EM F = EM::Identity(t, t), Pq;
                    for (size_t a = 0; a < t; ++a)
                        for (size_t b = 0; b < t; ++b) F(a, b) += T ? g(e, q, a, b) : g(e, q, b, a);
                    std::vector<double> A(t * t * t * t);
                    double W;
                    if (!neo(mat[e * c.nip + q], F, Pq, tan ? &A : nullptr, W)) return false;
                    energy += W * dV(e, q);
                    EM s = Pq * F.transpose() / F.determinant();
                    for (size_t a = 0; a < t; ++a)
                        for (size_t b = 0; b < t; ++b) P(e, q, a, b) = Pq(b, a), cauchy(e, q, a, b) = s(a, b);
                    if (tan) std::copy(A.begin(), A.end(), &C(e, q, 0, 0, 0, 0));
                }
            return true;
        };
        auto F0 = affine(r, kind, nd);
        for (auto& i : F0)
            for (auto& j : i) j *= 0.5;
        D2 u = xt::zeros<double>({p.nnode, nd}), want = u;
        for (size_t m = 0; m < p.nnode; ++m)
            for (size_t i = 0; i < nd; ++i) want(m, i) = aff(F0, p.coor, m, i);
        double h = L;
        for (auto& e : p.c)
            for (size_t i = 1; i < e.size(); ++i) {
                double s = 0;
                for (size_t d = 0; d < nd; ++d) s += std::pow(p.coor(e[i], d) - p.coor(e[0], d), 2);
                h = std::min(h, std::sqrt(s));
            }
        for (size_t m = 0; m < p.nnode; ++m)
            for (size_t i = 0; i < nd; ++i) u(m, i) = want(m, i) + (S.count(p.d[m][i]) && patch ? 0.0 : r.uni(-0.03, 0.03) * h);
        D2 given = u;
        if (!law(u, true)) {
            mon::cover("skipped.inverted");
            return;
        }
        double fs = 0, kmax = 0;
        auto force = [&]() -> D2 {
            D2 f = vec.AssembleNode(quad.Int_gradN_dot_tensor2_dV(P));
            fs = std::max(fs, maxabs(f));
            return f;
        };
        D2 fint = force();
        D3 Ke = quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
        K.assemble(Ke);
        kmax = maxabs(Ke);
        double tol = 1e-10 * (kmax * (h + maxabs(want)) + fs) * (1 + c.gs * c.size);
        // the tangent is the derivative of the force, and the force of the energy
        {
            D2 v = xt::zeros<double>({p.nnode, nd});
            fill(r, v, -h, h);
            double d = 1e-4;
            D2 kv = K.Dot(v), ua = u + d * v, ub = u - d * v;
            double fv = 0;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < nd; ++i) fv += fint(m, i) * v(m, i);
            if (law(ua, false)) {
                double wa = energy;
                D2 fa = force();
                if (law(ub, false)) {
                    double wb = energy;
                    D2 fb = force();
                    D2 num = (fa - fb) / (2 * d);
                    mon::close_seq(num, kv, 1e-3 * d * kmax * h * 1e3 + tol / d, "finite.tangent." + k);
                    mon::close((wa - wb) / (2 * d), fv, 1e-4 * kmax * h * h * (double)p.nnode, "finite.energy." + k);
                }
            }
        }
        // Newton
        GooseFEM::Iterate::StopList stop(2);
        bool conv = false;
        size_t it = 0;
        for (; it < 25 && !conv; ++it) {
            if (!law(u, true)) {
                mon::cover("skipped.inverted");
                return;
            }
            fint = force();
            K.assemble(quad.Int_gradN_dot_tensor4_dot_gradNT_dV(C));
            D2 res = -fint;
            D2 zero = xt::zeros<double>({p.nnode, nd});
            double worst = 0;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < nd; ++i)
                    if (!S.count(p.d[m][i])) worst = std::max(worst, std::abs(res(m, i)));
            stop.roll_insert(worst);
            if (stop.all_less(tol)) {
                conv = true;
                break;
            }
            if (vec.nnu() == 0) continue;
            solver.solve(K, res, zero);
            u += zero;
        }
        mon::ok(conv, "finite.converges." + k, fmt("residual %g", stop.data().back()));
        if (!conv) return;
        double moved = 0;
        vd sum(nd, 0.0);
        for (size_t m = 0; m < p.nnode; ++m)
            for (size_t i = 0; i < nd; ++i) {
                if (S.count(p.d[m][i])) moved = std::max(moved, std::abs(u(m, i) - given(m, i)));
                sum[i] += fint(m, i);
            }
        mon::close(moved, 0, 0, "finite.prescribed_kept." + k);
        for (size_t i = 0; i < nd; ++i) mon::close(sum[i], 0, tol * (double)p.nnode, "finite.reactions_balance." + k);
        // moments of the reactions about the deformed positions
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < i; ++j) {
                double s = 0, z = 0;
                for (size_t m = 0; m < p.nnode; ++m) {
                    double xi = p.coor(m, i) + u(m, i), xj = p.coor(m, j) + u(m, j);
                    s += xi * fint(m, j) - xj * fint(m, i);
                    z = std::max({z, std::abs(xi), std::abs(xj)});
                }
                mon::close(s, 0, tol * z * (double)p.nnode, "finite.moments_balance." + k);
            }
        if (patch) mon::close_seq(u, want, 1e-8 * (L + maxabs(want)), "finite.patch." + k);
        // updated Lagrangian: the Cauchy stress on the deformed mesh gives the same forces
        {
            D2 x = p.coor + u;
            D3 xe = vec.AsElement(x);
            Quad moved_ = quad;
            D3 X = vec.AsElement(p.coor);
            moved_.update_x(xe);
            D2 fup = vec.AssembleNode(moved_.Int_gradN_dot_tensor2_dV(cauchy));
            mon::close_seq(fup, fint, tol * 10, "finite.updated_lagrangian." + k);
            D2 v = moved_.dV();
            bool T = r.coin();
            D4 g = T ? quad.GradN_vector_T(vec.AsElement(u)) : quad.GradN_vector(vec.AsElement(u));
            for (size_t e = 0; e < c.nelem; ++e)
                for (size_t q = 0; q < c.nip; ++q) {
                    EM F = EM::Identity(t, t);
                    for (size_t a = 0; a < t; ++a)
                        for (size_t b = 0; b < t; ++b) F(a, b) += T ? g(e, q, a, b) : g(e, q, b, a);
                    mon::close(v(e, q) / dV(e, q), F.determinant(), 1e-10 * (1 + c.gs * c.size), "finite.volume_change." + k);
                }
        }
        mon::cover("finite." + k);
        if (patch) mon::cover("finite.patch");
        mon::cover("newton_steps", it);
        mon::nontrivial(mon::mix(c.h, it));
        mon::sample(mon::context());
    });
}

void run_case(mon::Rng& r)
{
    if (r.coin(0.55))
        supported(r);
    else
        finite(r);
}
