// C24: a solve uses the current content of the matrix it is given, whatever happened before:
// several solvers, several matrices, re-assembly in between, copies of matrices and of solvers.
#include "matx.h"
#include "mon.h"
#include "tyings.h"
#include <Eigen/SparseLU>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
using namespace fe;
typedef Eigen::SparseLU<Eigen::SparseMatrix<double>> LU;

static EM sub(const EM& M, const vu& a, const vu& b)
{
    EM r(a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j) r(i, j) = M(a[i], b[j]);
    return r;
}

// One slot per matrix object: the object, the model, and how to check one solve.
struct Single {
    typedef GooseFEM::Matrix Mat;
    template <class S>
    using Sol = GooseFEM::MatrixSolver<S>;
    Prob p;
    Mat A;
    EM M;
    static Single make(mon::Rng& r)
    {
        Single s;
        s.p = matrix_problem(r, true, 40);
        s.A = Mat(s.p.conn, s.p.dofs);
        s.change(r, 0);
        return s;
    }
    void change(mon::Rng& r, int how)
    {
        vu all(p.ndof);
        for (size_t i = 0; i < p.ndof; ++i) all[i] = i;
        if (how == 1) {
            // still symmetric positive definite
            vu rows = random_rows(r, p.ndof);
            D2 v = xt::zeros<double>({rows.size(), rows.size()});
            for (size_t i = 0; i < rows.size(); ++i) v(i, i) = r.uni(0.5, 5), M(rows[i], rows[i]) += v(i, i);
            A.add(to_u1(rows), to_u1(rows), v);
        }
        else if (how == 2) {
            EM D = EM::Identity(p.ndof, p.ndof) * r.uni(0.5, 4);
            for (size_t i = 0; i + 1 < p.ndof; ++i) D(i, i + 1) = D(i + 1, i) = 0.2;
            D2 v = xt::empty<double>({p.ndof, p.ndof});
            for (size_t i = 0; i < p.ndof; ++i)
                for (size_t j = 0; j < p.ndof; ++j) v(i, j) = D(i, j);
            A.set(to_u1(all), to_u1(all), v);
            M = D;
        }
        else {
            D3 K = elemmat_spd(r, p);
            A.assemble(K);
            M = assemble_dense(p, K);
        }
    }
    template <class S>
    double solve(mon::Rng& r, S& s)
    {
        D1 b = xt::empty<double>({p.ndof}), x;
        fill(r, b);
        switch (r.range(0, 2)) {
        case 0: x = s.Solve(A, b); break;
        case 1: x = b, s.solve(A, b, x); break;
        default: {
            D2 xn = s.Solve(A, as_node(p, b));
            x = b;
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i) x(p.d[m][i]) = xn(m, i);
        }
        }
        EV res = M * ev(x) - ev(b);
        return res.cwiseAbs().maxCoeff() / (1e-11 * (1 + M.cwiseAbs().maxCoeff() * (double)p.ndof * (1 + ev(x).cwiseAbs().maxCoeff())));
    }
};
struct Part {
    typedef GooseFEM::MatrixPartitioned Mat;
    template <class S>
    using Sol = GooseFEM::MatrixPartitionedSolver<S>;
    Prob p;
    vu iip, iiu;
    Mat A;
    EM M;
    static Part make(mon::Rng& r)
    {
        Part s;
        s.p = matrix_problem(r, true, 40);
        s.iip = random_iip(r, s.p.ndof, false, 1);
        std::set<size_t> P(s.iip.begin(), s.iip.end());
        for (size_t d = 0; d < s.p.ndof; ++d)
            if (!P.count(d)) s.iiu.push_back(d);
        s.A = Mat(s.p.conn, s.p.dofs, to_u1(s.iip));
        s.change(r, 0);
        return s;
    }
    void change(mon::Rng& r, int how)
    {
        vu all(p.ndof);
        for (size_t i = 0; i < p.ndof; ++i) all[i] = i;
        if (how == 1) {
            vu rows = random_rows(r, p.ndof);
            D2 v = xt::zeros<double>({rows.size(), rows.size()});
            for (size_t i = 0; i < rows.size(); ++i) v(i, i) = r.uni(0.5, 5), M(rows[i], rows[i]) += v(i, i);
            A.add(to_u1(rows), to_u1(rows), v);
        }
        else if (how == 2) {
            EM D = EM::Identity(p.ndof, p.ndof) * r.uni(0.5, 4);
            for (size_t i = 0; i + 1 < p.ndof; ++i) D(i, i + 1) = D(i + 1, i) = 0.2;
            D2 v = xt::empty<double>({p.ndof, p.ndof});
            for (size_t i = 0; i < p.ndof; ++i)
                for (size_t j = 0; j < p.ndof; ++j) v(i, j) = D(i, j);
            A.set(to_u1(all), to_u1(all), v);
            M = D;
        }
        else {
            D3 K = elemmat_spd(r, p);
            A.assemble(K);
            M = assemble_dense(p, K);
        }
    }
    template <class S>
    double solve(mon::Rng& r, S& s)
    {
        D1 b = xt::empty<double>({p.ndof}), x = b;
        fill(r, b), fill(r, x);
        D1 x0 = x;
        switch (r.range(0, 3)) {
        case 0: x = s.Solve(A, b, x); break;
        case 1: s.solve(A, b, x); break;
        case 2: {
            D1 bu = xt::empty<double>({iiu.size()}), xp = xt::empty<double>({iip.size()});
            for (size_t i = 0; i < iiu.size(); ++i) bu(i) = b(iiu[i]);
            for (size_t i = 0; i < iip.size(); ++i) xp(i) = x(iip[i]);
            D1 xu = s.Solve_u(A, bu, xp);
            for (size_t i = 0; i < iiu.size(); ++i) x(iiu[i]) = xu(i);
            break;
        }
        default: {
            D2 xn = s.Solve(A, as_node(p, b), as_node(p, x));
            for (size_t m = 0; m < p.nnode; ++m)
                for (size_t i = 0; i < p.ndim; ++i) x(p.d[m][i]) = xn(m, i);
        }
        }
        for (auto d : iip)
            if (x(d) != x0(d)) return 1e300;
        EV res = M * ev(x) - ev(b);
        double worst = 0;
        for (auto d : iiu) worst = std::max(worst, std::abs(res(d)) + (std::isnan(res(d)) ? 1e300 : 0.0));
        return worst / (1e-11 * (1 + M.cwiseAbs().maxCoeff() * (double)p.ndof * (1 + ev(x).cwiseAbs().maxCoeff())));
    }
};
struct Ty {
    typedef GooseFEM::MatrixPartitionedTyings Mat;
    template <class S>
    using Sol = GooseFEM::MatrixPartitionedTyingsSolver<S>;
    Tied t;
    Prob q; // with the new DOF-numbers, virtual nodes included
    Mat A;
    EM M, C; // full matrix; [nnd, nni]
    static Ty make(mon::Rng& r)
    {
        Ty s;
        for (int k = 0; k < 200; ++k) {
            s.t = random_tied(r, true);
            if (s.t.nu > 0 && s.t.ndof < 90) break;
        }
        s.q = s.t.p;
        s.q.dofs = s.t.per.dofs();
        s.q.finish();
        s.A = Mat(s.q.conn, s.q.dofs, s.t.per.Cdu(), s.t.per.Cdp());
        s.C = EM(s.t.per.Cdi());
        s.change(r, 0);
        return s;
    }
    void change(mon::Rng& r, int)
    {
        D3 K = elemmat_spd(r, q);
        A.assemble(K);
        M = assemble_dense(q, K);
    }
    template <class S>
    double solve(mon::Rng& r, S& s)
    {
        size_t nu = t.nu, np = t.np, ni = t.nni;
        D1 b = xt::zeros<double>({t.ndof}), x = xt::empty<double>({t.ndof});
        fill(r, x);
        // the load on dependent DOFs is C27's business
        for (size_t i = 0; i < nu; ++i) b(i) = r.uni(-1, 1);
        if (r.coin()) {
            x = s.Solve(A, b, x);
        }
        else {
            D2 bn = as_node(q, b), xn = as_node(q, x);
            s.solve(A, bn, xn);
            for (size_t m = 0; m < q.nnode; ++m)
                for (size_t i = 0; i < q.ndim; ++i) x(q.d[m][i]) = xn(m, i);
        }
        EV X = ev(x);
        EV Xd = C * X.head(ni);
        double e = (Xd - X.tail(t.nnd)).cwiseAbs().maxCoeff();
        if (!(e < 1e-9 * (1 + X.cwiseAbs().maxCoeff()) * (1 + C.cwiseAbs().maxCoeff()))) return 1e300;
        EV f = M * X - ev(b);
        EV res = f.head(ni) + C.transpose() * f.tail(t.nnd);
        double cm = 1 + C.cwiseAbs().maxCoeff();
        return res.head(nu).cwiseAbs().maxCoeff() / (1e-10 * cm * cm * (1 + M.cwiseAbs().maxCoeff() * (double)t.ndof * (1 + X.cwiseAbs().maxCoeff())));
        (void)np;
    }
};
struct Dia {
    Prob p;
    vu iip;
    GooseFEM::MatrixDiagonal A;
    GooseFEM::MatrixDiagonalPartitioned B;
    vd m;
};

template <class Slot, class Inner>
static void history(mon::Rng& r, const std::string& kind)
{
    size_t nm = r.range(1, 3), ns = r.range(1, 3), nop = r.range(4, 14);
    std::vector<Slot> mats;
    for (size_t i = 0; i < nm; ++i) mats.push_back(Slot::make(r));
    if (nm > 1 && r.coin()) mats[1] = mats[0]; // a copy of the same matrix
    typedef typename Slot::template Sol<Inner> Sol;
    std::vector<Sol> sols(ns);
    std::string trace;
    uint64_t h = mon::hash({nm, ns, (uint64_t)kind[0]});
    size_t nsolve = 0, switches = 0, lastm = 99, lasts = 99;
    for (size_t k = 0; k < nop; ++k) {
        size_t a = r.range(0, nm - 1), s = r.range(0, ns - 1);
        int op = (int)r.range(0, 9);
        if (k + 1 == nop) op = 9;
        h = mon::hash({h, a, s, (uint64_t)op});
        if (op <= 2) {
            mats[a].change(r, op);
            trace += fmt("change%d(A%zu) ", op, a);
            mon::cover("op.change");
        }
        else if (op == 3 && nm > 1) {
            size_t b = (a + 1) % nm;
            mats[b] = mats[a];
            trace += fmt("A%zu=A%zu ", b, a);
            mon::cover("op.copy_matrix");
        }
        else {
            double e;
            try {
                e = mats[a].solve(r, sols[s]);
            }
            catch (const std::exception& ex) {
                e = 1e301;
            }
            trace += fmt("S%zu(A%zu) ", s, a);
            if (!mon::ok(e <= 1.0, "stale." + kind, fmt("after %s: residual/tolerance %g", trace.c_str(), e))) return;
            ++nsolve;
            if (a != lastm || s != lasts) ++switches;
            lastm = a, lasts = s;
            mon::cover("op.solve");
        }
    }
    mon::cover("kind." + kind);
    if (switches > 1) mon::nontrivial(h);
    mon::sample(kind + ": " + trace);
}

static void history_diagonal(mon::Rng& r)
{
    size_t n = r.range(1, 2);
    std::vector<Dia> D(n);
    for (auto& d : D) {
        d.p = matrix_problem(r, true, 40);
        d.iip = random_iip(r, d.p.ndof);
        d.A = GooseFEM::MatrixDiagonal(d.p.conn, d.p.dofs);
        d.B = GooseFEM::MatrixDiagonalPartitioned(d.p.conn, d.p.dofs, to_u1(d.iip));
    }
    auto change = [&](Dia& d, bool set) {
        d.m.assign(d.p.ndof, 0);
        if (set) {
            for (auto& v : d.m) v = r.uni(0.3, 5);
            d.A.set(to_d1(d.m));
            d.B.set(to_d1(d.m));
        }
        else {
            D3 K = elemmat_diag(r, d.p, false);
            d.A.assemble(K);
            d.B.assemble(K);
            EM M = assemble_dense(d.p, K);
            for (size_t i = 0; i < d.p.ndof; ++i) d.m[i] = M(i, i);
        }
    };
    for (auto& d : D) change(d, r.coin());
    if (n == 2 && r.coin()) D[1] = D[0];
    size_t nop = r.range(3, 10);
    uint64_t h = mon::hash({n, nop});
    std::string trace;
    for (size_t k = 0; k < nop; ++k) {
        size_t a = r.range(0, n - 1);
        Dia& d = D[a];
        int op = (int)r.range(0, 4);
        h = mon::hash({h, a, (uint64_t)op});
        if (op == 0 || op == 1) {
            change(d, op);
            trace += op ? "set " : "assemble ";
            continue;
        }
        if (op == 2 && n == 2) {
            D[1 - a] = D[a];
            trace += "copy ";
            continue;
        }
        trace += "solve ";
        D1 b = xt::empty<double>({d.p.ndof}), x0 = b;
        fill(r, b), fill(r, x0);
        vd w(d.p.ndof), wp(x0.begin(), x0.end());
        std::set<size_t> P(d.iip.begin(), d.iip.end());
        for (size_t i = 0; i < d.p.ndof; ++i) {
            w[i] = b(i) / d.m[i];
            if (!P.count(i)) wp[i] = w[i];
        }
        mon::close_seq(d.A.Solve(b), w, 1e-11, "stale.diagonal", trace);
        mon::close_seq(d.A.Solve(as_node(d.p, b)), as_node(d.p, w), 1e-11, "stale.diagonal", trace);
        D1 x = x0;
        d.B.solve(b, x);
        mon::close_seq(x, wp, 1e-11, "stale.diagonal_partitioned", trace);
        D2 xn = as_node(d.p, x0);
        d.B.solve(as_node(d.p, b), xn);
        mon::close_seq(xn, as_node(d.p, wp), 1e-11, "stale.diagonal_partitioned", trace);
        mon::cover("op.solve");
    }
    mon::cover("kind.diagonal");
    mon::nontrivial(h);
}

void run_case(mon::Rng& r)
{
    typedef Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>> LDLT;
    mon::context() = "";
    switch (r.range(0, 6)) {
    case 0: history<Single, LDLT>(r, "single"); break;
    case 1: history<Part, LDLT>(r, "partitioned"); break;
    case 2: history<Ty, LDLT>(r, "tyings"); break;
    case 3: history<Single, LU>(r, "single"); break;
    case 4: history<Part, LU>(r, "partitioned"); break;
    case 5: history<Ty, LU>(r, "tyings"); break;
    default: history_diagonal(r);
    }
}
