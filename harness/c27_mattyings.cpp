// C27: solving a tied system gives the solution of the constrained problem.
#include "matx.h"
#include "mon.h"
#include "tyings.h"
#include <Eigen/SparseLU>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/VectorPartitionedTyings.h>
using namespace fe;
typedef Eigen::SparseLU<Eigen::SparseMatrix<double>> LU;

template <class Inner>
static void check_solve(mon::Rng& r, const Tied& t, const Prob& q, GooseFEM::MatrixPartitionedTyings& A, const std::string& tag, double nonsym)
{
    D3 K = elemmat_spd(r, q, nonsym);
    A.assemble(K);
    EM M = assemble_dense(q, K);
    size_t nu = t.nu, np = t.np, ni = t.nni, nd = t.nnd;
    EM C(nd, ni);
    for (size_t i = 0; i < nd; ++i)
        for (size_t j = 0; j < ni; ++j) C(i, j) = t.C[i][j];
    // x = T x_i, with T = [1; C]: the condensed system T^T M T x_i = T^T b
    EM T = EM::Zero(t.ndof, ni);
    for (size_t i = 0; i < ni; ++i) T(i, i) = 1;
    T.bottomRows(nd) = C;
    EM W = T.transpose() * M * T;
    D1 b = xt::empty<double>({t.ndof}), x0 = b;
    fill(r, b), fill(r, x0);
    int load = (int)r.range(0, 2);
    if (load == 1)
        for (size_t i = nu; i < t.ndof; ++i) b(i) = 0;
    EV bi = T.transpose() * ev(b);
    EV xp = ev(x0).segment(nu, np);
    EV rhs = bi.head(nu);
    if (np) rhs -= W.block(0, nu, nu, np) * xp;
    EM Wu = W.topLeftCorner(nu, nu);
    Eigen::FullPivLU<EM> lu(Wu);
    Eigen::JacobiSVD<EM> svd(Wu);
    double rc = svd.singularValues().minCoeff() / svd.singularValues().maxCoeff();
    if (!(rc > 1e-7)) {
        mon::cover("skipped.ill_conditioned");
        return;
    }
    EV xu = lu.solve(rhs);
    EV xi(ni);
    xi << xu, xp;
    EV want = T * xi;
    double sc = 1 + want.cwiseAbs().maxCoeff();
    double tol = 1e-13 * sc * (double)t.ndof / rc;
    GooseFEM::MatrixPartitionedTyingsSolver<Inner> S;
    vd w = sv(want);
    mon::close_seq(S.Solve(A, b, x0), w, tol, "solve.dofval." + tag);
    D1 x = x0;
    S.solve(A, b, x);
    mon::close_seq(x, w, tol, "solve.dofval.inplace." + tag);
    D2 bn = as_node(q, b), xn = as_node(q, x0);
    mon::close_seq(S.Solve(A, bn, xn), as_node(q, w), tol, "solve.nodevec." + tag);
    S.solve(A, bn, xn);
    mon::close_seq(xn, as_node(q, w), tol, "solve.nodevec.inplace." + tag);
    D1 bu = xt::empty<double>({nu}), bd = xt::empty<double>({nd}), xpp = xt::empty<double>({np}), o = bu;
    for (size_t i = 0; i < nu; ++i) bu(i) = b(i);
    for (size_t i = 0; i < nd; ++i) bd(i) = b(ni + i);
    for (size_t i = 0; i < np; ++i) xpp(i) = x0(nu + i);
    vd wu(w.begin(), w.begin() + nu);
    mon::close_seq(S.Solve_u(A, bu, bd, xpp), wu, tol, "solve_u." + tag);
    poison(o);
    S.solve_u(A, bu, bd, xpp, o);
    mon::close_seq(o, wu, tol, "solve_u.inplace." + tag);
    // constraints hold, prescribed values are untouched
    double ct = 1e-12 * (1 + C.cwiseAbs().maxCoeff()) * sc * (double)(ni + 1);
    EV X = ev(x);
    if (nd) mon::close((C * X.head(ni) - X.tail(nd)).cwiseAbs().maxCoeff(), 0, ct, "constraint." + tag);
    bool kept = true;
    for (size_t i = nu; i < ni; ++i) kept = kept && x(i) == x0(i);
    mon::ok(kept, "prescribed_kept." + tag);
    mon::cover("solve." + tag);
    mon::cover(load == 1 ? "load.unknown_only" : "load.everywhere");
}

void run_case(mon::Rng& r)
{
    Tied t;
    for (int k = 0; k < 200; ++k) {
        t = random_tied(r, r.coin(0.6));
        if (t.nu == 0 || t.ndof > 110) continue;
        // all independent unknowns must carry stiffness: directly or through a tie
        break;
    }
    Prob q = t.p;
    q.dofs = t.per.dofs();
    q.finish();
    mon::context() = t.what;
    GooseFEM::MatrixPartitionedTyings A(q.conn, q.dofs, t.per.Cdu(), t.per.Cdp());
    mon::ok(A.nnu() == t.nu && A.nnp() == t.np && A.nni() == t.nni && A.nnd() == t.nnd && A.ndof() == t.ndof && A.nelem() == q.nelem && A.nne() == q.nne && A.nnode() == q.nnode && A.ndim() == q.ndim, "sizes");
    auto rng = [](size_t a, size_t b) {
        vu v;
        for (size_t i = a; i < b; ++i) v.push_back(i);
        return v;
    };
    mon::same_seq(A.iiu(), rng(0, t.nu), "iiu");
    mon::same_seq(A.iip(), rng(t.nu, t.nni), "iip");
    mon::same_seq(A.iii(), rng(0, t.nni), "iii");
    mon::same_seq(A.iid(), rng(t.nni, t.ndof), "iid");
    for (size_t k = r.range(1, 2); k > 0; --k) {
        D3 K = elemmat_int(r, q);
        A.assemble(K);
        EM M = assemble_dense(q, K);
        mon::same_seq(A.Todense(), dense_flat(M), "todense");
        D2 d = xt::empty<double>({t.ndof, t.ndof});
        poison(d);
        A.todense(d);
        mon::same_seq(d, dense_flat(M), "todense.inplace");
        size_t u = t.nu, p = t.np, D = t.nnd, i = t.nni;
        auto blk = [&](const auto& got, size_t a, size_t na, size_t b, size_t nb, const char* key) {
            mon::same_seq(dense_flat(got), dense_flat(EM(M.block(a, b, na, nb))), key);
        };
        blk(A.data_uu(), 0, u, 0, u, "data_uu");
        blk(A.data_up(), 0, u, u, p, "data_up");
        blk(A.data_pu(), u, p, 0, u, "data_pu");
        blk(A.data_pp(), u, p, u, p, "data_pp");
        blk(A.data_ud(), 0, u, i, D, "data_ud");
        blk(A.data_pd(), u, p, i, D, "data_pd");
        blk(A.data_du(), i, D, 0, u, "data_du");
        blk(A.data_dp(), i, D, u, p, "data_dp");
        blk(A.data_dd(), i, D, i, D, "data_dd");
    }
    if (t.nu) {
        check_solve<Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>>>(r, t, q, A, "ldlt", 0.0);
        if (r.coin()) check_solve<LU>(r, t, q, A, "lu", 0.3);
    }
    uint64_t h = q.h;
    for (auto i : t.iip) h = mon::mix(h, i);
    if (t.nnd && t.nu) mon::nontrivial(h);
    mon::cover("iip.empty", t.np == 0);
    mon::cover("ties", t.ties.shape(0));
    mon::sample(t.what);
}
