// C33: with assertions enabled malformed arguments are refused by an exception before anything is
// read or written out of bounds, and well-formed arguments are not (tied systems).
#include "matx.h"
#include "reject.h"
#include "tyings.h"
#include <Eigen/SparseLU>
#include <GooseFEM/MatrixPartitionedTyings.h>
using namespace rej;
namespace GF = GooseFEM;
typedef std::array<size_t, 1> S1;
typedef std::array<size_t, 2> S2;
typedef std::array<size_t, 3> S3;
typedef Eigen::SparseLU<Eigen::SparseMatrix<double>> LU;

// the physical nodes only: the degrees of freedom of the control nodes need elements too for a
// regular system, hence one element is added that couples all nodes
void run_case(mon::Rng& r)
{
    Tied t = random_tied(r);
    mon::context() = t.what;
    U2 dofs = t.per.dofs();
    auto Cdu = t.per.Cdu(), Cdp = t.per.Cdp();
    Prob q;
    q.conn = xt::empty<size_t>({size_t(1), t.nnode});
    for (size_t i = 0; i < t.nnode; ++i) q.conn(0, i) = i;
    q.nelem = 1, q.nne = t.nnode, q.ndim = t.nd, q.nnode = t.nnode, q.ndof = t.ndof, q.dofs = dofs;
    if (t.nnode * t.nd > 120 || t.nu == 0) return; // one large dense element; (Eigen cannot factorise an empty matrix)
    std::unique_ptr<GF::MatrixPartitionedTyings> A;
    valid("MatrixPartitionedTyings", [&]() { A = std::make_unique<GF::MatrixPartitionedTyings>(q.conn, dofs, Cdu, Cdp); });
    if (!A) return;
    size_t nn = t.nnode * t.nd;
    S3 ks{1, nn, nn};
    D3 K = xt::zeros<double>(ks);
    for (size_t i = 0; i < nn; ++i) {
        for (size_t j = 0; j < i; ++j) K(0, i, j) = K(0, j, i) = r.uni(-0.1, 0.1);
        K(0, i, i) = 0.2 * (double)nn + 1;
    }
    valid("MatrixPartitionedTyings.assemble", [&]() { A->assemble(K); });
    D3 bad = make<3>(r, ks, true);
    auto before = A->Todense();
    invalid("MatrixPartitionedTyings.assemble", [&]() { A->assemble(bad); }, shp(bad.shape()));
    mon::ok(same(before, A->Todense()), "unaffected.MatrixPartitionedTyings.assemble");
    S1 d{t.ndof}, u{t.nu}, p{t.np}, dd{t.nnd};
    S2 n{t.nnode, t.nd}, sq{t.ndof, t.ndof};
    one<2>(r, "MatrixPartitionedTyings.todense", sq, [&](auto& a) { auto b = a; A->todense(b); });
    GF::MatrixPartitionedTyingsSolver<LU> s;
    two<1, 1>(r, "MatrixPartitionedTyingsSolver.Solve.dofs", d, d, [&](auto& a, auto& b) { s.Solve(*A, a, b); });
    two<2, 2>(r, "MatrixPartitionedTyingsSolver.Solve.node", n, n, [&](auto& a, auto& b) { s.Solve(*A, a, b); });
    two<1, 1>(r, "MatrixPartitionedTyingsSolver.solve.dofs", d, d, [&](auto& a, auto& b) { s.solve(*A, a, b); });
    two<2, 2>(r, "MatrixPartitionedTyingsSolver.solve.node", n, n, [&](auto& a, auto& b) { s.solve(*A, a, b); });
    {
        D1 bd = make<1>(r, dd, false);
        three<1, 1, 1>(r, "MatrixPartitionedTyingsSolver.solve_u", u, p, u, [&](auto& a, auto& b, auto& c) { s.solve_u(*A, a, bd, b, c); });
        D1 bu = make<1>(r, u, false), xp = make<1>(r, p, false), w = make<1>(r, dd, true);
        invalid("MatrixPartitionedTyingsSolver.solve_u.b_d", [&]() { s.Solve_u(*A, bu, w, xp); });
    }
    // products are not available: they are refused (in any build), the result is not touched
    {
        D1 x = make<1>(r, d, false), b = make<1>(r, d, false), b0 = b;
        D2 X = make<2>(r, n, false), B = make<2>(r, n, false), B0 = B;
        invalid("MatrixPartitionedTyings.dot", [&]() { A->dot(x, b); });
        invalid("MatrixPartitionedTyings.dot.node", [&]() { A->dot(X, B); });
        invalid("MatrixPartitionedTyings.reaction", [&]() { A->reaction(x, b); });
        invalid("MatrixPartitionedTyings.reaction.node", [&]() { A->reaction(X, B); });
        mon::ok(same(b, b0) && same(B, B0), "malformed.wrote.MatrixPartitionedTyings.dot");
        mon::cover("not_implemented");
    }
    {
        Eigen::SparseMatrix<double> W(Cdp.rows() + 1 + (long)r.range(0, 2), Cdp.cols());
        invalid("MatrixPartitionedTyings.Cdp_rows", [&]() { GF::MatrixPartitionedTyings w(q.conn, dofs, Cdu, W); });
        Eigen::SparseMatrix<double> V(Cdu.rows() + 1 + (long)r.range(0, 2), Cdu.cols());
        invalid("MatrixPartitionedTyings.Cdu_rows", [&]() { GF::MatrixPartitionedTyings w(q.conn, dofs, V, Cdp); });
        Eigen::SparseMatrix<double> Y(Cdu.rows(), Cdu.cols() + 1 + (long)r.range(0, 2));
        invalid("MatrixPartitionedTyings.Cdu_cols", [&]() { GF::MatrixPartitionedTyings w(q.conn, dofs, Y, Cdp); });
        U2 f = dofs;
        f(r.range(0, t.nnode - 1), r.range(0, t.nd - 1)) = t.ndof + r.range(0, 3);
        invalid("MatrixPartitionedTyings.dofs_range", [&]() { GF::MatrixPartitionedTyings w(q.conn, f, Cdu, Cdp); });
        mon::cover("tying_matrices");
    }
    mon::nontrivial(mon::hash({t.ndof, t.nnd, t.np}));
    mon::sample(mon::context());
}
