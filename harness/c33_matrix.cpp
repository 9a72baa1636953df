// C33: with assertions enabled malformed arguments are refused by an exception before anything is
// read or written out of bounds, and well-formed arguments are not (matrices and solvers).
#include "matx.h"
#include "reject.h"
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MatrixPartitioned.h>
using namespace rej;
namespace GF = GooseFEM;
typedef std::array<size_t, 1> S1;
typedef std::array<size_t, 2> S2;
typedef std::array<size_t, 3> S3;

// element matrices of the wrong shape; the matrix keeps its value
template <class M>
static void assemble(mon::Rng& r, const std::string& name, M& A, const D3& K)
{
    S3 s{K.shape(0), K.shape(1), K.shape(2)};
    valid(name + ".assemble", [&]() { A.assemble(K); });
    auto a = dense_flat(EM(EM::Zero(0, 0)));
    D2 before = A.Todense();
    D3 b = make<3>(r, s, true);
    if (name.find("Diagonal") != std::string::npos) b *= 0.0;
    invalid(name + ".assemble", [&]() { A.assemble(b); }, "shape " + shp(b.shape()) + " for " + shp(s));
    mon::ok(same(before, D2(A.Todense())), "unaffected." + name + ".assemble");
}
template <class M>
static void common(mon::Rng& r, const std::string& name, M& A, const Prob& p)
{
    S1 d{p.ndof};
    S2 n{p.nnode, p.ndim}, dd{p.ndof, p.ndof};
    one<1>(r, name + ".Dot.dofs", d, [&](auto& a) { A.Dot(a); });
    one<2>(r, name + ".Dot.node", n, [&](auto& a) { A.Dot(a); });
    two<1, 1>(r, name + ".dot.dofs", d, d, [&](auto& a, auto& b) { A.dot(a, b); });
    two<2, 2>(r, name + ".dot.node", n, n, [&](auto& a, auto& b) { A.dot(a, b); });
    one<2>(r, name + ".todense", dd, [&](auto& a) { auto b = a; A.todense(b); });
}
template <class S, class M>
static void solver(mon::Rng& r, const std::string& name, S& solver, M& A, const Prob& p)
{
    S1 d{p.ndof};
    S2 n{p.nnode, p.ndim};
    if constexpr (std::is_same<M, GF::Matrix>::value) {
        one<1>(r, name + ".Solve.dofs", d, [&](auto& a) { solver.Solve(A, a); });
        one<2>(r, name + ".Solve.node", n, [&](auto& a) { solver.Solve(A, a); });
    }
    else {
        two<1, 1>(r, name + ".Solve.dofs", d, d, [&](auto& a, auto& b) { solver.Solve(A, a, b); });
        two<2, 2>(r, name + ".Solve.node", n, n, [&](auto& a, auto& b) { solver.Solve(A, a, b); });
    }
    two<1, 1>(r, name + ".solve.dofs", d, d, [&](auto& a, auto& b) { solver.solve(A, a, b); });
    two<2, 2>(r, name + ".solve.node", n, n, [&](auto& a, auto& b) { solver.solve(A, a, b); });
}
// rows, cols and block of Matrix::set and Matrix::add
template <class M>
static void blocks(mon::Rng& r, const std::string& name, M& A, const Prob& p)
{
    vu rows = random_rows(r, p.ndof), cols = random_rows(r, p.ndof);
    D2 K = make<2>(r, S2{rows.size(), cols.size()}, false);
    U1 ro = to_u1(rows), co = to_u1(cols);
    valid(name + ".set", [&]() { A.set(ro, co, K); });
    valid(name + ".add", [&]() { A.add(ro, co, K); });
    D2 before = A.Todense();
    D2 bad = make<2>(r, S2{rows.size(), cols.size()}, true);
    invalid(name + ".set.shape", [&]() { A.set(ro, co, bad); }, shp(bad.shape()));
    invalid(name + ".add.shape", [&]() { A.add(ro, co, bad); }, shp(bad.shape()));
    U1 ro2 = ro, co2 = co;
    ro2(r.range(0, rows.size() - 1)) = p.ndof + r.range(0, 3);
    co2(r.range(0, cols.size() - 1)) = p.ndof + r.range(0, 3);
    invalid(name + ".set.rows", [&]() { A.set(ro2, co, K); });
    invalid(name + ".set.cols", [&]() { A.set(ro, co2, K); });
    invalid(name + ".add.rows", [&]() { A.add(ro2, co, K); });
    invalid(name + ".add.cols", [&]() { A.add(ro, co2, K); });
    mon::ok(same(before, D2(A.Todense())), "unaffected." + name + ".set");
    mon::cover("blocks");
}
static U2 bad_conn(mon::Rng& r, const Prob& p)
{
    U2 c = p.conn;
    c(r.range(0, p.nelem - 1), r.range(0, p.nne - 1)) = p.nnode + r.range(0, 3);
    return c;
}
// prescribed degrees of freedom: one that is listed twice, or that does not exist
static void partitions(mon::Rng& r, const Prob& p, const vu& iip, const std::string& name, std::function<void(const U1&)> construct)
{
    if (iip.size()) {
        auto b = iip;
        b.insert(b.begin() + r.range(0, b.size()), b[r.range(0, b.size() - 1)]);
        invalid(name + ".iip_twice", [&]() { construct(to_u1(b)); });
        mon::cover("prescribed_twice");
    }
    auto b = iip;
    b.insert(b.begin() + r.range(0, b.size()), p.ndof + r.range(0, 5));
    invalid(name + ".iip_range", [&]() { construct(to_u1(b)); });
}

static void matrix(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 60);
    mon::context() = "Matrix " + p.what;
    std::unique_ptr<GF::Matrix> A;
    valid("Matrix", [&]() { A = std::make_unique<GF::Matrix>(p.conn, p.dofs); });
    if (!A) return;
    assemble(r, "Matrix", *A, elemmat_spd(r, p));
    GF::MatrixSolver<> s;
    solver(r, "MatrixSolver", s, *A, p);
    common(r, "Matrix", *A, p);
    blocks(r, "Matrix", *A, p);
    U2 c = bad_conn(r, p);
    invalid("Matrix.conn_range", [&]() { GF::Matrix w(c, p.dofs); });
    mon::nontrivial(mon::hash({p.h, 1}));
}
static void matrix_partitioned(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 60);
    vu iip = r.subset(p.ndof, r.range(0, p.ndof - 1));
    mon::context() = "MatrixPartitioned " + p.what;
    U1 ip = to_u1(iip);
    std::unique_ptr<GF::MatrixPartitioned> A;
    valid("MatrixPartitioned", [&]() { A = std::make_unique<GF::MatrixPartitioned>(p.conn, p.dofs, ip); });
    if (!A) return;
    S1 d{p.ndof}, u{p.ndof - iip.size()}, q{iip.size()};
    S2 n{p.nnode, p.ndim};
    assemble(r, "MatrixPartitioned", *A, elemmat_spd(r, p));
    GF::MatrixPartitionedSolver<> s;
    solver(r, "MatrixPartitionedSolver", s, *A, p);
    three<1, 1, 1>(r, "MatrixPartitionedSolver.solve_u", u, q, u, [&](auto& a, auto& b, auto& c) { s.solve_u(*A, a, b, c); });
    common(r, "MatrixPartitioned", *A, p);
    two<1, 1>(r, "MatrixPartitioned.reaction.dofs", d, d, [&](auto& a, auto& b) { A->reaction(a, b); });
    two<2, 2>(r, "MatrixPartitioned.reaction.node", n, n, [&](auto& a, auto& b) { A->reaction(a, b); });
    three<1, 1, 1>(r, "MatrixPartitioned.reaction_p", u, q, q, [&](auto& a, auto& b, auto& c) { A->reaction_p(a, b, c); });
    blocks(r, "MatrixPartitioned", *A, p);
    U2 c = bad_conn(r, p);
    invalid("MatrixPartitioned.conn_range", [&]() { GF::MatrixPartitioned w(c, p.dofs, ip); });
    partitions(r, p, iip, "MatrixPartitioned", [&](const U1& i) { GF::MatrixPartitioned w(p.conn, p.dofs, i); });
    mon::nontrivial(mon::hash({p.h, 2, iip.size()}));
}
// element matrices with one entry that is not on the diagonal
template <class M>
static void offdiagonal(mon::Rng& r, const std::string& name, M& A, const D3& K, const Prob& p)
{
    D2 before = A.Todense();
    if (K.shape(1) < 2) return;
    D3 b = K;
    size_t n = K.shape(1), i = r.range(0, n - 1), j = (i + r.range(1, n - 1)) % n;
    b(r.range(0, p.nelem - 1), i, j) = r.uni(0.5, 1);
    invalid(name + ".offdiagonal", [&]() { A.assemble(b); });
    mon::ok(same(before, D2(A.Todense())), "unaffected." + name + ".offdiagonal");
    mon::cover("off_diagonal");
}
static void diagonal(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 60);
    mon::context() = "MatrixDiagonal " + p.what;
    std::unique_ptr<GF::MatrixDiagonal> A;
    valid("MatrixDiagonal", [&]() { A = std::make_unique<GF::MatrixDiagonal>(p.conn, p.dofs); });
    if (!A) return;
    D3 K = elemmat_diag(r, p, false);
    S1 d{p.ndof};
    S2 n{p.nnode, p.ndim};
    assemble(r, "MatrixDiagonal", *A, K);
    offdiagonal(r, "MatrixDiagonal", *A, K, p);
    one<1>(r, "MatrixDiagonal.Solve.dofs", d, [&](auto& a) { A->Solve(a); });
    one<2>(r, "MatrixDiagonal.Solve.node", n, [&](auto& a) { A->Solve(a); });
    two<1, 1>(r, "MatrixDiagonal.solve.dofs", d, d, [&](auto& a, auto& b) { A->solve(a, b); });
    two<2, 2>(r, "MatrixDiagonal.solve.node", n, n, [&](auto& a, auto& b) { A->solve(a, b); });
    common(r, "MatrixDiagonal", *A, p);
    one<1>(r, "MatrixDiagonal.set", d, [&](auto& a) { A->set(a); });
    U2 c = bad_conn(r, p);
    invalid("MatrixDiagonal.conn_range", [&]() { GF::MatrixDiagonal w(c, p.dofs); });
    mon::nontrivial(mon::hash({p.h, 3}));
}
static void diagonal_partitioned(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 60);
    vu iip = r.subset(p.ndof, r.range(0, p.ndof));
    mon::context() = "MatrixDiagonalPartitioned " + p.what;
    U1 ip = to_u1(iip);
    std::unique_ptr<GF::MatrixDiagonalPartitioned> A;
    valid("MatrixDiagonalPartitioned", [&]() { A = std::make_unique<GF::MatrixDiagonalPartitioned>(p.conn, p.dofs, ip); });
    if (!A) return;
    D3 K = elemmat_diag(r, p, false);
    S1 d{p.ndof}, u{p.ndof - iip.size()}, q{iip.size()};
    S2 n{p.nnode, p.ndim};
    assemble(r, "MatrixDiagonalPartitioned", *A, K);
    offdiagonal(r, "MatrixDiagonalPartitioned", *A, K, p);
    one<1>(r, "MatrixDiagonalPartitioned.Solve.dofs", d, [&](auto& a) { A->Solve(a); });
    one<2>(r, "MatrixDiagonalPartitioned.Solve.node", n, [&](auto& a) { A->Solve(a); });
    two<1, 1>(r, "MatrixDiagonalPartitioned.solve.dofs", d, d, [&](auto& a, auto& b) { A->solve(a, b); });
    two<2, 2>(r, "MatrixDiagonalPartitioned.solve.node", n, n, [&](auto& a, auto& b) { A->solve(a, b); });
    three<1, 1, 1>(r, "MatrixDiagonalPartitioned.solve_u", u, q, u, [&](auto& a, auto& b, auto& c) { A->solve_u(a, b, c); });
    three<1, 1, 1>(r, "MatrixDiagonalPartitioned.dot_u", u, q, u, [&](auto& a, auto& b, auto& c) { A->dot_u(a, b, c); });
    three<1, 1, 1>(r, "MatrixDiagonalPartitioned.dot_p", u, q, q, [&](auto& a, auto& b, auto& c) { A->dot_p(a, b, c); });
    three<1, 1, 1>(r, "MatrixDiagonalPartitioned.reaction_p", u, q, q, [&](auto& a, auto& b, auto& c) { A->reaction_p(a, b, c); });
    two<1, 1>(r, "MatrixDiagonalPartitioned.reaction.dofs", d, d, [&](auto& a, auto& b) { A->reaction(a, b); });
    two<2, 2>(r, "MatrixDiagonalPartitioned.reaction.node", n, n, [&](auto& a, auto& b) { A->reaction(a, b); });
    common(r, "MatrixDiagonalPartitioned", *A, p);
    one<1>(r, "MatrixDiagonalPartitioned.set", d, [&](auto& a) { A->set(a); });
    U2 c = bad_conn(r, p);
    invalid("MatrixDiagonalPartitioned.conn_range", [&]() { GF::MatrixDiagonalPartitioned w(c, p.dofs, ip); });
    partitions(r, p, iip, "MatrixDiagonalPartitioned", [&](const U1& i) { GF::MatrixDiagonalPartitioned w(p.conn, p.dofs, i); });
    mon::nontrivial(mon::hash({p.h, 4, iip.size()}));
}

void run_case(mon::Rng& r)
{
    switch (r.range(0, 3)) {
    case 0: matrix(r); break;
    case 1: matrix_partitioned(r); break;
    case 2: diagonal(r); break;
    default: diagonal_partitioned(r);
    }
    mon::sample(mon::context());
}
