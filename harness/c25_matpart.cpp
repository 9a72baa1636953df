// C25: the partitioned matrix equals the unpartitioned one; solve and reaction satisfy the system.
#include "matx.h"
#include "mon.h"
#include <Eigen/SparseLU>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/VectorPartitioned.h>
using namespace fe;
typedef Eigen::SparseLU<Eigen::SparseMatrix<double>> LU;

static EM sub(const EM& M, const vu& a, const vu& b)
{
    EM r(a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < b.size(); ++j) r(i, j) = M(a[i], b[j]);
    return r;
}
static D1 pickd(const D1& a, const vu& ii)
{
    D1 r = xt::empty<double>({ii.size()});
    for (size_t i = 0; i < ii.size(); ++i) r(i) = a(ii[i]);
    return r;
}

struct Sys {
    Prob p;
    vu iip, iiu;
    EM M;
};

static void check_operator(mon::Rng& r, const Sys& s, const GooseFEM::MatrixPartitioned& A, const std::string& op)
{
    const Prob& p = s.p;
    mon::same_seq(A.Todense(), dense_flat(s.M), "todense." + op);
    D2 d = xt::empty<double>({p.ndof, p.ndof});
    poison(d);
    A.todense(d);
    mon::same_seq(d, dense_flat(s.M), "todense.inplace." + op);
    mon::same_seq(dense_flat(A.data_uu()), dense_flat(sub(s.M, s.iiu, s.iiu)), "data_uu." + op);
    mon::same_seq(dense_flat(A.data_up()), dense_flat(sub(s.M, s.iiu, s.iip)), "data_up." + op);
    mon::same_seq(dense_flat(A.data_pu()), dense_flat(sub(s.M, s.iip, s.iiu)), "data_pu." + op);
    mon::same_seq(dense_flat(A.data_pp()), dense_flat(sub(s.M, s.iip, s.iip)), "data_pp." + op);
    D1 x = xt::empty<double>({p.ndof}), b = x;
    fill_int(r, x, 100);
    vd want = sv(s.M * ev(x));
    D2 xn = as_node(p, x), bn = xn;
    poison(b), poison(bn);
    mon::same_seq(A.Dot(x), want, "dot.dofval." + op);
    A.dot(x, b);
    mon::same_seq(b, want, "dot.dofval.inplace." + op);
    mon::same_seq(A.Dot(xn), as_node(p, want), "dot.nodevec." + op);
    A.dot(xn, bn);
    mon::same_seq(bn, as_node(p, want), "dot.nodevec.inplace." + op);
    // reaction: prescribed entries are those of the product, unknown entries are kept
    D1 keep = xt::empty<double>({p.ndof});
    fill_int(r, keep, 100);
    vd wr(keep.begin(), keep.end()), wp;
    for (auto i : s.iip) wr[i] = want[i], wp.push_back(want[i]);
    mon::same_seq(A.Reaction(x, keep), wr, "reaction.dofval." + op);
    b = keep;
    A.reaction(x, b);
    mon::same_seq(b, wr, "reaction.dofval.inplace." + op);
    D2 kn = as_node(p, keep);
    mon::same_seq(A.Reaction(xn, kn), as_node(p, wr), "reaction.nodevec." + op);
    bn = kn;
    A.reaction(xn, bn);
    mon::same_seq(bn, as_node(p, wr), "reaction.nodevec.inplace." + op);
    D1 xu = pickd(x, s.iiu), xp = pickd(x, s.iip), bp = xp;
    poison(bp);
    mon::same_seq(A.Reaction_p(xu, xp), wp, "reaction_p." + op);
    A.reaction_p(xu, xp, bp);
    mon::same_seq(bp, wp, "reaction_p.inplace." + op);
}

template <class Inner>
static void check_solve(mon::Rng& r, Sys& s, GooseFEM::MatrixPartitioned& A, const std::string& tag, double nonsym)
{
    const Prob& p = s.p;
    D3 K = elemmat_spd(r, p, nonsym);
    A.assemble(K);
    s.M = assemble_dense(p, K);
    D1 b = xt::empty<double>({p.ndof}), x0 = b;
    fill(r, b), fill(r, x0);
    if (r.coin(0.2)) x0.fill(0.0);
    // dense reference
    vd want(x0.begin(), x0.end());
    if (!s.iiu.empty()) {
        EV rhs(s.iiu.size());
        for (size_t i = 0; i < s.iiu.size(); ++i) rhs(i) = b(s.iiu[i]);
        if (!s.iip.empty()) rhs -= sub(s.M, s.iiu, s.iip) * ev(pickd(x0, s.iip));
        EV xu = sub(s.M, s.iiu, s.iiu).fullPivLu().solve(rhs);
        for (size_t i = 0; i < s.iiu.size(); ++i) want[s.iiu[i]] = xu(i);
    }
    double sc = 0;
    for (auto v : want) sc = std::max(sc, std::abs(v));
    double tol = 1e-9 * (1 + sc) * (1 + s.M.cwiseAbs().maxCoeff());
    GooseFEM::MatrixPartitionedSolver<Inner> S;
    D1 x = x0;
    mon::close_seq(S.Solve(A, b, x0), want, tol, "solve.dofval." + tag);
    S.solve(A, b, x);
    mon::close_seq(x, want, tol, "solve.dofval.inplace." + tag);
    D2 bn = as_node(p, b), xn = as_node(p, x0);
    mon::close_seq(S.Solve(A, bn, xn), as_node(p, want), tol, "solve.nodevec." + tag);
    S.solve(A, bn, xn);
    mon::close_seq(xn, as_node(p, want), tol, "solve.nodevec.inplace." + tag);
    D1 bu = pickd(b, s.iiu), xp = pickd(x0, s.iip), xu = bu;
    vd wu;
    for (auto i : s.iiu) wu.push_back(want[i]);
    mon::close_seq(S.Solve_u(A, bu, xp), wu, tol, "solve_u." + tag);
    poison(xu);
    S.solve_u(A, bu, xp, xu);
    mon::close_seq(xu, wu, tol, "solve_u.inplace." + tag);
    // prescribed values are untouched, to the bit
    bool kept = true;
    for (auto i : s.iip) kept = kept && x(i) == x0(i);
    mon::ok(kept, "prescribed_kept." + tag);
    // after the solve, A x equals the load on unknowns and the reaction on prescribed DOFs
    D1 f = A.Reaction(x, b), g = A.Dot(x);
    double ft = tol * (1 + s.M.cwiseAbs().maxCoeff()) * (double)p.ndof;
    mon::close_seq(g, f, ft, "balance." + tag);
    mon::cover("solve." + tag);
}

void run_case(mon::Rng& r)
{
    Sys s;
    s.p = matrix_problem(r, true, 60);
    s.iip = random_iip(r, s.p.ndof, false, r.coin(0.9) ? 1 : 0);
    std::set<size_t> P(s.iip.begin(), s.iip.end());
    for (size_t d = 0; d < s.p.ndof; ++d)
        if (!P.count(d)) s.iiu.push_back(d);
    const Prob& p = s.p;
    mon::context() = p.what + fmt(" ndof=%zu nnp=%zu", p.ndof, s.iip.size());
    GooseFEM::MatrixPartitioned A(p.conn, p.dofs, to_u1(s.iip));
    mon::ok(A.nnu() == s.iiu.size() && A.nnp() == s.iip.size() && A.ndof() == p.ndof && A.nelem() == p.nelem && A.nne() == p.nne && A.nnode() == p.nnode && A.ndim() == p.ndim, "sizes");
    mon::same_seq(A.iiu(), s.iiu, "iiu");
    mon::same_seq(A.iip(), s.iip, "iip");
    mon::same_seq(A.conn(), p.conn, "conn");
    mon::same_seq(A.dofs(), p.dofs, "dofs");
    s.M = EM::Zero(p.ndof, p.ndof);
    size_t nop = r.range(1, 4);
    uint64_t h = p.h;
    for (auto i : s.iip) h = mon::mix(h, i);
    for (size_t k = 0; k < nop; ++k) {
        int op = (int)r.range(0, 2);
        h = mon::mix(h, op);
        const char* name;
        if (op == 0) {
            D3 K = elemmat_int(r, p);
            A.assemble(K);
            s.M = assemble_dense(p, K);
            name = "assemble";
        }
        else {
            vu rows = random_rows(r, p.ndof), cols = r.coin(0.3) ? rows : random_rows(r, p.ndof);
            D2 v = xt::empty<double>({rows.size(), cols.size()});
            fill_mix(r, v, 50, p.unit);
            if (op == 1) s.M.setZero();
            for (size_t i = 0; i < rows.size(); ++i)
                for (size_t j = 0; j < cols.size(); ++j) s.M(rows[i], cols[j]) += v(i, j);
            if (op == 1)
                A.set(to_u1(rows), to_u1(cols), v), name = "set";
            else
                A.add(to_u1(rows), to_u1(cols), v), name = "add";
        }
        check_operator(r, s, A, name);
        mon::cover(std::string("op.") + name);
    }
    if (!s.iiu.empty()) {
        check_solve<Eigen::SimplicialLDLT<Eigen::SparseMatrix<double>>>(r, s, A, "ldlt", 0.0);
        if (r.coin(0.5)) check_solve<LU>(r, s, A, "lu", 0.3);
    }
    mon::cover("iip.empty", s.iip.empty());
    mon::cover("iip.unsorted", !std::is_sorted(s.iip.begin(), s.iip.end()));
    mon::cover("dofs.shared", p.shared);
    if (!s.iip.empty() && !s.iiu.empty()) mon::nontrivial(h);
    mon::sample(mon::context());
}
