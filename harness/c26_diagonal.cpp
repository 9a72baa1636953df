// C26: the diagonal matrices are the diagonal of the sparse ones, partitioned or not.
#include "matx.h"
#include "mon.h"
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
using namespace fe;

static D1 pickd(const D1& a, const vu& ii)
{
    D1 r = xt::empty<double>({ii.size()});
    for (size_t i = 0; i < ii.size(); ++i) r(i) = a(ii[i]);
    return r;
}
static vd dense_of(const vd& m)
{
    vd r(m.size() * m.size(), 0.0);
    for (size_t i = 0; i < m.size(); ++i) r[i * m.size() + i] = m[i];
    return r;
}

template <class Mat>
static void check_common(mon::Rng& r, const Prob& p, Mat& A, const vd& m, const std::string& tag)
{
    mon::same_seq(A.Todense(), dense_of(m), "todense." + tag);
    D2 d = xt::empty<double>({p.ndof, p.ndof});
    poison(d);
    A.todense(d);
    mon::same_seq(d, dense_of(m), "todense.inplace." + tag);
    mon::same_seq(A.data(), m, "data." + tag);
    D1 x = xt::empty<double>({p.ndof}), b = x;
    fill_int(r, x, 100);
    vd want(p.ndof);
    for (size_t i = 0; i < p.ndof; ++i) want[i] = m[i] * x(i);
    D2 xn = as_node(p, x), bn = xn;
    poison(b), poison(bn);
    mon::same_seq(A.Dot(x), want, "dot.dofval." + tag);
    A.dot(x, b);
    mon::same_seq(b, want, "dot.dofval.inplace." + tag);
    mon::same_seq(A.Dot(xn), as_node(p, want), "dot.nodevec." + tag);
    A.dot(xn, bn);
    mon::same_seq(bn, as_node(p, want), "dot.nodevec.inplace." + tag);
}

void run_case(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 90);
    vu iip = random_iip(r, p.ndof), iiu;
    std::set<size_t> P(iip.begin(), iip.end());
    for (size_t d = 0; d < p.ndof; ++d)
        if (!P.count(d)) iiu.push_back(d);
    mon::context() = p.what + fmt(" ndof=%zu nnp=%zu", p.ndof, iip.size());
    GooseFEM::MatrixDiagonal A(p.conn, p.dofs);
    GooseFEM::MatrixDiagonalPartitioned B(p.conn, p.dofs, to_u1(iip));
    mon::ok(A.ndof() == p.ndof && A.nelem() == p.nelem && A.nne() == p.nne && A.nnode() == p.nnode && A.ndim() == p.ndim, "sizes.diagonal");
    mon::ok(B.ndof() == p.ndof && B.nelem() == p.nelem && B.nne() == p.nne && B.nnode() == p.nnode && B.ndim() == p.ndim && B.nnu() == iiu.size() && B.nnp() == iip.size(), "sizes.partitioned");
    mon::same_seq(B.iiu(), iiu, "iiu");
    mon::same_seq(B.iip(), iip, "iip");
    size_t nop = r.range(1, 3);
    vd m(p.ndof);
    for (size_t k = 0; k < nop; ++k) {
        if (r.coin(0.6)) {
            D3 K = elemmat_diag(r, p, true);
            EM M = assemble_dense(p, K);
            for (size_t i = 0; i < p.ndof; ++i) m[i] = M(i, i);
            A.assemble(K);
            B.assemble(K);
            mon::cover("op.assemble");
        }
        else {
            for (auto& v : m) v = p.unit * (double)r.range(1, 1000) * (r.coin(0.2) ? -1.0 : 1.0);
            A.set(to_d1(m));
            B.set(to_d1(m));
            mon::cover("op.set");
        }
        check_common(r, p, A, m, "diagonal");
        check_common(r, p, B, m, "partitioned");
        D1 mu = pickd(to_d1(m), iiu), mp = pickd(to_d1(m), iip);
        mon::same_seq(B.data_uu(), mu, "data_uu");
        mon::same_seq(B.data_pp(), mp, "data_pp");
        D1 x = xt::empty<double>({p.ndof}), keep = x;
        fill_int(r, x, 100), fill_int(r, keep, 100);
        D1 xu = pickd(x, iiu), xp = pickd(x, iip), bu = xu, bp = xp;
        vd wu, wp, wr(keep.begin(), keep.end());
        for (auto i : iiu) wu.push_back(m[i] * x(i));
        for (auto i : iip) wp.push_back(m[i] * x(i)), wr[i] = m[i] * x(i);
        mon::same_seq(B.Dot_u(xu, xp), wu, "dot_u");
        mon::same_seq(B.Dot_p(xu, xp), wp, "dot_p");
        poison(bu), poison(bp);
        B.dot_u(xu, xp, bu);
        B.dot_p(xu, xp, bp);
        mon::same_seq(bu, wu, "dot_u.inplace");
        mon::same_seq(bp, wp, "dot_p.inplace");
        // reaction
        mon::same_seq(B.Reaction(x, keep), wr, "reaction.dofval");
        D1 b = keep;
        B.reaction(x, b);
        mon::same_seq(b, wr, "reaction.dofval.inplace");
        D2 xn = as_node(p, x), kn = as_node(p, keep), bn = kn;
        mon::same_seq(B.Reaction(xn, kn), as_node(p, wr), "reaction.nodevec");
        B.reaction(xn, bn);
        mon::same_seq(bn, as_node(p, wr), "reaction.nodevec.inplace");
        poison(bp);
        B.reaction_p(xu, xp, bp);
        mon::same_seq(bp, wp, "reaction_p.inplace");
        mon::same_seq(B.Reaction_p(xu, xp), wp, "reaction_p");
        // solve
        vd ws(p.ndof), wsp(keep.begin(), keep.end()), wsu;
        double tol = 1e-12 * 100 / p.unit;
        for (size_t i = 0; i < p.ndof; ++i) ws[i] = x(i) / m[i];
        for (auto i : iiu) wsp[i] = ws[i], wsu.push_back(ws[i]);
        D1 y = keep;
        D2 yn = kn;
        poison(y), poison(yn);
        mon::close_seq(A.Solve(x), ws, tol, "solve.dofval.diagonal");
        A.solve(x, y);
        mon::close_seq(y, ws, tol, "solve.dofval.inplace.diagonal");
        mon::close_seq(A.Solve(xn), as_node(p, ws), tol, "solve.nodevec.diagonal");
        A.solve(xn, yn);
        mon::close_seq(yn, as_node(p, ws), tol, "solve.nodevec.inplace.diagonal");
        y = keep, yn = kn;
        B.solve(x, y);
        mon::close_seq(y, wsp, tol, "solve.dofval.inplace.partitioned");
        B.solve(xn, yn);
        mon::close_seq(yn, as_node(p, wsp), tol, "solve.nodevec.inplace.partitioned");
        // the returned solution: unknown entries solved, prescribed entries well defined
        auto part = [&](const auto& got, const std::string& key) {
            bool gu = true, gp = true;
            size_t q = 0;
            bool node = (size_t)got.size() != p.ndof || got.dimension() == 2;
            for (auto g : got) {
                size_t d = node ? p.d[q / p.ndim][q % p.ndim] : q;
                if (P.count(d))
                    gp = gp && std::isfinite(g) && g == 0.0;
                else
                    gu = gu && std::abs(g - ws[d]) <= tol;
                ++q;
            }
            mon::ok(gu, key + ".unknown");
            mon::ok(gp, key + ".prescribed", "the entries of prescribed DOFs are undefined");
        };
        part(B.Solve(x), "solve.dofval.partitioned");
        part(B.Solve(xn), "solve.nodevec.partitioned");
        bu = xu;
        poison(bu);
        mon::close_seq(B.Solve_u(xu, xp), wsu, tol, "solve_u");
        B.solve_u(xu, xp, bu);
        mon::close_seq(bu, wsu, tol, "solve_u.inplace");
    }
    mon::cover("dofs.shared", p.shared);
    mon::cover("iip.empty", iip.empty());
    mon::cover("iip.all", iiu.empty());
    mon::cover("iip.unsorted", !std::is_sorted(iip.begin(), iip.end()));
    uint64_t h = p.h;
    for (auto i : iip) h = mon::mix(h, i);
    if (!iip.empty() && !iiu.empty()) mon::nontrivial(h);
    mon::sample(mon::context());
}
