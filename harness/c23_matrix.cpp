// C23: after any history of assemble/set/add the sparse matrix is the linear operator it should be.
#include "matx.h"
#include "mon.h"
#include <GooseFEM/Matrix.h>
using namespace fe;

static void check(mon::Rng& r, const Prob& p, const GooseFEM::Matrix& A, const EM& M, const std::string& op)
{
    mon::same_seq(A.Todense(), dense_flat(M), "todense." + op);
    D2 d = xt::empty<double>({p.ndof, p.ndof});
    poison(d);
    A.todense(d);
    mon::same_seq(d, dense_flat(M), "todense.inplace." + op);
    mon::same_seq(dense_flat(A.data()), dense_flat(M), "data." + op);
    D1 x = xt::empty<double>({p.ndof}), b = x;
    fill_int(r, x, 100);
    poison(b);
    vd want = sv(M * ev(x));
    mon::same_seq(A.Dot(x), want, "dot.dofval." + op);
    A.dot(x, b);
    mon::same_seq(b, want, "dot.dofval.inplace." + op);
    D2 xn = as_node(p, x), bn = xn;
    poison(bn);
    mon::same_seq(A.Dot(xn), as_node(p, want), "dot.nodevec." + op);
    A.dot(xn, bn);
    mon::same_seq(bn, as_node(p, want), "dot.nodevec.inplace." + op);
    // the product with every unit vector is a column
    size_t c = r.range(0, p.ndof - 1);
    x.fill(0.0);
    x(c) = 1.0;
    mon::same_seq(A.Dot(x), sv(M.col(c)), "column." + op);
}

void run_case(mon::Rng& r)
{
    Prob p = matrix_problem(r);
    mon::context() = p.what + fmt(" ndof=%zu", p.ndof);
    GooseFEM::Matrix A(p.conn, p.dofs), B;
    EM M = EM::Zero(p.ndof, p.ndof), N;
    bool haveB = false;
    mon::ok(A.ndof() == p.ndof && A.nelem() == p.nelem && A.nne() == p.nne && A.nnode() == p.nnode && A.ndim() == p.ndim, "sizes");
    mon::same_seq(A.conn(), p.conn, "conn");
    mon::same_seq(A.dofs(), p.dofs, "dofs");
    mon::ok(A.shape_dofval()[0] == p.ndof && A.shape_nodevec()[0] == p.nnode && A.shape_nodevec()[1] == p.ndim && A.shape_elemmat()[0] == p.nelem && A.shape_elemmat()[1] == p.nne * p.ndim && A.shape_elemmat()[2] == p.nne * p.ndim, "shapes");
    check(r, p, A, M, "initial");
    size_t nop = r.range(1, 6);
    uint64_t h = p.h;
    std::string trace;
    for (size_t k = 0; k < nop; ++k) {
        int op = (int)r.range(0, 4);
        h = mon::mix(h, op);
        const char* name = "";
        if (op == 0) {
            D3 K = elemmat_int(r, p);
            A.assemble(K);
            M = assemble_dense(p, K);
            name = "assemble";
        }
        else if (op == 1 || op == 2) {
            vu rows = random_rows(r, p.ndof), cols = r.coin(0.3) ? rows : random_rows(r, p.ndof);
            D2 v = xt::empty<double>({rows.size(), cols.size()});
            fill_mix(r, v, 50, p.unit);
            if (op == 1) M.setZero();
            for (size_t i = 0; i < rows.size(); ++i)
                for (size_t j = 0; j < cols.size(); ++j) M(rows[i], cols[j]) += v(i, j);
            if (op == 1)
                A.set(to_u1(rows), to_u1(cols), v);
            else
                A.add(to_u1(rows), to_u1(cols), v);
            name = op == 1 ? "set" : "add";
        }
        else if (op == 3) {
            // a copy does not follow its original
            B = A;
            N = M;
            haveB = true;
            name = "copy";
        }
        else if (haveB) {
            std::swap(A, B);
            std::swap(M, N);
            name = "swap";
        }
        else {
            name = "none";
        }
        trace += std::string(name) + " ";
        check(r, p, A, M, name);
        mon::cover(std::string("op.") + name);
    }
    if (haveB) check(r, p, B, N, "other");
    // assembly is linear, and does not depend on the order of the elements
    {
        D3 K = elemmat_int(r, p), L = elemmat_int(r, p), S = K + 3.0 * L;
        A.assemble(S);
        EM W = assemble_dense(p, K) + 3.0 * assemble_dense(p, L);
        mon::same_seq(A.Todense(), dense_flat(W), "linear");
        auto q = r.perm(p.nelem);
        U2 c2 = p.conn;
        D3 S2 = S;
        for (size_t e = 0; e < p.nelem; ++e) {
            for (size_t m = 0; m < p.nne; ++m) c2(q[e], m) = p.conn(e, m);
            for (size_t i = 0; i < p.nne * p.ndim; ++i)
                for (size_t j = 0; j < p.nne * p.ndim; ++j) S2(q[e], i, j) = S(e, i, j);
        }
        GooseFEM::Matrix C(c2, p.dofs);
        C.assemble(S2);
        mon::same_seq(C.Todense(), dense_flat(W), "element_order");
    }
    mon::cover("dofs.shared", p.shared);
    mon::nontrivial(h);
    mon::sample(mon::context() + ": " + trace);
}
