// C14: assembly adds every element (node) contribution to its own DOF exactly once.
#include "fe_mesh.h"
#include "mon.h"
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
using namespace fe;

template <class A1, class A2, class A3>
static void check(mon::Rng& r, const Prob& p, const GooseFEM::Vector& v, const std::string& tag)
{
    A2 nv = xt::empty<double>({p.nnode, p.ndim});
    A3 ev = xt::empty<double>({p.nelem, p.nne, p.ndim});
    A1 dv = xt::empty<double>({p.ndof});
    A2 nw = xt::empty<double>({p.nnode, p.ndim});
    // integers: every order of summation gives the same result, so that comparison is exact
    fill_int(r, nv, 1000, p.unit), fill_int(r, ev, 1000, p.unit), fill_int(r, dv, 1000, p.unit), fill_int(r, nw, 1000, p.unit);
    vd dn(p.ndof, 0), de(p.ndof, 0), ne(p.nnode * p.ndim, 0);
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) dn[p.d[m][i]] += nv(m, i);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t i = 0; i < p.ndim; ++i) {
                de[p.d[p.c[e][a]][i]] += ev(e, a, i);
            }
    // the nodal value is that of its DOF: all contributions to that DOF, from any tied node
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) ne[m * p.ndim + i] = de[p.d[m][i]];
    A1 od = xt::empty<double>({p.ndof});
    A2 on = xt::empty<double>({p.nnode, p.ndim});
    poison(od), poison(on);
    mon::same_seq(v.AssembleDofs(nv), dn, "dofs_from_node." + tag);
    v.assembleDofs(nv, od);
    mon::same_seq(od, dn, "dofs_from_node." + tag + ".inplace");
    A1 f = v.AssembleDofs(ev);
    mon::same_seq(f, de, "dofs_from_elem." + tag);
    poison(od);
    v.assembleDofs(ev, od);
    mon::same_seq(od, de, "dofs_from_elem." + tag + ".inplace");
    // a second call into the same buffer does not accumulate
    v.assembleDofs(ev, od);
    mon::same_seq(od, de, "dofs_from_elem." + tag + ".twice");
    A2 fn = v.AssembleNode(ev);
    mon::same_seq(fn, ne, "node_from_elem." + tag);
    v.assembleNode(ev, on);
    mon::same_seq(on, ne, "node_from_elem." + tag + ".inplace");
    v.assembleNode(ev, on);
    mon::same_seq(on, ne, "node_from_elem." + tag + ".twice");

    // conservation and adjointness: <assemble(q), d> == <q, gather(d)>
    double tq = 0, tf = 0, tn = 0, lhs = 0, rhs = 0, ln = 0, rn = 0;
    for (auto q : ev) tq += q;
    for (auto q : f) tf += q;
    for (auto q : fn) tn += q;
    mon::ok(tf == tq, "conservation.dofs." + tag, fmt("%g %g", tf, tq));
    if (!p.shared) mon::ok(tn == tq, "conservation.node." + tag, fmt("%g %g", tn, tq));
    A3 g = v.AsElement(dv), gn = v.AsElement(nw);
    for (size_t d = 0; d < p.ndof; ++d) lhs += f(d) * dv(d);
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) ln += fn(m, i) * nw(m, i);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t i = 0; i < p.ndim; ++i) {
                rhs += ev(e, a, i) * g(e, a, i);
                rn += ev(e, a, i) * gn(e, a, i);
            }
    mon::ok(lhs == rhs, "adjoint.dofs." + tag, fmt("%g %g", lhs, rhs));
    if (!p.shared) {
        mon::ok(ln == rn, "adjoint.node." + tag, fmt("%g %g", ln, rn));
        // two ways to the same DOF-values
        mon::same_seq(v.AssembleDofs(A2(v.AssembleNode(ev))), f, "compose." + tag);
        mon::cover("node_adjoint");
    }
    mon::same_seq(v.AsDofs(A2(v.AssembleNode(ev))), f, "compose_gather." + tag);

    // floating point contributions: same up to rounding
    A3 e2 = xt::empty<double>({p.nelem, p.nne, p.ndim});
    for (auto& x : e2) x = r.uni(-1, 1) * r.logu(1e-3, 1e3);
    vd s(p.ndof, 0), mag(p.ndof, 0);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t i = 0; i < p.ndim; ++i) s[p.d[p.c[e][a]][i]] += e2(e, a, i), mag[p.d[p.c[e][a]][i]] += std::abs(e2(e, a, i));
    A1 f2 = v.AssembleDofs(e2);
    double worst = 0;
    for (size_t d = 0; d < p.ndof; ++d) worst = std::max(worst, std::abs(f2(d) - s[d]) / (mag[d] + 1e-300));
    mon::close(worst, 0, 1e-13, "float." + tag);
}

void run_case(mon::Rng& r)
{
    Prob p = random_problem(r);
    mon::context() = p.what;
    GooseFEM::Vector v(p.conn, p.dofs);
    GooseFEM::VectorPartitioned vp(p.conn, p.dofs, to_u1(random_iip(r, p.ndof)));
    const GooseFEM::Vector& w = r.coin() ? v : static_cast<const GooseFEM::Vector&>(vp);
    if (r.coin(0.7)) {
        check<D1, D2, D3>(r, p, w, "xtensor");
        mon::cover("containers.xtensor");
    }
    else {
        typedef xt::xarray<double> A;
        check<A, A, A>(r, p, w, "xarray");
        mon::cover("containers.xarray");
    }
    mon::cover("dofs.shared", p.shared);
    mon::cover("nodes.orphan", p.orphan);
    mon::cover(fmt("ndim.%zu", p.ndim));
    mon::cover("contributions", p.nelem * p.nne * p.ndim);
    if (p.nelem > 1 || p.shared) mon::nontrivial(p.h);
    mon::sample(p.what + fmt(" ndof=%zu shared=%d", p.ndof, p.shared));
}
