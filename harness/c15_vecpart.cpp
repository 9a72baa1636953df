// C15: a partition splits the DOFs in unknown and prescribed ones without loss or mix-up.
#include "fe_mesh.h"
#include "mon.h"
#include <GooseFEM/VectorPartitioned.h>
using namespace fe;

void run_case(mon::Rng& r)
{
    Prob p = random_problem(r);
    vu iip = random_iip(r, p.ndof);
    mon::context() = p.what + fmt(" nnp=%zu of %zu", iip.size(), p.ndof);
    GooseFEM::VectorPartitioned v(p.conn, p.dofs, to_u1(iip));
    std::set<size_t> P(iip.begin(), iip.end());
    vu iiu;
    for (size_t d = 0; d < p.ndof; ++d)
        if (!P.count(d)) iiu.push_back(d);
    size_t nu = iiu.size(), np = iip.size();
    mon::ok(v.nnu() == nu && v.nnp() == np && v.nnu() + v.nnp() == v.ndof(), "sizes");
    mon::same_seq(v.iiu(), iiu, "iiu");
    mon::same_seq(v.iip(), iip, "iip");
    std::vector<long> pos(p.ndof); // position in the partition: u >= 0, p < 0
    for (size_t i = 0; i < nu; ++i) pos[iiu[i]] = (long)i;
    for (size_t i = 0; i < np; ++i) pos[iip[i]] = -1 - (long)i;

    auto isu = v.dofs_is_u();
    auto isp = v.dofs_is_p();
    bool gu = true, gp = true;
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) {
            gu = gu && isu(m, i) == (P.count(p.d[m][i]) == 0);
            gp = gp && isp(m, i) == (P.count(p.d[m][i]) == 1);
        }
    mon::ok(gu, "dofs_is_u");
    mon::ok(gp, "dofs_is_p");

    D1 du = xt::empty<double>({nu}), dp = xt::empty<double>({np}), dv = xt::empty<double>({p.ndof});
    D2 nv = xt::empty<double>({p.nnode, p.ndim}), nw = nv;
    D3 ev = xt::empty<double>({p.nelem, p.nne, p.ndim});
    fill(r, du), fill(r, dp), fill(r, dv), fill(r, nv), fill(r, nw), fill(r, ev);

    // copy of one part leaves the other one as it was
    auto cu = v.Copy_u(nv, nw);
    auto cp = v.Copy_p(nv, nw);
    D2 cui = nw, cpi = nw;
    v.copy_u(nv, cui);
    v.copy_p(nv, cpi);
    vd wu, wp;
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) {
            bool q = P.count(p.d[m][i]);
            wu.push_back(q ? nw(m, i) : nv(m, i));
            wp.push_back(q ? nv(m, i) : nw(m, i));
        }
    mon::same_seq(cu, wu, "copy_u");
    mon::same_seq(cui, wu, "copy_u.inplace");
    mon::same_seq(cp, wp, "copy_p");
    mon::same_seq(cpi, wp, "copy_p.inplace");

    // join
    vd full(p.ndof), fn, fe_;
    for (size_t d = 0; d < p.ndof; ++d) full[d] = pos[d] >= 0 ? du(pos[d]) : dp(-1 - pos[d]);
    for (auto& m : p.d)
        for (auto d : m) fn.push_back(full[d]);
    for (auto& e : p.c)
        for (auto m : e)
            for (auto d : p.d[m]) fe_.push_back(full[d]);
    D1 od = xt::empty<double>({p.ndof});
    D2 on = xt::empty<double>({p.nnode, p.ndim});
    D3 oe = xt::empty<double>({p.nelem, p.nne, p.ndim});
    poison(od), poison(on), poison(oe);
    D1 joined = v.DofsFromParitioned(du, dp);
    mon::same_seq(joined, full, "join.dofs");
    v.dofsFromParitioned(du, dp, od);
    mon::same_seq(od, full, "join.dofs.inplace");
    mon::same_seq(v.NodeFromPartitioned(du, dp), fn, "join.node");
    v.nodeFromPartitioned(du, dp, on);
    mon::same_seq(on, fn, "join.node.inplace");
    mon::same_seq(v.ElementFromPartitioned(du, dp), fe_, "join.elem");
    v.elementFromPartitioned(du, dp, oe);
    mon::same_seq(oe, fe_, "join.elem.inplace");

    // split; from nodes and elements any of the values stored for the DOF
    D1 ou = xt::empty<double>({nu}), op = xt::empty<double>({np});
    vd su, sp;
    for (auto d : iiu) su.push_back(dv(d));
    for (auto d : iip) sp.push_back(dv(d));
    poison(ou), poison(op);
    mon::same_seq(v.AsDofs_u(dv), su, "split.u.dofs");
    mon::same_seq(v.AsDofs_p(dv), sp, "split.p.dofs");
    v.asDofs_u(dv, ou);
    v.asDofs_p(dv, op);
    mon::same_seq(ou, su, "split.u.dofs.inplace");
    mon::same_seq(op, sp, "split.p.dofs.inplace");
    std::vector<std::set<double>> cn(p.ndof), ce(p.ndof);
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) cn[p.d[m][i]].insert(nv(m, i));
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t i = 0; i < p.ndim; ++i) ce[p.d[p.c[e][a]][i]].insert(ev(e, a, i));
    auto member = [&](const D1& got, const vu& ii, const std::vector<std::set<double>>& cand, const std::string& key) {
        bool good = got.size() == ii.size();
        for (size_t k = 0; good && k < ii.size(); ++k) {
            auto& c = cand[ii[k]];
            good = c.empty() ? got(k) == 0.0 : c.count(got(k)) == 1;
        }
        mon::ok(good, key);
    };
    member(v.AsDofs_u(nv), iiu, cn, "split.u.node");
    member(v.AsDofs_p(nv), iip, cn, "split.p.node");
    member(v.AsDofs_u(ev), iiu, ce, "split.u.elem");
    member(v.AsDofs_p(ev), iip, ce, "split.p.elem");
    poison(ou), poison(op);
    v.asDofs_u(nv, ou);
    v.asDofs_p(nv, op);
    member(ou, iiu, cn, "split.u.node.inplace");
    member(op, iip, cn, "split.p.node.inplace");
    poison(ou), poison(op);
    v.asDofs_u(ev, ou);
    v.asDofs_p(ev, op);
    member(ou, iiu, ce, "split.u.elem.inplace");
    member(op, iip, ce, "split.p.elem.inplace");
    // split after join is the identity, through every storage
    mon::same_seq(v.AsDofs_u(joined), du, "roundtrip.u");
    mon::same_seq(v.AsDofs_p(joined), dp, "roundtrip.p");
    mon::same_seq(v.AsDofs_u(on), du, "roundtrip.u.node");
    mon::same_seq(v.AsDofs_p(on), dp, "roundtrip.p.node");
    mon::same_seq(v.DofsFromParitioned(v.AsDofs_u(dv), v.AsDofs_p(dv)), dv, "roundtrip.dofs");
    mon::same_seq(v.AsNode(joined), fn, "roundtrip.base");

    GooseFEM::VectorPartitioned w;
    w = v;
    mon::same_seq(w.iip(), iip, "object_copy");
    mon::same_seq(w.NodeFromPartitioned(du, dp), fn, "object_copy.join");

    bool sorted = std::is_sorted(iip.begin(), iip.end());
    mon::cover("iip.empty", np == 0);
    mon::cover("iip.all", nu == 0);
    mon::cover("iip.mixed", np > 0 && nu > 0);
    mon::cover("iip.unsorted", !sorted);
    mon::cover("dofs.shared", p.shared);
    if (np && nu) {
        uint64_t h = p.h;
        for (auto i : iip) h = mon::mix(h, i);
        mon::nontrivial(h);
    }
    mon::sample(mon::context() + fmt(" sorted=%d shared=%d", sorted, p.shared));
}
