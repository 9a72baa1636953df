// C13: conversions between DOF-, node- and element-storage follow the connectivity and DOF-numbers.
#include "fe_mesh.h"
#include "mon.h"
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
using namespace fe;

// gather-type conversions into a caller-provided or returned buffer
template <class A1, class A2, class A3>
static void check(mon::Rng& r, const Prob& p, const GooseFEM::Vector& v, const std::string& tag)
{
    A1 dv = xt::empty<double>({p.ndof});
    fill(r, dv);
    A2 nv = xt::empty<double>({p.nnode, p.ndim});
    fill(r, nv);
    A3 ev = xt::empty<double>({p.nelem, p.nne, p.ndim});
    fill(r, ev);

    // dofval -> node, element
    vd wn, we, wne;
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) wn.push_back(dv(p.d[m][i]));
    for (auto& e : p.c)
        for (auto m : e)
            for (size_t i = 0; i < p.ndim; ++i) {
                we.push_back(dv(p.d[m][i]));
                wne.push_back(nv(m, i));
            }
    A2 on = xt::empty<double>({p.nnode, p.ndim});
    A3 oe = xt::empty<double>({p.nelem, p.nne, p.ndim});
    A1 od = xt::empty<double>({p.ndof});
    poison(on), poison(oe), poison(od);
    mon::same_seq(v.AsNode(dv), wn, "node_from_dofs." + tag);
    v.asNode(dv, on);
    mon::same_seq(on, wn, "node_from_dofs." + tag + ".inplace");
    mon::same_seq(v.AsElement(dv), we, "elem_from_dofs." + tag);
    v.asElement(dv, oe);
    mon::same_seq(oe, we, "elem_from_dofs." + tag + ".inplace");
    // node -> element
    mon::same_seq(v.AsElement(nv), wne, "elem_from_node." + tag);
    poison(oe);
    v.asElement(nv, oe);
    mon::same_seq(oe, wne, "elem_from_node." + tag + ".inplace");

    // node, element -> dofs; element -> node: candidates per entry
    std::vector<std::set<double>> cd(p.ndof), cde(p.ndof), cne(p.nnode * p.ndim);
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i) cd[p.d[m][i]].insert(nv(m, i));
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t i = 0; i < p.ndim; ++i) {
                size_t m = p.c[e][a];
                cde[p.d[m][i]].insert(ev(e, a, i));
                cne[m * p.ndim + i].insert(ev(e, a, i));
            }
    auto member = [&](const auto& got, const std::vector<std::set<double>>& cand, const std::string& key) {
        bool good = static_cast<size_t>(got.size()) == cand.size();
        size_t at = 0, k = 0;
        for (auto g : got) {
            if (!good) break;
            if (cand[k].empty() ? g != 0.0 : cand[k].count(g) == 0) good = false, at = k;
            ++k;
        }
        mon::ok(good, key, fmt("entry %zu is not one of the values stored for it", at));
    };
    member(v.AsDofs(nv), cd, "dofs_from_node." + tag);
    v.asDofs(nv, od);
    member(od, cd, "dofs_from_node." + tag + ".inplace");
    member(v.AsDofs(ev), cde, "dofs_from_elem." + tag);
    poison(od);
    v.asDofs(ev, od);
    member(od, cde, "dofs_from_elem." + tag + ".inplace");
    member(v.AsNode(ev), cne, "node_from_elem." + tag);
    poison(on);
    v.asNode(ev, on);
    member(on, cne, "node_from_elem." + tag + ".inplace");

    // round trips: exact on everything that belongs to at least one element
    mon::same_seq(v.AsDofs(A2(v.AsNode(dv))), dv, "roundtrip.dofs_node." + tag);
    A1 back = v.AsDofs(A3(v.AsElement(dv)));
    A2 nback = v.AsNode(A3(v.AsElement(nv)));
    bool good = true, goodn = true;
    for (size_t d = 0; d < p.ndof; ++d) good = good && back(d) == (cde[d].empty() ? 0.0 : dv(d));
    for (size_t m = 0; m < p.nnode; ++m)
        for (size_t i = 0; i < p.ndim; ++i)
            goodn = goodn && nback(m, i) == (cne[m * p.ndim + i].empty() ? 0.0 : nv(m, i));
    mon::ok(good, "roundtrip.dofs_elem." + tag);
    mon::ok(goodn, "roundtrip.node_elem." + tag);
    // composition: dofs -> node -> element equals dofs -> element
    mon::same_seq(v.AsElement(A2(v.AsNode(dv))), we, "compose.dofs_node_elem." + tag);

    // copy
    A2 dst = xt::empty<double>({p.nnode, p.ndim});
    poison(dst);
    mon::same_seq(v.Copy(nv, dst), nv, "copy." + tag);
    v.copy(nv, dst);
    mon::same_seq(dst, nv, "copy." + tag + ".inplace");
}

void run_case(mon::Rng& r)
{
    Prob p = random_problem(r);
    mon::context() = p.what;
    GooseFEM::Vector v(p.conn, p.dofs);
    GooseFEM::VectorPartitioned vp(p.conn, p.dofs, to_u1(random_iip(r, p.ndof)));
    const GooseFEM::Vector& w = r.coin() ? v : static_cast<const GooseFEM::Vector&>(vp);

    mon::ok(w.nelem() == p.nelem && w.nne() == p.nne && w.nnode() == p.nnode && w.ndim() == p.ndim && w.ndof() == p.ndof, "sizes");
    mon::same_seq(w.conn(), p.conn, "conn");
    mon::same_seq(w.dofs(), p.dofs, "dofs");
    auto same_shape = [&](const auto& a, std::vector<size_t> s, const char* key) {
        bool good = a.size() == s.size();
        for (size_t i = 0; good && i < s.size(); ++i) good = a[i] == s[i];
        mon::ok(good, key);
    };
    size_t k = p.nne * p.ndim;
    same_shape(w.shape_dofval(), {p.ndof}, "shape.dofval");
    same_shape(w.shape_nodevec(), {p.nnode, p.ndim}, "shape.nodevec");
    same_shape(w.shape_elemvec(), {p.nelem, p.nne, p.ndim}, "shape.elemvec");
    same_shape(w.shape_elemmat(), {p.nelem, k, k}, "shape.elemmat");
    same_shape(w.allocate_dofval().shape(), {p.ndof}, "shape.dofval");
    same_shape(w.allocate_nodevec().shape(), {p.nnode, p.ndim}, "shape.nodevec");
    same_shape(w.allocate_elemvec().shape(), {p.nelem, p.nne, p.ndim}, "shape.elemvec");
    same_shape(w.allocate_elemmat().shape(), {p.nelem, k, k}, "shape.elemmat");
    double c = r.uni(-3, 3);
    mon::same_seq(w.allocate_dofval(c), vd(p.ndof, c), "allocate.dofval");
    mon::same_seq(w.allocate_nodevec(c), vd(p.nnode * p.ndim, c), "allocate.nodevec");
    mon::same_seq(w.allocate_elemvec(c), vd(p.nelem * k, c), "allocate.elemvec");
    mon::same_seq(w.allocate_elemmat(c), vd(p.nelem * k * k, c), "allocate.elemmat");

    if (r.coin(0.7)) {
        check<D1, D2, D3>(r, p, w, "xtensor");
        mon::cover("containers.xtensor");
    }
    else {
        check<xt::xarray<double>, xt::xarray<double>, xt::xarray<double>>(r, p, w, "xarray");
        mon::cover("containers.xarray");
        // a number of dimensions without meaning is rejected
        typedef xt::xarray<double> A;
        A d1 = xt::zeros<double>({p.ndof}), d2 = xt::zeros<double>({p.nnode, p.ndim}), d4 = xt::zeros<double>({1, 1, 1, 1});
        mon::throws([&] { w.AsDofs(d1); }, "rank.dofs");
        mon::throws([&] { w.AsNode(d2); }, "rank.node");
        mon::throws([&] { w.AsElement(d4); }, "rank.elem");
        mon::throws([&] { w.AssembleDofs(d1); }, "rank.assemble_dofs");
        mon::throws([&] { w.AssembleNode(d2); }, "rank.assemble_node");
    }
    // copies of the object are independent of and equal to the original
    GooseFEM::Vector cp = w;
    mon::same_seq(cp.conn(), p.conn, "object_copy");
    mon::same_seq(cp.dofs(), p.dofs, "object_copy");
    mon::cover("dofs.shared", p.shared);
    mon::cover("nodes.orphan", p.orphan);
    mon::cover(fmt("ndim.%zu", p.ndim));
    mon::cover(fmt("nne.%zu", p.nne));
    mon::cover("conversions", 20);
    if (p.nelem > 1 || p.shared) mon::nontrivial(p.h);
    mon::sample(p.what + fmt(" ndof=%zu shared=%d orphan=%d", p.ndof, p.shared, p.orphan));
}
