// C33: with assertions enabled malformed arguments are refused by an exception before anything is
// read or written out of bounds, and well-formed arguments are not (vectors, tyings).
#include "reject.h"
#include "tyings.h"
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
#include <GooseFEM/VectorPartitionedTyings.h>
using namespace rej;
namespace GF = GooseFEM;
typedef std::array<size_t, 1> S1;
typedef std::array<size_t, 2> S2;
typedef std::array<size_t, 3> S3;

template <class V>
static void vector_ops(mon::Rng& r, const V& v, const Prob& p)
{
    S1 d{p.ndof};
    S2 n{p.nnode, p.ndim};
    S3 e{p.nelem, p.nne, p.ndim};
    // probe: valid queries give the same result before and after all refused calls
    D2 x = make<2>(r, n, false);
    D3 y = make<3>(r, e, false);
    D1 a0 = v.AssembleDofs(x), b0 = v.AssembleDofs(y);
    switch (r.range(0, 3)) {
    case 0:
        two<2, 2>(r, "Vector.copy", n, n, [&](auto& a, auto& b) { v.copy(a, b); });
        one<2>(r, "Vector.AsDofs.node", n, [&](auto& a) { v.AsDofs(a); });
        one<3>(r, "Vector.AsDofs.elem", e, [&](auto& a) { v.AsDofs(a); });
        two<2, 1>(r, "Vector.asDofs.node", n, d, [&](auto& a, auto& b) { v.asDofs(a, b); });
        two<3, 1>(r, "Vector.asDofs.elem", e, d, [&](auto& a, auto& b) { v.asDofs(a, b); });
        break;
    case 1:
        one<1>(r, "Vector.AsNode.dofs", d, [&](auto& a) { v.AsNode(a); });
        one<3>(r, "Vector.AsNode.elem", e, [&](auto& a) { v.AsNode(a); });
        two<1, 2>(r, "Vector.asNode.dofs", d, n, [&](auto& a, auto& b) { v.asNode(a, b); });
        two<3, 2>(r, "Vector.asNode.elem", e, n, [&](auto& a, auto& b) { v.asNode(a, b); });
        break;
    case 2:
        one<1>(r, "Vector.AsElement.dofs", d, [&](auto& a) { v.AsElement(a); });
        one<2>(r, "Vector.AsElement.node", n, [&](auto& a) { v.AsElement(a); });
        two<1, 3>(r, "Vector.asElement.dofs", d, e, [&](auto& a, auto& b) { v.asElement(a, b); });
        two<2, 3>(r, "Vector.asElement.node", n, e, [&](auto& a, auto& b) { v.asElement(a, b); });
        break;
    default:
        one<2>(r, "Vector.AssembleDofs.node", n, [&](auto& a) { v.AssembleDofs(a); });
        one<3>(r, "Vector.AssembleDofs.elem", e, [&](auto& a) { v.AssembleDofs(a); });
        one<3>(r, "Vector.AssembleNode.elem", e, [&](auto& a) { v.AssembleNode(a); });
        two<2, 1>(r, "Vector.assembleDofs.node", n, d, [&](auto& a, auto& b) { v.assembleDofs(a, b); });
        two<3, 1>(r, "Vector.assembleDofs.elem", e, d, [&](auto& a, auto& b) { v.assembleDofs(a, b); });
        two<3, 2>(r, "Vector.assembleNode.elem", e, n, [&](auto& a, auto& b) { v.assembleNode(a, b); });
    }
    // arrays of dynamic rank: a rank that has no meaning is always refused
    {
        auto rank = [&](std::vector<size_t> s) {
            xt::xarray<double> a = xt::zeros<double>(s);
            return a;
        };
        auto r1 = rank({p.ndof}), r4 = rank({p.nelem, p.nne, p.ndim, 1});
        invalid("Vector.AsDofs.rank1", [&]() { v.AsDofs(r1); });
        invalid("Vector.AsDofs.rank4", [&]() { v.AsDofs(r4); });
        invalid("Vector.AsNode.rank4", [&]() { v.AsNode(r4); });
        invalid("Vector.AsElement.rank4", [&]() { v.AsElement(r4); });
        invalid("Vector.AssembleDofs.rank1", [&]() { v.AssembleDofs(r1); });
        invalid("Vector.AssembleNode.rank1", [&]() { v.AssembleNode(r1); });
        mon::cover("unknown_rank");
    }
    mon::ok(same(a0, D1(v.AssembleDofs(x))) && same(b0, D1(v.AssembleDofs(y))), "unaffected.Vector");
}

static void partitioned(mon::Rng& r)
{
    Prob p = random_problem(r);
    mon::context() = p.what;
    vu iipv = r.subset(p.ndof, r.range(0, p.ndof));
    auto distinct = iipv;
    U1 iip = to_u1(iipv);
    std::unique_ptr<GF::VectorPartitioned> vp;
    valid("VectorPartitioned", [&]() { vp = std::make_unique<GF::VectorPartitioned>(p.conn, p.dofs, iip); });
    if (!vp) return;
    auto& v = *vp;
    size_t np = iipv.size(), nu = p.ndof - np;
    S1 d{p.ndof}, u{nu}, q{np};
    S2 n{p.nnode, p.ndim};
    S3 e{p.nelem, p.nne, p.ndim};
    switch (r.range(0, 3)) {
    case 0:
        two<2, 2>(r, "VectorPartitioned.copy_u", n, n, [&](auto& a, auto& b) { v.copy_u(a, b); });
        two<2, 2>(r, "VectorPartitioned.copy_p", n, n, [&](auto& a, auto& b) { v.copy_p(a, b); });
        three<1, 1, 1>(r, "VectorPartitioned.dofsFromParitioned", u, q, d, [&](auto& a, auto& b, auto& c) { v.dofsFromParitioned(a, b, c); });
        break;
    case 1:
        three<1, 1, 2>(r, "VectorPartitioned.nodeFromPartitioned", u, q, n, [&](auto& a, auto& b, auto& c) { v.nodeFromPartitioned(a, b, c); });
        three<1, 1, 3>(r, "VectorPartitioned.elementFromPartitioned", u, q, e, [&](auto& a, auto& b, auto& c) { v.elementFromPartitioned(a, b, c); });
        break;
    case 2:
        two<1, 1>(r, "VectorPartitioned.asDofs_u.dofs", d, u, [&](auto& a, auto& b) { v.asDofs_u(a, b); });
        two<2, 1>(r, "VectorPartitioned.asDofs_u.node", n, u, [&](auto& a, auto& b) { v.asDofs_u(a, b); });
        two<3, 1>(r, "VectorPartitioned.asDofs_u.elem", e, u, [&](auto& a, auto& b) { v.asDofs_u(a, b); });
        one<1>(r, "VectorPartitioned.AsDofs_u.dofs", d, [&](auto& a) { v.AsDofs_u(a); });
        one<2>(r, "VectorPartitioned.AsDofs_u.node", n, [&](auto& a) { v.AsDofs_u(a); });
        one<3>(r, "VectorPartitioned.AsDofs_u.elem", e, [&](auto& a) { v.AsDofs_u(a); });
        break;
    default:
        two<1, 1>(r, "VectorPartitioned.asDofs_p.dofs", d, q, [&](auto& a, auto& b) { v.asDofs_p(a, b); });
        two<2, 1>(r, "VectorPartitioned.asDofs_p.node", n, q, [&](auto& a, auto& b) { v.asDofs_p(a, b); });
        two<3, 1>(r, "VectorPartitioned.asDofs_p.elem", e, q, [&](auto& a, auto& b) { v.asDofs_p(a, b); });
        one<1>(r, "VectorPartitioned.AsDofs_p.dofs", d, [&](auto& a) { v.AsDofs_p(a); });
        one<2>(r, "VectorPartitioned.AsDofs_p.node", n, [&](auto& a) { v.AsDofs_p(a); });
        one<3>(r, "VectorPartitioned.AsDofs_p.elem", e, [&](auto& a) { v.AsDofs_p(a); });
    }
    vector_ops(r, v, p);
    // malformed partitions: a degree of freedom twice (anywhere in the list), or one that does not exist
    if (np >= 1) {
        auto b = iipv;
        b.insert(b.begin() + r.range(0, b.size()), b[r.range(0, b.size() - 1)]);
        U1 bb = to_u1(b);
        invalid("VectorPartitioned.iip_twice", [&]() { GF::VectorPartitioned w(p.conn, p.dofs, bb); });
        mon::cover("prescribed_twice");
    }
    {
        auto b = iipv;
        b.insert(b.begin() + r.range(0, b.size()), p.ndof + r.range(0, 5));
        U1 bb = to_u1(b);
        invalid("VectorPartitioned.iip_range", [&]() { GF::VectorPartitioned w(p.conn, p.dofs, bb); });
        mon::cover("prescribed_unknown");
    }
    mon::nontrivial(mon::hash({p.h, np}));
    mon::sample(p.what);
}

static void plain(mon::Rng& r)
{
    Prob p = random_problem(r);
    mon::context() = p.what;
    std::unique_ptr<GF::Vector> vp;
    valid("Vector", [&]() { vp = std::make_unique<GF::Vector>(p.conn, p.dofs); });
    if (!vp) return;
    vector_ops(r, *vp, p);
    // an element that refers to a node which does not exist
    U2 c = p.conn;
    c(r.range(0, p.nelem - 1), r.range(0, p.nne - 1)) = p.nnode + r.range(0, 3);
    invalid("Vector.conn_range", [&]() { GF::Vector w(c, p.dofs); });
    // arrays of the wrong rank
    xt::xarray<size_t> c3 = xt::zeros<size_t>({p.nelem, p.nne, size_t(1)});
    xt::xarray<size_t> d1 = xt::zeros<size_t>({p.nnode * p.ndim});
    xt::xarray<size_t> cx = p.conn, dx = p.dofs;
    valid("Vector.xarray", [&]() { GF::Vector w(cx, dx); });
    invalid("Vector.conn_rank", [&]() { GF::Vector w(c3, dx); });
    invalid("Vector.dofs_rank", [&]() { GF::Vector w(cx, d1); });
    mon::nontrivial(p.h);
}

static void tied(mon::Rng& r)
{
    auto t = random_tied(r);
    mon::context() = t.what;
    S1 d{t.ndof}, i{t.nni};
    S2 n{t.nnode, t.nd};
    U2 dofs = t.per.dofs();
    std::unique_ptr<GF::VectorPartitionedTyings> vp;
    auto Cdu = t.per.Cdu(), Cdp = t.per.Cdp(), Cdi = t.per.Cdi();
    valid("VectorPartitionedTyings", [&]() { vp = std::make_unique<GF::VectorPartitionedTyings>(t.p.conn, dofs, Cdu, Cdp, Cdi); });
    if (!vp) return;
    auto& v = *vp;
    one<2>(r, "VectorPartitionedTyings.AsDofs_i", n, [&](auto& a) { v.AsDofs_i(a); });
    two<2, 1>(r, "VectorPartitionedTyings.asDofs_i", n, i, [&](auto& a, auto& b) { v.asDofs_i(a, b); });
    // copy_p: full or independent vectors, of no other size
    {
        size_t bad = t.ndof + t.nni + r.range(1, 3);
        D1 a = make<1>(r, d, false), b = make<1>(r, d, false), c = make<1>(r, S1{bad}, false);
        valid("VectorPartitionedTyings.copy_p", [&]() { v.copy_p(a, b); });
        D1 b0 = b;
        invalid("VectorPartitionedTyings.copy_p.in", [&]() { v.copy_p(c, b); });
        invalid("VectorPartitionedTyings.copy_p.out", [&]() { v.copy_p(a, c); });
        mon::ok(same(b, b0), "malformed.wrote.VectorPartitionedTyings.copy_p");
    }
    // tying matrices that do not belong together
    {
        Eigen::SparseMatrix<double> A(Cdp.rows() + 1 + (long)r.range(0, 2), Cdp.cols());
        invalid("VectorPartitionedTyings.Cdp_rows", [&]() { GF::VectorPartitionedTyings w(t.p.conn, dofs, Cdu, A, Cdi); });
        Eigen::SparseMatrix<double> B(Cdu.rows() + 1, Cdu.cols());
        invalid("VectorPartitionedTyings.Cdu_rows", [&]() { GF::VectorPartitionedTyings w(t.p.conn, dofs, B, Cdp, Cdi); });
        Eigen::SparseMatrix<double> C(Cdi.rows(), Cdi.cols() + 1 + (long)r.range(0, 2));
        invalid("VectorPartitionedTyings.Cdi_cols", [&]() { GF::VectorPartitionedTyings w(t.p.conn, dofs, Cdu, Cdp, C); });
        Eigen::SparseMatrix<double> D(Cdi.rows() + 1, Cdi.cols());
        invalid("VectorPartitionedTyings.Cdi_rows", [&]() { GF::VectorPartitionedTyings w(t.p.conn, dofs, Cdu, Cdp, D); });
        mon::cover("tying_matrices");
    }
    // the tyings themselves
    U2 ties = t.ties;
    ties(r.range(0, ties.shape(0) - 1), r.range(0, 1)) = t.nnode + r.range(0, 3);
    invalid("Periodic.ties_range", [&]() { GF::Tyings::Periodic w(t.coor, t.dofs, t.control, ties); });
    U2 ctl = t.control;
    ctl(r.range(0, t.nd - 1), r.range(0, t.nd - 1)) = t.ndof + r.range(0, 3);
    invalid("Periodic.control_range", [&]() { GF::Tyings::Periodic w(t.coor, t.dofs, ctl, t.ties); });
    U2 ctl2 = xt::zeros<size_t>({t.nd, t.nd + 1});
    invalid("Periodic.control_shape", [&]() { GF::Tyings::Periodic w(t.coor, t.dofs, ctl2, t.ties); });
    U2 t3 = xt::zeros<size_t>({t.ties.shape(0), size_t(3)});
    invalid("Periodic.ties_shape", [&]() { GF::Tyings::Periodic w(t.coor, t.dofs, t.control, t3); });
    U1 iip = to_u1(t.iip);
    U1 iip2 = xt::empty<size_t>({iip.size() + 1});
    for (size_t k = 0; k < iip.size(); ++k) iip2(k) = iip(k);
    iip2(iip.size()) = t.ndof + r.range(0, 3);
    invalid("Periodic.iip_range", [&]() { GF::Tyings::Periodic w(t.coor, t.dofs, t.control, t.ties, iip2); });
    D2 c2 = make<2>(r, n, true);
    invalid("Periodic.coor_shape", [&]() { GF::Tyings::Periodic w(c2, t.dofs, t.control, t.ties); }, shp(c2.shape()));
    D2 c3 = make<2>(r, S2{t.p.nnode, t.nd}, true);
    invalid("Control.shape", [&]() { GF::Tyings::Control w(c3, t.p.dofs); }, shp(c3.shape()));
    mon::nontrivial(mon::hash({t.p.h, t.np, 7}));
}

void run_case(mon::Rng& r)
{
    switch (r.range(0, 2)) {
    case 0: plain(r); break;
    case 1: partitioned(r); break;
    default: tied(r);
    }
}
