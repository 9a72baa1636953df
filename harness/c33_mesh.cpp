// C33: malformed arguments of mesh operations are refused by an exception before anything is read or
// written out of bounds. Some checks are always on; the others need a build with assertions.
#include "fe_mesh.h"
#include "reject.h"
#include <GooseFEM/Mesh.h>
using namespace rej;
namespace GF = GooseFEM;
namespace GM = GooseFEM::Mesh;
#ifdef GOOSEFEM_ENABLE_ASSERT
static const bool asserts = true;
#else
static const bool asserts = false;
#endif
template <class F>
static void bad(const std::string& name, F&& f, const std::string& d = "")
{
    if (asserts) invalid(name, f, d);
}
static U2 unknown_node(mon::Rng& r, const U2& conn, size_t nnode)
{
    U2 c = conn;
    c(r.range(0, c.shape(0) - 1), r.range(0, c.shape(1) - 1)) = nnode + r.range(0, 3);
    return c;
}

static void sizes(mon::Rng& r)
{
    size_t n[3] = {r.range(1, 4), r.range(1, 4), r.range(1, 3)};
    mon::context() = fmt("%zux%zux%zu", n[0], n[1], n[2]);
    valid("Quad4.Regular", [&]() { GM::Quad4::Regular m(n[0], n[1]); });
    valid("Tri3.Regular", [&]() { GM::Tri3::Regular m(n[0], n[1]); });
    valid("Hex8.Regular", [&]() { GM::Hex8::Regular m(n[0], n[1], n[2]); });
    valid("Quad4.FineLayer", [&]() { GM::Quad4::FineLayer m(n[0], n[1]); });
    valid("Hex8.FineLayer", [&]() { GM::Hex8::FineLayer m(n[0], n[1], n[2]); });
    size_t k = r.range(0, 2), z[3] = {n[0], n[1], n[2]};
    z[k] = 0;
    bad("Hex8.Regular", [&]() { GM::Hex8::Regular m(z[0], z[1], z[2]); });
    bad("Hex8.FineLayer", [&]() { GM::Hex8::FineLayer m(z[0], z[1], z[2]); });
    size_t y[2] = {n[0], n[1]};
    y[r.range(0, 1)] = 0;
    bad("Quad4.Regular", [&]() { GM::Quad4::Regular m(y[0], y[1]); });
    bad("Tri3.Regular", [&]() { GM::Tri3::Regular m(y[0], y[1]); });
    bad("Quad4.FineLayer", [&]() { GM::Quad4::FineLayer m(y[0], y[1]); });
    mon::nontrivial(mon::hash({1, n[0], n[1], n[2], k}));
}

static void selections(mon::Rng& r)
{
    size_t nx = 3 * r.range(1, 4), ny = r.range(3, 20);
    GM::Quad4::FineLayer m(nx, ny);
    mon::context() = fmt("FineLayer(%zu,%zu)", nx, ny);
    size_t L = m.elemrow_nelem().size();
    std::string what;
    if (r.coin()) {
        size_t l = r.range(0, L - 1);
        valid("FineLayer.elementsLayer", [&]() { m.elementsLayer(l); });
        bad("FineLayer.elementsLayer", [&]() { m.elementsLayer(L + r.range(0, 3)); });
    }
    // a window: rows and columns of the refined box
    {
        size_t NX = m.nelx(), NY = m.nely();
        auto rows = [&](size_t a, size_t b) { return std::vector<size_t>{a, b}; };
        size_t a = r.range(0, NY - 1), b = r.range(a + 1, NY), c = r.range(0, NX - 1), d = r.range(c + 1, NX);
        valid("FineLayer.elementgrid_ravel", [&]() { m.elementgrid_ravel(rows(a, b), rows(c, d)); });
        valid("FineLayer.elementgrid_ravel.all", [&]() { m.elementgrid_ravel({}, {}); });
        bad("FineLayer.elementgrid_ravel.rows", [&]() { m.elementgrid_ravel(rows(a, NY + r.range(1, 3)), rows(c, d)); });
        bad("FineLayer.elementgrid_ravel.cols", [&]() { m.elementgrid_ravel(rows(a, b), rows(c, NX + r.range(1, 3))); });
        bad("FineLayer.elementgrid_ravel.size", [&]() { m.elementgrid_ravel(std::vector<size_t>{a}, rows(c, d)); });
        bad("FineLayer.elementgrid_ravel.size", [&]() { m.elementgrid_ravel(rows(a, b), std::vector<size_t>{c, d, d}); });
    }
    // neighbourhoods: of an element in the middle layer, in a periodic mesh; both always checked
    {
        auto mid = m.elementsMiddleLayer();
        size_t e = mid(r.range(0, mid.size() - 1)), s = r.range(0, std::min<size_t>(2, (mid.size() - 1) / 2));
        valid("FineLayer.elementgrid_around_ravel", [&]() { m.elementgrid_around_ravel(e, s); });
        valid("FineLayer.elementgrid_leftright", [&]() { m.elementgrid_leftright(e, s, s); });
        invalid("FineLayer.elementgrid_around_ravel.open", [&]() { m.elementgrid_around_ravel(e, s, false); });
        invalid("FineLayer.elementgrid_leftright.open", [&]() { m.elementgrid_leftright(e, s, s, false); });
        std::set<size_t> in(mid.begin(), mid.end());
        size_t o = r.range(0, m.nelem() - 1);
        if (!in.count(o)) {
            invalid("FineLayer.elementgrid_around_ravel.layer", [&]() { m.elementgrid_around_ravel(o, s); }, fmt("element %zu", o));
            invalid("FineLayer.elementgrid_leftright.layer", [&]() { m.elementgrid_leftright(o, s, s); }, fmt("element %zu", o));
            mon::cover("not_in_middle_layer");
        }
    }
    mon::nontrivial(mon::hash({2, nx, ny}));
}

static void replica(mon::Rng& r)
{
    size_t nx = 3 * r.range(1, 3), ny = r.range(3, 15);
    double h = r.logu(0.3, 3);
    GM::Quad4::FineLayer m(nx, ny, h);
    mon::context() = fmt("FineLayer(%zu,%zu,%g)", nx, ny, h);
    D2 x = m.coor();
    U2 c = m.conn();
    valid("FineLayer.replica", [&]() { GM::Quad4::FineLayer w(x, c); });
    // always checked: another mesh
    {
        D2 y = x;
        size_t k = r.range(0, y.shape(0) - 1);
        y(k, r.range(0, 1)) += h * r.uni(0.1, 0.5);
        invalid("FineLayer.replica.moved_node", [&]() { GM::Quad4::FineLayer w(y, c); }, fmt("node %zu", k));
        U2 d = c;
        size_t e = r.range(0, d.shape(0) - 1);
        std::swap(d(e, 0), d(e, 2));
        std::swap(d(e, 1), d(e, 3));
        invalid("FineLayer.replica.rotated_element", [&]() { GM::Quad4::FineLayer w(x, d); }, fmt("element %zu", e));
        D2 z = x + r.uni(0.1, 1) * h;
        invalid("FineLayer.replica.shifted", [&]() { GM::Quad4::FineLayer w(z, c); });
        mon::cover("another_mesh");
    }
    if (asserts) {
        U2 d = unknown_node(r, c, x.shape(0));
        invalid("FineLayer.replica.unknown_node", [&]() { GM::Quad4::FineLayer w(x, d); });
        D2 y = xt::zeros<double>({x.shape(0), size_t(3)});
        invalid("FineLayer.replica.coor_shape", [&]() { GM::Quad4::FineLayer w(y, c); });
        U2 e = xt::zeros<size_t>({c.shape(0), size_t(r.coin() ? 3 : 8)});
        invalid("FineLayer.replica.conn_shape", [&]() { GM::Quad4::FineLayer w(x, e); });
        U2 f = xt::zeros<size_t>({size_t(0), size_t(4)});
        invalid("FineLayer.replica.empty", [&]() { GM::Quad4::FineLayer w(x, f); });
    }
    mon::nontrivial(mon::hash({3, nx, ny}));
}

static void maps(mon::Rng& r)
{
    mon::context() = "maps";
    {
        GM::Quad4::Regular m(r.range(1, 3), r.range(1, 3));
        GM::Quad4::Map::RefineRegular f(m, r.range(1, 3), r.range(1, 3));
        size_t nc = f.coarseMesh().nelem(), nf = f.fineMesh().nelem();
        D2 c = make<2>(r, {nc, r.range(1, 3)}, false), d = make<2>(r, {nf, r.range(1, 3)}, false);
        valid("RefineRegular.mapToFine", [&]() { f.mapToFine(c); });
        valid("RefineRegular.meanToCoarse", [&]() { f.meanToCoarse(d); });
        D2 b = make<2>(r, {nc + r.range(1, 2), 1}, false), e = make<2>(r, {nf + r.range(1, 2), 1}, false);
        bad("RefineRegular.mapToFine", [&]() { f.mapToFine(b); });
        bad("RefineRegular.meanToCoarse", [&]() { f.meanToCoarse(e); });
        if (nf > 1) {
            D2 g = make<2>(r, {nf - 1, 1}, false);
            bad("RefineRegular.meanToCoarse", [&]() { f.meanToCoarse(g); });
            bad("RefineRegular.averageToCoarse", [&]() { f.averageToCoarse(g, g); });
        }
        if (nc > 1) {
            D2 g = make<2>(r, {nc - 1, 1}, false);
            bad("RefineRegular.mapToFine", [&]() { f.mapToFine(g); });
        }
    }
    {
        GM::Quad4::FineLayer m(3 * r.range(1, 3), r.range(3, 12));
        GM::Quad4::Map::FineLayer2Regular f(m);
        D2 c = make<2>(r, {m.nelem(), r.range(1, 2)}, false);
        valid("FineLayer2Regular.mapToRegular", [&]() { f.mapToRegular(c); });
        D2 b = make<2>(r, {r.coin() ? m.nelem() - 1 : m.nelem() + 1, 1}, false);
        bad("FineLayer2Regular.mapToRegular", [&]() { f.mapToRegular(b); });
        mon::nontrivial(mon::hash({4, m.nelem()}));
    }
}

static void stitch(mon::Rng& r)
{
    double h = 1;
    size_t nx = r.range(1, 4), na = r.range(1, 3), nb = r.range(1, 3);
    GM::Quad4::Regular A(nx, na, h), B(nx, nb, h);
    mon::context() = fmt("stitch %zux(%zu+%zu)", nx, na, nb);
    D2 xa = A.coor(), xb = B.coor();
    for (size_t i = 0; i < xb.shape(0); ++i) xb(i, 1) += na * h;
    U1 ta = A.nodesTopEdge(), bb = B.nodesBottomEdge();
    valid("ManualStitch", [&]() { GM::ManualStitch s(xa, A.conn(), ta, xb, B.conn(), bb); });
    // always checked (unless switched off): the nodes coincide
    {
        D2 y = xb;
        size_t k = bb(r.range(0, bb.size() - 1));
        y(k, r.range(0, 1)) += r.uni(0.05, 0.4) * h;
        invalid("ManualStitch.position", [&]() { GM::ManualStitch s(xa, A.conn(), ta, y, B.conn(), bb); }, fmt("node %zu", k));
        valid("ManualStitch.position.off", [&]() { GM::ManualStitch s(xa, A.conn(), ta, y, B.conn(), bb, false); });
        mon::cover("not_overlapping");
    }
    GM::ManualStitch s(xa, A.conn(), ta, xb, B.conn(), bb);
    if (asserts) {
        U1 ta2 = xt::view(ta, xt::range(0, (int)ta.size() - 1));
        invalid("ManualStitch.sizes", [&]() { GM::ManualStitch w(xa, A.conn(), ta2, xb, B.conn(), bb, r.coin()); });
        D2 x3 = xt::zeros<double>({xb.shape(0), size_t(3)});
        invalid("ManualStitch.ndim", [&]() { GM::ManualStitch w(xa, A.conn(), ta, x3, B.conn(), bb, r.coin()); });
        U2 c3 = xt::zeros<size_t>({size_t(2), size_t(3)});
        invalid("ManualStitch.nne", [&]() { GM::ManualStitch w(xa, A.conn(), ta, xb, c3, bb, r.coin()); });
        invalid("overlapping.ndim", [&]() { GM::overlapping(xa, x3); });
        size_t i = r.range(2, 5);
        invalid("ManualStitch.nodemap", [&]() { s.nodemap(i); });
        invalid("ManualStitch.elemmap", [&]() { s.elemmap(i); });
        U1 set = xt::arange<size_t>(2);
        invalid("ManualStitch.nodeset.mesh", [&]() { s.nodeset(set, i); });
        invalid("ManualStitch.elemset.mesh", [&]() { s.elemset(set, i); });
        size_t nn[2] = {A.nnode(), B.nnode()}, ne[2] = {A.nelem(), B.nelem()};
        for (size_t j = 0; j < 2; ++j) {
            U1 n = xt::arange<size_t>(nn[j]), e = xt::arange<size_t>(ne[j]);
            valid("ManualStitch.nodeset", [&]() { s.nodeset(n, j); });
            valid("ManualStitch.elemset", [&]() { s.elemset(e, j); });
            n(r.range(0, n.size() - 1)) = nn[j] + r.range(0, 2);
            e(r.range(0, e.size() - 1)) = ne[j] + r.range(0, 2);
            invalid("ManualStitch.nodeset", [&]() { s.nodeset(n, j); });
            invalid("ManualStitch.elemset", [&]() { s.elemset(e, j); });
        }
    }
    // any number of meshes
    GM::Stitch t;
    size_t k = r.range(1, 3);
    std::vector<size_t> nn, ne;
    for (size_t i = 0; i < k; ++i) {
        GM::Quad4::Regular M(nx, r.range(1, 3), h);
        D2 x = M.coor();
        double top = i ? xt::amax(xt::view(t.coor(), xt::all(), 1))() : 0.0;
        for (size_t j = 0; j < x.shape(0); ++j) x(j, 1) += top;
        t.push_back(x, M.conn());
        nn.push_back(M.nnode());
        ne.push_back(M.nelem());
    }
    if (asserts) {
        size_t i = k + r.range(0, 2), j = r.range(0, k - 1);
        U1 set = xt::arange<size_t>(2);
        invalid("Stitch.nodemap", [&]() { t.nodemap(i); });
        invalid("Stitch.elemmap", [&]() { t.elemmap(i); });
        invalid("Stitch.nodeset.mesh", [&]() { t.nodeset(set, i); });
        invalid("Stitch.elemset.mesh", [&]() { t.elemset(set, i); });
        U1 n = xt::arange<size_t>(nn[j]), e = xt::arange<size_t>(ne[j]);
        valid("Stitch.nodeset", [&]() { t.nodeset(n, j); });
        valid("Stitch.elemset", [&]() { t.elemset(e, j); });
        n(r.range(0, n.size() - 1)) = nn[j] + r.range(0, 2);
        e(r.range(0, e.size() - 1)) = ne[j] + r.range(0, 2);
        invalid("Stitch.nodeset", [&]() { t.nodeset(n, j); });
        invalid("Stitch.elemset", [&]() { t.elemset(e, j); });
        std::vector<U1> sets(k + (r.coin() && k > 1 ? -1 : 1), U1(xt::arange<size_t>(1)));
        invalid("Stitch.nodeset.list", [&]() { t.nodeset(sets); });
        invalid("Stitch.elemset.list", [&]() { t.elemset(sets); });
    }
    // stack: bottom and top correspond (size always needs assertions; position is always checked)
    {
        GM::Vstack v;
        v.push_back(A.coor(), A.conn(), A.nodesBottomEdge(), A.nodesTopEdge());
        valid("Vstack", [&]() {
            GM::Vstack w = v;
            w.push_back(B.coor(), B.conn(), B.nodesBottomEdge(), B.nodesTopEdge());
        });
        GM::Quad4::Regular C(nx, nb, h * r.uni(1.1, 2));
        invalid("Vstack.position", [&]() {
            GM::Vstack w = v;
            w.push_back(C.coor(), C.conn(), C.nodesBottomEdge(), C.nodesTopEdge());
        });
        if (asserts) {
            GM::Quad4::Regular D(nx + r.range(1, 2), nb, h);
            invalid("Vstack.size", [&]() {
                GM::Vstack w = v;
                w.push_back(D.coor(), D.conn(), D.nodesBottomEdge(), D.nodesTopEdge());
            });
        }
    }
    mon::nontrivial(mon::hash({5, nx, na, nb, k}));
}

static void geometry(mon::Rng& r)
{
    Prob p = random_mesh(r, 0, false, 3);
    mon::context() = p.what;
    D2 x = p.coor;
    U2 c = p.conn;
    U1 em = xt::arange<size_t>(p.nelem);
    auto T = GM::ElementType::Quad4;
    valid("edgesize", [&]() { GM::edgesize(x, c, T); });
    valid("centers", [&]() { GM::centers(x, c, T); });
    valid("elemmap2nodemap", [&]() { GM::elemmap2nodemap(em, x, c, T); });
    U2 d = unknown_node(r, c, p.nnode);
    bad("edgesize.unknown_node", [&]() { GM::edgesize(x, d, T); });
    bad("centers.unknown_node", [&]() { GM::centers(x, d, T); });
    bad("elemmap2nodemap.unknown_node", [&]() { GM::elemmap2nodemap(em, x, d, T); });
    U1 e2 = xt::zeros<size_t>({r.coin() ? p.nelem + 1 : p.nelem - 1});
    bad("elemmap2nodemap.size", [&]() { GM::elemmap2nodemap(e2, x, c, T); });
    U2 c3 = xt::zeros<size_t>({p.nelem, size_t(r.coin() ? 3 : 8)});
    bad("edgesize.nne", [&]() { GM::edgesize(x, c3, T); });
    bad("centers.nne", [&]() { GM::centers(x, c3, T); });
    bad("elemmap2nodemap.nne", [&]() { GM::elemmap2nodemap(em, x, c3, T); });
    D2 x3 = xt::zeros<double>({p.nnode, size_t(r.coin() ? 1 : 3)});
    bad("edgesize.ndim", [&]() { GM::edgesize(x3, c, T); });
    bad("centers.ndim", [&]() { GM::centers(x3, c, T); });
    bad("elemmap2nodemap.ndim", [&]() { GM::elemmap2nodemap(em, x3, c, T); });
    // other types of elements have no implementation: always refused
    auto O = r.coin() ? GM::ElementType::Hex8 : GM::ElementType::Tri3;
    invalid("edgesize.type", [&]() { GM::edgesize(x, c, O); });
    invalid("centers.type", [&]() { GM::centers(x, c, O); });
    invalid("nodal_mass.type", [&]() { GM::nodal_mass(x, c, O); });
    U2 c5 = xt::zeros<size_t>({size_t(2), size_t(5)});
    invalid("defaultElementType", [&]() { GM::defaultElementType(x, c5); });
    // triangles
    Prob t = random_mesh(r, 2, false, 3);
    valid("setOrientation", [&]() { GM::Tri3::setOrientation(t.coor, t.conn, 1); });
    bad("setOrientation.sign", [&]() { GM::Tri3::setOrientation(t.coor, t.conn, 0); });
    bad("setOrientation.sign2", [&]() { GM::Tri3::setOrientation(t.coor, t.conn, 2); });
    bad("getOrientation.nne", [&]() { GM::Tri3::getOrientation(t.coor, c); });
    xt::xtensor<int, 1> val = xt::ones<int>({t.nelem + (r.coin() ? 1 : -1)});
    bad("setOrientation.size", [&]() { GM::Tri3::setOrientation(t.coor, t.conn, val, 1); });
    D2 t3 = xt::zeros<double>({t.nnode, size_t(3)});
    bad("getOrientation.ndim", [&]() { GM::Tri3::getOrientation(t3, t.conn); });
    bad("setOrientation.ndim", [&]() { GM::Tri3::setOrientation(t3, t.conn, 1); });
    mon::nontrivial(p.h);
}

static void numbers(mon::Rng& r)
{
    if (!asserts) return;
    mon::context() = "numbers";
    // a number twice within one list
    size_t n = r.range(3, 12), k = r.range(1, n - 1);
    auto q = r.perm(n);
    vu a(q.begin(), q.begin() + k), b(q.begin() + k, q.end());
    U1 ua = to_u1(a), ub = to_u1(b);
    valid("Reorder", [&]() { GM::Reorder w({ua, ub}); });
    auto& x = (r.coin() ? a : b);
    x.insert(x.begin() + r.range(0, x.size()), x[r.range(0, x.size() - 1)]);
    U1 va = to_u1(a), vb = to_u1(b);
    invalid("Reorder.twice", [&]() { GM::Reorder w({va, vb}); });
    // nodes of which one component is tied to other nodes than another component
    size_t m = r.range(3, 8);
    U2 d = xt::arange<size_t>(2 * m).reshape({m, size_t(2)});
    auto s = r.subset(m, 2);
    for (size_t j = 0; j < 2; ++j) d(s[1], j) = d(s[0], j);
    valid("nodaltyings", [&]() { GM::nodaltyings(d); });
    U2 e = d;
    e(s[1], r.range(0, 1)) = 2 * m;
    invalid("nodaltyings.inconsistent", [&]() { GM::nodaltyings(e); });
    mon::nontrivial(mon::hash({7, n, k, m, s[0], s[1]}));
}

void run_case(mon::Rng& r)
{
    switch (r.range(0, 6)) {
    case 0: sizes(r); break;
    case 1: selections(r); break;
    case 2: replica(r); break;
    case 3: maps(r); break;
    case 4: stitch(r); break;
    case 5: geometry(r); break;
    default: numbers(r);
    }
    mon::sample(mon::context());
}
