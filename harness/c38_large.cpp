// C38: what holds for small problems holds for big ones: more than 2^16 nodes, elements and DOFs (up to a
// few 10^5), checked with oracles whose cost is linear in the size.
#include "matx.h"
#include "mon.h"
#include "tyings.h"
#include <GooseFEM/ElementHex8.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
#include <GooseFEM/Iterate.h>
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
using namespace fe;
namespace GF = GooseFEM;
static const size_t big = 65536;
static uint64_t g_h;

static double pick_h(mon::Rng& r)
{
    return std::ldexp(1.0, (int)r.range(0, 4) - 2);
}
// sizes of a mesh with more than 2^16 nodes
static void sizes(mon::Rng& r, size_t& nx, size_t& ny, size_t elems = 66000)
{
    nx = r.pick(std::vector<size_t>{2, 30, 200, 257, 300, 3000, 30000});
    if (nx == 30000) nx = r.range(23000, 33000);
    ny = elems / nx + 1;
    if (r.coin()) std::swap(nx, ny);
}
static double area(const D2& x, const U2& c, size_t e)
{
    double a = 0;
    size_t n = c.shape(1);
    for (size_t m = 0; m < n; ++m) {
        size_t p = c(e, m), q = c(e, (m + 1) % n);
        a += x(p, 0) * x(q, 1) - x(q, 0) * x(p, 1);
    }
    return 0.5 * a;
}
static bool basics(const D2& x, const U2& conn, size_t nd, size_t nelem, size_t nnode, const std::string& key)
{
    bool good = mon::ok(x.shape(0) == nnode && x.shape(1) == nd, key + ".coor_shape");
    good &= mon::ok(conn.shape(0) == nelem, key + ".conn_shape");
    std::vector<char> used(nnode, 0);
    bool in = true;
    for (auto n : conn)
        if (n < nnode) used[n] = 1;
        else in = false;
    good &= mon::ok(in, key + ".conn_range");
    good &= mon::ok(std::count(used.begin(), used.end(), 0) == 0, key + ".unused_nodes");
    mon::cover("nodes", nnode);
    mon::cover("elements", nelem);
    return good;
}
// positively oriented, with the right total
static void areas(const D2& x, const U2& conn, double total, double lo, double hi, const std::string& key)
{
    double a = 0;
    bool pos = true;
    for (size_t e = 0; e < conn.shape(0); ++e) {
        double i = area(x, conn, e);
        pos = pos && i > lo * (1 - 1e-6) && i < hi * (1 + 1e-6);
        a += i;
    }
    mon::ok(pos, key + ".element_area");
    mon::close(a, total, 1e-6 * total, key + ".total_area");
}
// distinct positions: as integers
static void distinct(const D2& x, double unit, const std::string& key)
{
    std::vector<std::array<long, 3>> p(x.shape(0), {0, 0, 0});
    bool grid = true;
    for (size_t n = 0; n < p.size(); ++n)
        for (size_t i = 0; i < x.shape(1); ++i) {
            double v = x(n, i) / unit;
            p[n][i] = std::lround(v);
            grid = grid && std::abs(v - (double)p[n][i]) < 1e-3;
        }
    mon::ok(grid, key + ".grid");
    std::sort(p.begin(), p.end());
    mon::ok(std::adjacent_find(p.begin(), p.end()) == p.end(), key + ".double_nodes");
}
static void edge(const D2& x, const U1& set, size_t axis, double at, size_t n, double tol, const std::string& key)
{
    mon::ok(set.size() == n, key + ".size", fmt("%zu expected %zu", set.size(), n));
    bool good = true;
    std::set<size_t> s;
    for (auto i : set) good = good && i < x.shape(0) && std::abs(x(i, axis) - at) < tol && s.insert(i).second;
    mon::ok(good, key + ".nodes");
}
template <class M>
static void edges(const M& m, const D2& x, double Lx, double Ly, double h, const std::string& key)
{
    size_t cnt[4] = {0, 0, 0, 0};
    double tol = 1e-4 * h;
    for (size_t n = 0; n < x.shape(0); ++n) {
        cnt[0] += std::abs(x(n, 1)) < tol;
        cnt[1] += std::abs(x(n, 1) - Ly) < tol;
        cnt[2] += std::abs(x(n, 0)) < tol;
        cnt[3] += std::abs(x(n, 0) - Lx) < tol;
    }
    edge(x, m.nodesBottomEdge(), 1, 0, cnt[0], tol, key + ".bottom");
    edge(x, m.nodesTopEdge(), 1, Ly, cnt[1], tol, key + ".top");
    edge(x, m.nodesLeftEdge(), 0, 0, cnt[2], tol, key + ".left");
    edge(x, m.nodesRightEdge(), 0, Lx, cnt[3], tol, key + ".right");
    // ties connect opposite sides
    U2 ties = m.nodesPeriodic(), D = m.dofsPeriodic();
    bool good = ties.shape(0) == cnt[0] + cnt[2] - 1;
    for (size_t i = 0; i < ties.shape(0) && good; ++i) {
        double dx = std::abs(x(ties(i, 1), 0) - x(ties(i, 0), 0)), dy = std::abs(x(ties(i, 1), 1) - x(ties(i, 0), 1));
        good = (dx < tol || std::abs(dx - Lx) < tol) && (dy < tol || std::abs(dy - Ly) < tol) && dx + dy > tol;
        for (size_t j = 0; j < 2; ++j) good = good && D(ties(i, 0), j) == D(ties(i, 1), j);
    }
    mon::ok(good, key + ".periodic");
    std::vector<size_t> f(D.begin(), D.end());
    std::sort(f.begin(), f.end());
    f.erase(std::unique(f.begin(), f.end()), f.end());
    mon::ok(f.size() == 2 * (x.shape(0) - ties.shape(0)) && f.back() + 1 == f.size(), key + ".dofsPeriodic");
}

static void mesh2d(mon::Rng& r)
{
    double h = pick_h(r);
    size_t nx, ny;
    sizes(r, nx, ny);
    int kind = (int)r.range(0, 2);
    mon::context() = fmt("mesh %d %zux%zu h=%g", kind, nx, ny, h);
    g_h = mon::hash({1, (uint64_t)kind, nx, ny});
    if (kind == 0) {
        GF::Mesh::Quad4::Regular m(nx, ny, h);
        D2 x = m.coor();
        U2 c = m.conn();
        if (!basics(x, c, 2, nx * ny, (nx + 1) * (ny + 1), "quad")) return;
        areas(x, c, h * h * (double)(nx * ny), h * h, h * h, "quad");
        distinct(x, h, "quad");
        edges(m, x, h * (double)nx, h * (double)ny, h, "quad");
        U2 g = m.elementgrid();
        bool good = g.shape(0) == ny && g.shape(1) == nx;
        for (size_t i = 0; i < ny && good; ++i)
            for (size_t j = 0; j < nx && good; ++j) {
                size_t e = g(i, j);
                double X = 0.25 * (x(c(e, 0), 0) + x(c(e, 1), 0) + x(c(e, 2), 0) + x(c(e, 3), 0)), Y = 0.25 * (x(c(e, 0), 1) + x(c(e, 1), 1) + x(c(e, 2), 1) + x(c(e, 3), 1));
                good = std::abs(X - h * ((double)j + 0.5)) < 1e-3 * h && std::abs(Y - h * ((double)i + 0.5)) < 1e-3 * h;
            }
        mon::ok(good, "quad.elementgrid");
        mon::cover("large.quad");
    }
    else if (kind == 1) {
        nx = nx / 2 + 1;
        GF::Mesh::Tri3::Regular m(nx, ny, h);
        D2 x = m.coor();
        U2 c = m.conn();
        if (!basics(x, c, 2, 2 * nx * ny, (nx + 1) * (ny + 1), "tri")) return;
        areas(x, c, h * h * (double)(nx * ny), 0.5 * h * h, 0.5 * h * h, "tri");
        distinct(x, h, "tri");
        edges(m, x, h * (double)nx, h * (double)ny, h, "tri");
        mon::cover("large.tri");
    }
    else {
        nx = r.pick(std::vector<size_t>{243, 486, 729, 2187, 6561, 19683, 1000, 17000});
        ny = r.range(5, 2000);
        GF::Mesh::Quad4::FineLayer m(nx, ny, h, r.pick(std::vector<size_t>{1, 3, 40}));
        if (m.nelem() > 400000) {
            mon::cover("too_large");
            return;
        }
        D2 x = m.coor();
        U2 c = m.conn();
        double Ly = 0, Lx = h * (double)nx;
        for (size_t n = 0; n < x.shape(0); ++n) Ly = std::max(Ly, x(n, 1));
        if (!basics(x, c, 2, m.nelem(), m.nnode(), "fine")) return;
        areas(x, c, Lx * Ly, h * h, 1e30, "fine");
        distinct(x, h, "fine");
        edges(m, x, Lx, Ly, h, "fine");
        // rows
        U1 n = m.elemrow_nelem();
        size_t sum = 0;
        auto type = m.elemrow_type();
        for (size_t l = 0; l < n.size(); ++l) sum += n(l) * (type(l) == -1 ? 1 : 4); // (blocks of one or four elements)
        mon::ok(sum == m.nelem(), "fine.rows");
        bool good = true;
        for (auto e : m.elementsMiddleLayer()) good = good && e < m.nelem() && std::abs(area(x, c, e) - h * h) < 1e-3 * h * h;
        mon::ok(good && m.elementsMiddleLayer().size() == nx, "fine.middle");
        std::vector<char> seen(m.nelem(), 0);
        good = true;
        for (size_t l = 0; l < n.size(); ++l)
            for (auto e : m.elementsLayer(l)) good = good && e < seen.size() && !seen[e]++;
        mon::ok(good && std::count(seen.begin(), seen.end(), 0) == 0, "fine.layers");
        // rolled by one coarsest element
        auto roll = m.roll(1);
        std::vector<char> hit(m.nelem(), 0);
        good = roll.size() == m.nelem();
        for (auto e : roll) good = good && e < hit.size() && !hit[e]++;
        mon::ok(good, "fine.roll");
        mon::cover("large.fine");
        if (m.nelem() > big) mon::cover("fine_beyond_16_bits");
    }
}

static void mesh3d(mon::Rng& r)
{
    double h = pick_h(r);
    size_t nx = r.range(1, 60), ny = r.range(1, 60), nz = 66000 / (nx * ny) + 1;
    if (r.coin()) std::swap(nx, nz);
    bool fine = r.coin(0.3);
    D2 x;
    U2 c;
    double V, L[3];
    std::string key = fine ? "hexfine" : "hex";
    mon::context() = fmt("%s %zux%zux%zu", key.c_str(), nx, ny, nz);
    if (fine) {
        nx = 9 * r.range(3, 9), nz = 9 * r.range(3, 9), ny = r.range(9, 60);
        GF::Mesh::Hex8::FineLayer m(nx, ny, nz, h);
        x = m.coor(), c = m.conn();
        mon::ok(x.shape(0) == m.nnode() && c.shape(0) == m.nelem(), key + ".shape");
        mon::cover("large.hexfine");
        if (m.nnode() > big) mon::cover("hexfine_beyond_16_bits");
    }
    else {
        GF::Mesh::Hex8::Regular m(nx, ny, nz, h);
        x = m.coor(), c = m.conn();
        if (!basics(x, c, 3, nx * ny * nz, (nx + 1) * (ny + 1) * (nz + 1), key)) return;
        mon::ok(m.nodesBottom().size() == (nx + 1) * (nz + 1) && m.nodesTop().size() == (nx + 1) * (nz + 1), key + ".bottom");
        mon::ok(m.nodesLeft().size() == (nz + 1) * (ny + 1) && m.nodesRight().size() == (nz + 1) * (ny + 1), key + ".left");
        bool good = true;
        U1 a = m.nodesBottom(), b = m.nodesTop(), f = m.nodesFront(), k = m.nodesBack();
        size_t at = 3;
        for (size_t i = 0; i < 3; ++i) {
            double w = 0;
            for (auto n : a) w = std::max(w, x(n, i));
            if (w < 1e-3 * h) at = i;
        }
        mon::ok(at < 3, key + ".bottom_plane");
        for (size_t n = 0; n < a.size() && at < 3; ++n) good = good && std::abs(x(b(n), at) - x(a(n), at)) > 0.5 * h && std::abs(x(b(n), (at + 1) % 3) - x(a(n), (at + 1) % 3)) + std::abs(x(b(n), (at + 2) % 3) - x(a(n), (at + 2) % 3)) < 1e-3 * h;
        mon::ok(good && f.size() == k.size(), key + ".bottom_top");
        U2 D = m.dofsPeriodic();
        std::vector<size_t> d(D.begin(), D.end());
        std::sort(d.begin(), d.end());
        d.erase(std::unique(d.begin(), d.end()), d.end());
        mon::ok(d.size() == 3 * nx * ny * nz && d.back() + 1 == d.size(), key + ".dofsPeriodic");
        mon::cover("large.hex");
    }
    for (size_t i = 0; i < 3; ++i) {
        L[i] = 0;
        for (size_t n = 0; n < x.shape(0); ++n) L[i] = std::max(L[i], x(n, i));
    }
    V = L[0] * L[1] * L[2];
    distinct(x, h / 6, key);
    double v = 0;
    bool pos = true;
    for (size_t e = 0; e < c.shape(0); ++e) {
        vvd xe(8, vd(3));
        for (size_t m = 0; m < 8; ++m)
            for (size_t i = 0; i < 3; ++i) xe[m][i] = x(c(e, m), i);
        double k = volume(3, xe);
        pos = pos && k > 0;
        v += k;
    }
    mon::ok(pos, key + ".positive");
    mon::close(v, V, 1e-6 * V, key + ".volume");
    g_h = mon::hash({2, (uint64_t)fine, nx, ny, nz});
}

// a mesh with more than 2^16 nodes in random order; `thin`: with little fill-in of factorisations
static Prob large(mon::Rng& r, bool thin = false, bool shuffle = true)
{
    Prob p;
    size_t nx, ny;
    sizes(r, nx, ny, 66000);
    if (thin) nx = r.range(33000, 36000), ny = 1;
    GF::Mesh::Quad4::Regular m(nx, ny, 1.0);
    D2 x = m.coor();
    U2 c = m.conn();
    size_t n = x.shape(0);
    std::vector<size_t> q = shuffle ? r.perm(n) : std::vector<size_t>();
    if (!shuffle)
        for (size_t i = 0; i < n; ++i) q.push_back(i);
    p.coor = x;
    p.conn = c;
    p.dofs = xt::empty<size_t>({n, size_t(2)});
    auto d = shuffle ? r.perm(2 * n) : std::vector<size_t>();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < 2; ++j) {
            p.coor(q[i], j) = x(i, j);
            p.dofs(q[i], j) = shuffle ? d[2 * i + j] : 2 * i + j;
        }
    for (auto& i : p.conn) i = q[i];
    p.nelem = c.shape(0), p.nne = 4, p.nnode = n, p.ndim = 2, p.ndof = 2 * n;
    p.what = fmt("%zux%zu%s", nx, ny, shuffle ? " in random order" : "");
    mon::context() = p.what;
    mon::cover("nodes", n);
    mon::cover("elements", p.nelem);
    g_h = mon::mix(g_h, mon::hash({nx, ny, q[0]}));
    return p;
}

static void numbering(mon::Rng& r)
{
    Prob p = large(r);
    size_t n = p.nnode;
    // gaps
    U2 d = p.dofs;
    for (auto& i : d) i = 2 * i + 1;
    U2 re = GF::Mesh::renumber(d);
    GF::Mesh::Renumber R(d);
    U2 ap = R.apply(d);
    bool good = R.index().size() == 2 * p.ndof, same = true;
    for (size_t i = 0; i < n && good; ++i)
        for (size_t j = 0; j < 2; ++j) {
            good = good && re(i, j) == p.dofs(i, j);
            same = same && ap(i, j) == re(i, j) && R.index()(d(i, j)) == re(i, j);
        }
    mon::ok(good, "renumber");
    mon::ok(same, "Renumber");
    auto perm = r.perm(p.ndof);
    size_t cut = r.range(1, p.ndof - 1);
    U1 a = to_u1(vu(perm.begin(), perm.begin() + (ptrdiff_t)cut)), b = to_u1(vu(perm.begin() + (ptrdiff_t)cut, perm.end()));
    GF::Mesh::Reorder O({a, b});
    good = O.index().size() == p.ndof;
    for (size_t i = 0; i < perm.size() && good; ++i) good = O.index()(perm[i]) == i;
    mon::ok(good, "Reorder.index");
    U2 od = O.apply(p.dofs);
    good = true;
    std::vector<size_t> inv(p.ndof);
    for (size_t i = 0; i < perm.size(); ++i) inv[perm[i]] = i;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < 2; ++j) good = good && od(i, j) == inv[p.dofs(i, j)];
    mon::ok(good, "Reorder.apply");
    // topology
    std::vector<vu> ref(n);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t m = 0; m < 4; ++m) ref[p.conn(e, m)].push_back(e);
    U1 N = GF::Mesh::coordination(p.conn);
    good = N.size() == n;
    for (size_t i = 0; i < n && good; ++i) good = N(i) == ref[i].size();
    mon::ok(good, "coordination");
    mon::ok(GF::Mesh::elem2node(p.conn) == ref, "elem2node");
    mon::ok(GF::Mesh::elem2node(p.conn, p.dofs) == ref, "elem2node.dofs");
    auto nd = GF::Mesh::node2dof(p.dofs);
    good = nd.size() == p.ndof;
    for (size_t i = 0; i < n && good; ++i)
        for (size_t j = 0; j < 2; ++j) good = good && nd[p.dofs(i, j)] == vu{i};
    mon::ok(good, "node2dof");
    auto ties = GF::Mesh::nodaltyings(p.dofs);
    good = ties.size() == n;
    for (size_t i = 0; i < n && good; ++i) good = ties[i] == vu{i};
    mon::ok(good, "nodaltyings");
    U2 D = GF::Mesh::dofs(n, 2);
    good = D.shape(0) == n;
    for (size_t i = 0; i < n && good; ++i) good = D(i, 0) == 2 * i && D(i, 1) == 2 * i + 1;
    mon::ok(good, "dofs");
    mon::cover("large.numbering");
}

static void geometry(mon::Rng& r)
{
    Prob p = large(r);
    D2 c = GF::Mesh::centers(p.coor, p.conn), s = GF::Mesh::edgesize(p.coor, p.conn);
    bool good = true, unit = true;
    for (size_t e = 0; e < p.nelem; ++e) {
        for (size_t i = 0; i < 2; ++i) {
            double v = 0;
            for (size_t m = 0; m < 4; ++m) v += 0.25 * p.coor(p.conn(e, m), i);
            good = good && std::abs(v - c(e, i)) < 1e-6;
        }
        for (size_t m = 0; m < 4; ++m) unit = unit && std::abs(s(e, m) - 1.0) < 1e-6;
    }
    mon::ok(good, "centers");
    mon::ok(unit, "edgesize");
    D2 mass = GF::Mesh::nodal_mass(p.coor, p.conn);
    D1 cg = GF::Mesh::center_of_gravity(p.coor, p.conn);
    std::vector<size_t> N(p.nnode, 0);
    for (auto i : p.conn) ++N[i];
    good = mass.shape(0) == p.nnode;
    double L[2] = {0, 0};
    for (size_t i = 0; i < p.nnode && good; ++i)
        for (size_t j = 0; j < 2; ++j) {
            good = good && std::abs(mass(i, j) - 0.25 * (double)N[i]) < 1e-6;
            L[j] = std::max(L[j], p.coor(i, j));
        }
    mon::ok(good, "nodal_mass");
    for (size_t j = 0; j < 2; ++j) mon::close(cg(j), 0.5 * L[j], 1e-6 * L[j], "center_of_gravity");
    // two and three copies on top of each other
    D2 y = p.coor;
    for (size_t i = 0; i < p.nnode; ++i) y(i, 1) += L[1];
    // node by node from left to right
    std::vector<std::pair<double, size_t>> bt, tp;
    for (size_t i = 0; i < p.nnode; ++i) {
        if (std::abs(p.coor(i, 1)) < 1e-6) bt.push_back({p.coor(i, 0), i});
        if (std::abs(p.coor(i, 1) - L[1]) < 1e-6) tp.push_back({p.coor(i, 0), i});
    }
    std::sort(bt.begin(), bt.end()), std::sort(tp.begin(), tp.end());
    vu b, t;
    for (auto& i : bt) b.push_back(i.second);
    for (auto& i : tp) t.push_back(i.second);
    auto check = [&](const D2& X, const U2& C, size_t copies, const std::string& key) {
        if (!basics(X, C, 2, copies * p.nelem, copies * p.nnode - (copies - 1) * b.size(), key)) return;
        bool same = true;
        for (size_t k = 0; k < copies; ++k)
            for (size_t e = 0; e < p.nelem; ++e)
                for (size_t m = 0; m < 4; ++m) {
                    size_t n = C(k * p.nelem + e, m), o = p.conn(e, m);
                    same = same && std::abs(X(n, 0) - p.coor(o, 0)) < 1e-6 && std::abs(X(n, 1) - p.coor(o, 1) - (double)k * L[1]) < 1e-6;
                }
        mon::ok(same, key + ".same_elements");
    };
    GF::Mesh::ManualStitch ms(p.coor, p.conn, to_u1(t), y, p.conn, to_u1(b));
    check(ms.coor(), ms.conn(), 2, "manualstitch");
    GF::Mesh::Vstack v;
    for (int k = 0; k < 3; ++k) v.push_back(p.coor, p.conn, to_u1(b), to_u1(t));
    check(v.coor(), v.conn(), 3, "vstack");
    U1 es = v.elemset(to_u1(vu{p.nelem - 1, 0}), 2);
    mon::ok(es(0) == 3 * p.nelem - 1 && es(1) == 2 * p.nelem, "vstack.elemset");
    U1 ns = v.nodeset(to_u1(t), 2);
    good = true;
    D2 X = v.coor();
    for (size_t i = 0; i < t.size(); ++i) good = good && std::abs(X(ns(i), 1) - 3 * L[1]) < 1e-4 && std::abs(X(ns(i), 0) - p.coor(t[i], 0)) < 1e-6;
    mon::ok(good, "vstack.nodeset");
    mon::cover("large.geometry");
}

static void vectors(mon::Rng& r)
{
    Prob p = large(r);
    auto iip = r.subset(p.ndof, r.range(1, p.ndof - 1));
    std::sort(iip.begin(), iip.end());
    GF::Vector v(p.conn, p.dofs);
    GF::VectorPartitioned vp(p.conn, p.dofs, to_u1(iip));
    mon::ok(v.ndof() == p.ndof && v.nnode() == p.nnode && v.nelem() == p.nelem, "vector.sizes");
    D1 d = xt::empty<double>({p.ndof});
    fill_int(r, d);
    auto dn = [&](const D2& u) {
        bool good = true;
        for (size_t n = 0; n < p.nnode; ++n)
            for (size_t i = 0; i < 2; ++i) good = good && u(n, i) == d(p.dofs(n, i));
        return good;
    };
    auto de = [&](const D3& u) {
        bool good = true;
        for (size_t e = 0; e < p.nelem; ++e)
            for (size_t m = 0; m < 4; ++m)
                for (size_t i = 0; i < 2; ++i) good = good && u(e, m, i) == d(p.dofs(p.conn(e, m), i));
        return good;
    };
    D2 u = v.AsNode(d);
    D3 ue = v.AsElement(d);
    mon::ok(dn(u), "AsNode");
    mon::ok(de(ue), "AsElement");
    mon::ok(de(v.AsElement(u)), "AsElement.nodevec");
    mon::ok(v.AsDofs(u) == d, "AsDofs");
    mon::ok(v.AsDofs(ue) == d, "AsDofs.elemvec");
    mon::ok(dn(v.AsNode(ue)), "AsNode.elemvec");
    std::vector<double> want(p.ndof, 0.0);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t m = 0; m < 4; ++m)
            for (size_t i = 0; i < 2; ++i) want[p.dofs(p.conn(e, m), i)] += ue(e, m, i);
    D1 b = v.AssembleDofs(ue);
    mon::ok(std::equal(want.begin(), want.end(), b.begin()), "AssembleDofs");
    D2 bn = v.AssembleNode(ue);
    bool good = true;
    for (size_t n = 0; n < p.nnode; ++n)
        for (size_t i = 0; i < 2; ++i) good = good && bn(n, i) == want[p.dofs(n, i)];
    mon::ok(good, "AssembleNode");
    // partitioned
    D1 a = vp.AsDofs_u(d), c = vp.AsDofs_p(d);
    vu iiu;
    {
        std::vector<char> is(p.ndof, 0);
        for (auto i : iip) is[i] = 1;
        for (size_t i = 0; i < p.ndof; ++i)
            if (!is[i]) iiu.push_back(i);
    }
    good = a.size() == iiu.size() && c.size() == iip.size();
    for (size_t i = 0; i < iiu.size() && good; ++i) good = a(i) == d(iiu[i]);
    for (size_t i = 0; i < iip.size() && good; ++i) good = c(i) == d(iip[i]);
    mon::ok(good, "AsDofs_u_p");
    mon::ok(vp.AsDofs_u(u) == a && vp.AsDofs_p(u) == c, "AsDofs_u_p.nodevec");
    mon::ok(vp.DofsFromParitioned(a, c) == d, "DofsFromParitioned");
    mon::ok(dn(vp.NodeFromPartitioned(a, c)), "NodeFromPartitioned");
    mon::ok(de(vp.ElementFromPartitioned(a, c)), "ElementFromPartitioned");
    D2 other = xt::zeros<double>({p.nnode, size_t(2)});
    D2 cu = vp.Copy_u(u, other), cp = vp.Copy_p(u, other);
    std::vector<char> is(p.ndof, 0);
    for (auto i : iip) is[i] = 1;
    good = true;
    for (size_t n = 0; n < p.nnode; ++n)
        for (size_t i = 0; i < 2; ++i) good = good && cp(n, i) == (is[p.dofs(n, i)] ? u(n, i) : 0.0) && cu(n, i) == (is[p.dofs(n, i)] ? 0.0 : u(n, i));
    mon::ok(good, "Copy_u_p");
    mon::cover("large.vectors");
}

static void matrices(mon::Rng& r)
{
    Prob p = large(r, true, r.coin());
    size_t N = p.ndof;
    // diagonally dominant, symmetric, the same pattern of values for all elements but for a factor
    double k[8][8];
    for (size_t i = 0; i < 8; ++i)
        for (size_t j = 0; j <= i; ++j) k[i][j] = k[j][i] = i == j ? 16.0 : (double)r.range(0, 2) - 1.0;
    D3 K = xt::empty<double>({p.nelem, size_t(8), size_t(8)});
    for (size_t e = 0; e < p.nelem; ++e) {
        double f = (double)r.range(1, 4);
        for (size_t i = 0; i < 8; ++i)
            for (size_t j = 0; j < 8; ++j) K(e, i, j) = f * k[i][j];
    }
    D1 x = xt::empty<double>({N});
    fill_int(r, x, 50);
    std::vector<double> b(N, 0.0);
    for (size_t e = 0; e < p.nelem; ++e)
        for (size_t m = 0; m < 4; ++m)
            for (size_t i = 0; i < 2; ++i)
                for (size_t n = 0; n < 4; ++n)
                    for (size_t j = 0; j < 2; ++j) b[p.dofs(p.conn(e, m), i)] += K(e, 2 * m + i, 2 * n + j) * x(p.dofs(p.conn(e, n), j));
    auto eq = [&](const D1& a) { return a.size() == N && std::equal(b.begin(), b.end(), a.begin()); };
    auto near = [&](const D1& a, const std::string& key) { mon::close_seq(a, x, 1e-8, key); };
    int kind = (int)r.range(0, 3);
    g_h = mon::mix(g_h, kind);
    vu iip = r.subset(N, r.range(1, N / 2));
    std::sort(iip.begin(), iip.end());
    std::vector<char> is(N, 0);
    for (auto i : iip) is[i] = 1;
    D1 f = xt::empty<double>({N}), f0 = f, xx = x;
    for (size_t i = 0; i < N; ++i) f(i) = b[i], f0(i) = is[i] ? -7.0 : b[i], xx(i) = is[i] ? x(i) : 1e20;
    if (kind == 0) {
        GF::Matrix A(p.conn, p.dofs);
        A.assemble(K);
        mon::ok(eq(A.Dot(x)), "Matrix.Dot");
        GF::MatrixSolver<> S;
        near(S.Solve(A, f), "Matrix.Solve");
        mon::cover("large.Matrix");
    }
    else if (kind == 1) {
        GF::MatrixPartitioned A(p.conn, p.dofs, to_u1(iip));
        A.assemble(K);
        D1 R = A.Reaction(x, f0);
        bool good = true;
        for (size_t i = 0; i < N; ++i) good = good && R(i) == (is[i] ? b[i] : f0(i));
        mon::ok(good, "MatrixPartitioned.Reaction");
        mon::ok(eq(A.Dot(x)), "MatrixPartitioned.Dot");
        GF::MatrixPartitionedSolver<> S;
        near(S.Solve(A, f0, xx), "MatrixPartitioned.Solve");
        mon::cover("large.MatrixPartitioned");
    }
    else {
        // the same without coupling
        std::fill(b.begin(), b.end(), 0.0);
        for (size_t e = 0; e < p.nelem; ++e)
            for (size_t i = 0; i < 8; ++i)
                for (size_t j = 0; j < 8; ++j)
                    if (i != j) K(e, i, j) = 0.0;
        for (size_t e = 0; e < p.nelem; ++e)
            for (size_t m = 0; m < 4; ++m)
                for (size_t i = 0; i < 2; ++i) b[p.dofs(p.conn(e, m), i)] += K(e, 2 * m + i, 2 * m + i) * x(p.dofs(p.conn(e, m), i));
        for (size_t i = 0; i < N; ++i) f(i) = b[i], f0(i) = is[i] ? -7.0 : b[i];
        if (kind == 2) {
            GF::MatrixDiagonal A(p.conn, p.dofs);
            A.assemble(K);
            mon::ok(eq(A.Dot(x)), "MatrixDiagonal.Dot");
            near(A.Solve(f), "MatrixDiagonal.Solve");
            mon::cover("large.MatrixDiagonal");
        }
        else {
            GF::MatrixDiagonalPartitioned A(p.conn, p.dofs, to_u1(iip));
            A.assemble(K);
            mon::ok(eq(A.Dot(x)), "MatrixDiagonalPartitioned.Dot");
            D1 R = A.Reaction(x, f0);
            bool good = true;
            for (size_t i = 0; i < N; ++i) good = good && R(i) == (is[i] ? b[i] : f0(i));
            mon::ok(good, "MatrixDiagonalPartitioned.Reaction");
            D1 u = xt::empty<double>({N - iip.size()}), fu = u, xp = xt::empty<double>({iip.size()});
            size_t iu = 0, ip = 0;
            for (size_t i = 0; i < N; ++i)
                if (is[i]) xp(ip++) = x(i);
                else u(iu) = x(i), fu(iu++) = b[i];
            mon::close_seq(A.Solve_u(fu, xp), u, 1e-8, "MatrixDiagonalPartitioned.Solve_u");
            mon::cover("large.MatrixDiagonalPartitioned");
        }
    }
}

template <class T>
static void quadrature_of(mon::Rng& r, const T& q, const D3& x, double total, size_t tdim, const std::string& key)
{
    size_t ne = x.shape(0), nne = x.shape(1), nd = x.shape(2), ni = q.nip();
    D2 dV = q.dV();
    double v = 0;
    for (auto i : dV) v += i;
    mon::close(v, total, 1e-6 * total, key + ".dV");
    // linear field (axisymmetric: with the axes of the tensors)
    double A[3][3], B[3] = {1, -2, 3};
    for (auto& a : A)
        for (auto& i : a) i = (double)r.range(0, 8) - 4.0;
    D3 u = xt::empty<double>(x.shape());
    for (size_t e = 0; e < ne; ++e)
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < nd; ++i) {
                u(e, m, i) = B[i];
                for (size_t j = 0; j < nd; ++j) u(e, m, i) += A[j][i] * x(e, m, j);
            }
    xt::xtensor<double, 4> g = q.GradN_vector(u);
    D3 pos = q.InterpQuad_vector(x), ui = q.InterpQuad_vector(u);
    bool grad = true, interp = true;
    for (size_t e = 0; e < ne; ++e)
        for (size_t k = 0; k < ni; ++k) {
            for (size_t i = 0; i < nd; ++i) {
                double w = B[i], s = 1;
                for (size_t j = 0; j < nd; ++j) w += A[j][i] * pos(e, k, j), s += 4 * std::abs(pos(e, k, j));
                interp = interp && std::abs(ui(e, k, i) - w) < 1e-8 * s;
            }
            if (tdim == nd)
                for (size_t i = 0; i < nd; ++i)
                    for (size_t j = 0; j < nd; ++j) grad = grad && std::abs(g(e, k, i, j) - A[i][j]) < 1e-6 * std::max(1.0, std::abs(x(e, 0, 0)) * 1e-3);
            else
                grad = grad && std::abs(g(e, k, 2, 2) - A[0][0]) < 1e-3 && std::abs(g(e, k, 0, 0) - A[1][1]) < 1e-3;
        }
    mon::ok(grad, key + ".gradient");
    mon::ok(interp, key + ".interpolation");
    // forces of a constant stress, mass and stiffness: element by element
    xt::xtensor<double, 4> sig = xt::zeros<double>({ne, ni, tdim, tdim});
    for (size_t e = 0; e < ne; ++e)
        for (size_t k = 0; k < ni; ++k)
            for (size_t i = 0; i < tdim; ++i)
                for (size_t j = 0; j < tdim; ++j) sig(e, k, i, j) = (double)((e % 7) + 1) * (i == j ? 1.0 : 0.25);
    D3 f = q.Int_gradN_dot_tensor2_dV(sig);
    D2 rho = xt::empty<double>({ne, ni});
    for (size_t e = 0; e < ne; ++e)
        for (size_t k = 0; k < ni; ++k) rho(e, k) = (double)(e % 5) + 1.0;
    D3 M = q.Int_N_scalar_NT_dV(rho);
    bool force = true, mass = true;
    for (size_t e = 0; e < ne; ++e) {
        // virtual work: f . u = sum sig : grad u dV
        double w = 0, z = 0, s = 1e-12, mm = 0, ve = 0;
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < nd; ++i) w += f(e, m, i) * u(e, m, i), s += std::abs(f(e, m, i) * u(e, m, i));
        for (size_t k = 0; k < ni; ++k) {
            ve += dV(e, k) * rho(e, k);
            for (size_t i = 0; i < tdim; ++i)
                for (size_t j = 0; j < tdim; ++j) z += sig(e, k, i, j) * g(e, k, i, j) * dV(e, k);
        }
        force = force && std::abs(w - z) < 1e-8 * (s + std::abs(z));
        for (size_t m = 0; m < nne; ++m)
            for (size_t n = 0; n < nne; ++n) mm += M(e, m * nd, n * nd);
        mass = mass && std::abs(mm - ve) < 1e-8 * std::abs(ve);
    }
    mon::ok(force, key + ".force");
    mon::ok(mass, key + ".mass");
    mon::cover("large." + key);
}
static void quadrature(mon::Rng& r)
{
    int kind = (int)r.range(0, 3);
    g_h = mon::hash({9, (uint64_t)kind, r.next()});
    if (kind == 3) {
        size_t nx = r.range(20, 40), ny = 66000 / nx / 30 + 1;
        GF::Mesh::Hex8::Regular m(nx, ny, 30, 1.0);
        D3 x = GF::Vector(m.conn(), m.dofs()).AsElement(m.coor());
        mon::context() = fmt("Hex8 %zux%zux30", nx, ny);
        quadrature_of(r, GF::Element::Hex8::Quadrature(x), x, (double)(nx * ny * 30), 3, "Hex8");
        return;
    }
    size_t nx = r.range(200, 400), ny = 66000 / nx + 1;
    GF::Mesh::Quad4::Regular m(nx, ny, 1.0);
    D2 coor = m.coor();
    if (kind == 2)
        for (size_t i = 0; i < coor.shape(0); ++i) coor(i, 1) += 1.0;
    D3 x = GF::Vector(m.conn(), m.dofs()).AsElement(coor);
    mon::context() = fmt("quadrature %d %zux%zu", kind, nx, ny);
    double a = (double)(nx * ny), R = 1.0 + (double)ny;
    if (kind == 0) quadrature_of(r, GF::Element::Quad4::Quadrature(x), x, a, 2, "Quad4");
    if (kind == 1) {
        // (out of plane components are zero)
        GF::Element::Quad4::QuadraturePlanar q(x, 0.5);
        double v = 0;
        for (auto i : q.dV()) v += i;
        mon::close(v, 0.5 * a, 1e-6 * a, "Planar.dV");
        D3 u = xt::empty<double>(x.shape());
        for (size_t e = 0; e < u.shape(0); ++e)
            for (size_t n = 0; n < 4; ++n) u(e, n, 0) = 2.0 * x(e, n, 0) + x(e, n, 1), u(e, n, 1) = 3.0 * x(e, n, 0) - x(e, n, 1);
        auto g = q.GradN_vector(u);
        bool good = true;
        double want[3][3] = {{2, 3, 0}, {1, -1, 0}, {0, 0, 0}};
        for (size_t e = 0; e < g.shape(0); ++e)
            for (size_t k = 0; k < g.shape(1); ++k)
                for (size_t i = 0; i < 3; ++i)
                    for (size_t j = 0; j < 3; ++j) good = good && std::abs(g(e, k, i, j) - want[i][j]) < 1e-6;
        mon::ok(good, "Planar.gradient");
        mon::cover("large.Planar");
    }
    if (kind == 2) quadrature_of(r, GF::Element::Quad4::QuadratureAxisymmetric(x), x, 3.14159265358979323846 * (R * R - 1.0) * (double)nx, 3, "Axisymmetric");
}

static void maps(mon::Rng& r)
{
    if (r.coin()) {
        size_t fx = r.range(1, 3), fy = r.range(1, 3), nx = r.range(100, 300), ny = 66000 / (nx * fx * fy) + 2;
        if (r.coin(0.3)) ny = 66000 / nx + 1, fx = 2, fy = 1;
        GF::Mesh::Quad4::Regular c(nx, ny, 1.0);
        GF::Mesh::Quad4::Map::RefineRegular m(c, fx, fy);
        mon::context() = fmt("refine %zux%zu by %zux%zu", nx, ny, fx, fy);
        g_h = mon::hash({20, nx, ny, fx, fy});
        U2 map = m.map();
        size_t n = nx * ny * fx * fy;
        bool good = map.shape(0) == nx * ny && map.shape(1) == fx * fy;
        std::vector<size_t> owner(n, (size_t)-1);
        for (size_t e = 0; e < map.shape(0) && good; ++e)
            for (size_t k = 0; k < map.shape(1) && good; ++k) {
                size_t f = map(e, k);
                good = f < n && owner[f] == (size_t)-1;
                if (good) owner[f] = e, good = (f % (nx * fx)) / fx == e % nx && f / (nx * fx) / fy == e / nx;
            }
        mon::ok(good, "refine.map");
        if (!good) return;
        D1 v = xt::empty<double>({n});
        fill_int(r, v);
        D1 vc = xt::empty<double>({nx * ny});
        fill_int(r, vc);
        D1 w = m.meanToCoarse(v), f = m.mapToFine(vc);
        std::vector<double> sum(nx * ny, 0.0);
        for (size_t i = 0; i < n; ++i) sum[owner[i]] += v(i);
        bool fine = f.size() == n;
        for (size_t i = 0; i < n && fine; ++i) fine = f(i) == vc(owner[i]);
        mon::ok(fine, "refine.mapToFine");
        good = w.size() == nx * ny;
        for (size_t e = 0; e < nx * ny && good; ++e) good = std::abs(w(e) - sum[e] / (double)(fx * fy)) < 1e-9;
        mon::ok(good, "refine.meanToCoarse");
        mon::cover("large.refine");
    }
    else {
        GF::Mesh::Quad4::FineLayer f(r.pick(std::vector<size_t>{243, 486, 729}), r.range(200, 500), 1.0);
        GF::Mesh::Quad4::Map::FineLayer2Regular m(f);
        mon::context() = fmt("map of %zu elements on %zu", f.nelem(), m.regularMesh().nelem());
        g_h = mon::hash({21, f.nelem(), m.regularMesh().nelem()});
        auto map = m.map();
        auto frac = m.mapFraction();
        size_t nr = m.regularMesh().nelem();
        vd cover(nr, 0.0), want(nr, 0.0);
        D2 x = f.coor();
        U2 c = f.conn();
        D1 v = xt::empty<double>({f.nelem()});
        fill_int(r, v, 100);
        bool good = map.size() == f.nelem(), area_ok = true;
        for (size_t e = 0; e < map.size() && good; ++e) {
            double a = 0;
            for (size_t k = 0; k < map[e].size(); ++k) {
                good = good && map[e][k] < nr;
                cover[map[e][k]] += frac[e][k];
                want[map[e][k]] += frac[e][k] * v(e);
                a += frac[e][k];
            }
            area_ok = area_ok && std::abs(a - area(x, c, e)) < 1e-4;
        }
        mon::ok(good, "fine2regular.range");
        mon::ok(area_ok, "fine2regular.area");
        good = true;
        for (auto i : cover) good = good && std::abs(i - 1.0) < 1e-4;
        mon::ok(good, "fine2regular.covered");
        mon::close_seq(m.mapToRegular(v), want, 1e-3, "fine2regular.mapToRegular");
        mon::cover("large.fine2regular");
        if (nr > big) mon::cover("regular_beyond_16_bits");
    }
}

static void tied(mon::Rng& r)
{
    size_t nx, ny;
    sizes(r, nx, ny, 66000);
    GF::Mesh::Quad4::Regular m(nx, ny, 1.0);
    GF::Tyings::Control ctl(m.coor(), m.dofs());
    U2 ties = m.nodesPeriodic();
    U2 cd = ctl.controlDofs();
    U1 iip = to_u1(vu{cd(0, 0), cd(0, 1), cd(1, 0), cd(1, 1)});
    D2 x = ctl.coor();
    GF::Tyings::Periodic t(x, ctl.dofs(), cd, ties, iip);
    mon::context() = fmt("ties %zux%zu", nx, ny);
    g_h = mon::hash({22, nx, ny});
    size_t N = 2 * m.nnode() + 4;
    mon::ok(t.nnu() + t.nnp() + t.nnd() == N && t.nni() == t.nnu() + t.nnp() && t.nnp() == 4 && t.nnd() == 2 * ties.shape(0), "ties.sizes");
    U2 d = t.dofs();
    std::vector<char> seen(N, 0);
    bool good = true;
    for (auto i : d) good = good && i < N && !seen[i]++;
    mon::ok(good, "ties.dofs");
    if (!good) return;
    U2 c = t.control();
    D1 u = xt::empty<double>({N});
    fill_int(r, u, 100);
    Eigen::VectorXd uu((Eigen::Index)t.nnu()), up((Eigen::Index)t.nnp()), ui((Eigen::Index)t.nni());
    for (size_t i = 0; i < t.nni(); ++i) {
        ui((Eigen::Index)i) = u(i);
        if (i < t.nnu()) uu((Eigen::Index)i) = u(i);
        else up((Eigen::Index)(i - t.nnu())) = u(i);
    }
    Eigen::VectorXd a = t.Cdi() * ui, b = t.Cdu() * uu + t.Cdp() * up;
    bool ga = true, gb = true;
    for (size_t k = 0; k < ties.shape(0); ++k)
        for (size_t i = 0; i < 2; ++i) {
            double w = u(d(ties(k, 0), i));
            for (size_t j = 0; j < 2; ++j) w += u(c(i, j)) * (x(ties(k, 1), j) - x(ties(k, 0), j));
            size_t row = d(ties(k, 1), i) - t.nni();
            good = row < (size_t)a.size();
            ga = ga && good && std::abs(a((Eigen::Index)row) - w) < 1e-6 * (1 + std::abs(w));
            gb = gb && good && std::abs(b((Eigen::Index)row) - w) < 1e-6 * (1 + std::abs(w));
        }
    mon::ok(ga, "ties.Cdi");
    mon::ok(gb, "ties.Cdu_Cdp");
    mon::cover("large.ties");
}

static void stop(mon::Rng& r)
{
    // (every insertion shifts the list)
    size_t n = r.range(66000, 70000);
    GF::Iterate::StopList s(n);
    mon::context() = fmt("StopList(%zu)", n);
    g_h = mon::hash({23, n});
    const auto& d = s.data();
    mon::ok(d.size() == n, "stop.size");
    // `n` residuals, descending but for one place
    size_t at = r.coin(0.3) ? 0 : r.range(1, n - 1);
    double top = 0;
    bool early = false;
    for (size_t i = 0; i < n; ++i) {
        double v = 1.0 - 1e-6 * (double)i;
        if (i == at && at) v = 2.0;
        top = std::max(top, v);
        if (i + 1 < n && i % 1000 == 0) early = early || s.all_less(1e30);
        s.roll_insert(v);
    }
    mon::ok(!early, "stop.early");
    mon::ok(s.all_less(top * (1 + 1e-9)) && !s.all_less(top), "stop.all_less", fmt("at %zu", at));
    mon::ok(s.descending() == (at == 0), "stop.descending", fmt("at %zu", at));
    bool good = true;
    for (size_t i = 0; i < n; ++i) good = good && d[i] == (i == at && at ? 2.0 : 1.0 - 1e-6 * (double)i);
    mon::ok(good, "stop.data");
    mon::cover("large.StopList");
}

void run_case(mon::Rng& r)
{
    g_h = 0;
    static void (*f[])(mon::Rng&) = {mesh2d, mesh2d, mesh3d, numbering, geometry, vectors, matrices, matrices, matrices, quadrature, quadrature, maps, tied, stop};
    f[r.range(0, sizeof(f) / sizeof(f[0]) - 1)](r);
    mon::nontrivial(g_h);
    mon::sample(mon::context());
}
