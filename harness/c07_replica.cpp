// C07: a refined quad mesh is reconstructed exactly from its nodal coordinates and connectivity;
// anything that is not such a mesh is rejected with an exception.
#include "ref.h"
#include <GooseFEM/MeshQuad4.h>
using namespace ref;
namespace GF = GooseFEM;

void run_case(mon::Rng& r)
{
    bool th = mon::thorough();
    size_t nx = r.coin(0.5) ? 3 * r.range(1, th ? 40 : 14) : r.range(1, th ? 60 : 24);
    size_t ny = r.range(1, th ? 140 : 60);
    if (r.coin(0.15)) {
        nx = r.range(1, 3);
    }
    if (r.coin(0.06)) { // three levels of refinement, or four
        nx = 27 * r.range(1, 3);
        ny = nx == 81 ? r.range(320, 345) : r.range(104, 150);
    }
    if (r.coin(0.06)) {
        nx = ny = 1;
    }
    static const std::vector<double> hs = {1.0, 0.1, 0.3, 0.7, 1.0 / 3.0, 3.14159265358979323846, 1e-2, 1e-3, 100.0};
    double h = r.coin(0.7) ? r.pick(hs) : r.logu(1e-3, 1e3);
    mon::context() = fmt("FineLayer(%zu, %zu, %.17g)", nx, ny, h);
    mon::sample(mon::context());
    mon::nontrivial(mon::hash({nx, ny, mon::hashd(h)}));
    GF::Mesh::Quad4::FineLayer m(nx, ny, h);
    {
        size_t levels = 0;
        for (size_t n = xt::amax(m.elemrow_nhx())(); n >= 3; n /= 3) ++levels;
        mon::cover(fmt("levels.%zu", levels));
    }
    auto x = m.coor();
    auto c = m.conn();
    try {
        GF::Mesh::Quad4::FineLayer n(x, c);
        mon::ok(umat(n.conn()) == umat(c), "replica.conn");
        mon::close_seq(n.coor(), x, 1e-9 * h * (nx + ny), "replica.coor");
        mon::ok(n.nelx() == m.nelx() && n.nely() == m.nely() && n.nelem() == m.nelem() && n.nnode() == m.nnode(), "replica.size", fmt("nely %zu, expected %zu", n.nely(), m.nely()));
        mon::close(n.h(), h, 1e-9 * h * nx, "replica.h");
        mon::ok(uvec(n.elemrow_nelem()) == uvec(m.elemrow_nelem()) && uvec(n.elemrow_nhx()) == uvec(m.elemrow_nhx()) && uvec(n.elemrow_nhy()) == uvec(m.elemrow_nhy()), "replica.layers");
        mon::ok(uvec(n.elementsMiddleLayer()) == uvec(m.elementsMiddleLayer()), "replica.middle");
        mon::ok(uvec(n.nodesLeftEdge()) == uvec(m.nodesLeftEdge()) && uvec(n.nodesTopEdge()) == uvec(m.nodesTopEdge()), "replica.nodesets");
        mon::cover(m.elemrow_nhx()(0) > 1 ? "refined" : "uniform");
    }
    catch (const std::exception& e) {
        mon::ok(false, "replica.accepted", e.what());
    }
    // with a thicker fine zone: the identical mesh, or refused
    if (r.coin(0.3)) {
        GF::Mesh::Quad4::FineLayer f(nx, ny, h, r.range(2, 9));
        try {
            GF::Mesh::Quad4::FineLayer n(f.coor(), f.conn());
            mon::ok(umat(n.conn()) == umat(f.conn()) && uvec(n.elemrow_nhx()) == uvec(f.elemrow_nhx()), "replica.nfine");
            mon::close_seq(n.coor(), f.coor(), 1e-9 * h * (nx + ny), "replica.nfine");
            mon::cover("nfine.accepted");
        }
        catch (const std::exception& e) {
            mon::cover("nfine.refused");
        }
    }
    // meshes that are not a refined mesh: must be rejected, not accepted and not crash
    for (size_t k = 0; k < 3; ++k) {
        auto y = x;
        auto d = c;
        size_t kind = r.range(0, 9), nel = d.shape(0), nnd = y.shape(0);
        double s = r.pick(std::vector<double>{-2, -1.1, -1, -0.9, -0.5, 0.4, 0.8, 1.2, 1.7, 2, 3});
        size_t i = r.range(0, 1);
        if (kind == 0) { // displaced node
            y(r.range(0, nnd - 1), i) += (r.coin() ? 1 : -1) * r.uni(0.1, 0.4) * h;
        }
        else if (kind == 1) { // two elements swapped
            if (nel == 1) continue;
            size_t a = r.range(0, nel - 1), b = (a + r.range(1, nel - 1)) % nel;
            for (size_t j = 0; j < 4; ++j) std::swap(d(a, j), d(b, j));
        }
        else if (kind == 2) { // last element(s) removed
            if (nel == 1) continue;
            decltype(d) t = xt::view(c, xt::range(0, r.range(1, nel - 1)), xt::all());
            d = t;
        }
        else if (kind == 3) { // extra node
            decltype(y) t = xt::empty<double>({nnd + 1, size_t(2)});
            xt::view(t, xt::range(0, nnd), xt::all()) = x;
            t(nnd, 0) = x(nnd - 1, 0);
            t(nnd, 1) = x(nnd - 1, 1);
            y = t;
        }
        else if (kind == 4) { // stretched (or mirrored) in one direction: the elements are not square
            for (size_t n = 0; n < nnd; ++n) y(n, i) *= s;
        }
        else if (kind == 5) { // at another place
            for (size_t n = 0; n < nnd; ++n) y(n, i) += s * h;
        }
        else if (kind == 6) { // sheared
            for (size_t n = 0; n < nnd; ++n) y(n, i) += s * x(n, 1 - i);
        }
        else if (kind == 7) { // the nodes of an element in another order
            size_t a = r.range(0, nel - 1), b = r.range(1, 3);
            for (size_t j = 0; j < 4; ++j) d(a, j) = c(a, (j + b) % 4);
        }
        else if (kind == 8) { // other numbers for the nodes
            auto q = r.perm(nnd);
            bool id = true;
            for (size_t n = 0; n < nnd; ++n) id = id && q[n] == n;
            if (id) continue;
            for (size_t n = 0; n < nnd; ++n) y(q[n], 0) = x(n, 0), y(q[n], 1) = x(n, 1);
            for (size_t a = 0; a < nel; ++a)
                for (size_t j = 0; j < 4; ++j) d(a, j) = q[c(a, j)];
        }
        else { // an element that occurs twice, the last one or an additional one
            size_t a = r.range(0, nel - 1), extra = r.coin() || a == nel - 1;
            decltype(d) t = xt::empty<size_t>({nel + extra, size_t(4)});
            xt::view(t, xt::range(0, nel), xt::all()) = c;
            for (size_t j = 0; j < 4; ++j) t(nel - 1 + extra, j) = c(a, j);
            d = t;
        }
        mon::throws([&]() { GF::Mesh::Quad4::FineLayer n(y, d); }, "replica.reject", fmt("kind %zu factor %g direction %zu", kind, s, i));
        mon::cover(fmt("rejected_%zu", kind));
        if (nel == 1) mon::cover("rejected.single_element");
    }
}
