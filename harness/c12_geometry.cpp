// C12: geometric queries (edge sizes, centres, nodal mass, centre of gravity, element-type, maps).
#include "ref.h"
#include <GooseFEM/GooseFEM.h>
using namespace ref;
namespace GF = GooseFEM;
typedef GF::array_type::tensor<double, 2> D2;
typedef GF::array_type::tensor<size_t, 2> U2;

// orientation of triangles: -1 for the sense of rotation of the library's own meshes
static void triangles(mon::Rng& r)
{
    double h = r.coin(0.4) ? 1.0 : r.logu(1e-8, 1e6);
    D2 x;
    U2 c;
    bool own = r.coin(0.5);
    if (own) {
        GF::Mesh::Tri3::Regular m(r.range(1, 6), r.range(1, 6), h);
        x = m.coor(), c = m.conn();
        auto o = GF::Mesh::Tri3::getOrientation(x, c);
        bool all = o.size() == c.shape(0);
        for (auto v : o) {
            all = all && v == -1;
        }
        mon::ok(all, "orientation.own_mesh");
    }
    else {
        size_t n = r.range(3, 20), ne = r.range(1, 30);
        x = xt::empty<double>({n, size_t(2)});
        for (auto& v : x) {
            v = h * r.uni(-1, 1);
        }
        c = xt::empty<size_t>({ne, size_t(3)});
        for (size_t e = 0; e < ne; ++e) {
            auto p = r.perm(n);
            for (size_t i = 0; i < 3; ++i) {
                c(e, i) = p[i];
            }
        }
    }
    size_t ne = c.shape(0);
    // some elements numbered in the other direction
    for (size_t e = 0; e < ne; ++e) {
        if (r.coin(0.5)) {
            std::swap(c(e, r.range(0, 1)), c(e, 2));
        }
    }
    mon::context() = fmt("triangles nelem=%zu h=%g own=%d", ne, h, own);
    mon::nontrivial(mon::hash({77, ne, r.s}));
    auto area = [&](const U2& k, size_t e) {
        double ax = x(k(e, 1), 0) - x(k(e, 0), 0), ay = x(k(e, 1), 1) - x(k(e, 0), 1);
        double bx = x(k(e, 2), 0) - x(k(e, 0), 0), by = x(k(e, 2), 1) - x(k(e, 0), 1);
        return (ax * by - ay * bx) / h / h;
    };
    auto o = GF::Mesh::Tri3::getOrientation(x, c);
    if (!mon::ok(o.size() == ne, "orientation.size")) {
        return;
    }
    int target = r.coin() ? 1 : -1;
    U2 k1 = GF::Mesh::Tri3::setOrientation(x, c, target), k2 = GF::Mesh::Tri3::setOrientation(x, c, o, target);
    if (target == -1) {
        mon::ok(k1 == GF::Mesh::Tri3::setOrientation(x, c), "orientation.default");
    }
    mon::ok(k1 == k2, "orientation.overloads_agree");
    mon::ok(k1.shape(0) == ne && k1.shape(1) == 3, "orientation.shape");
    size_t swapped = 0;
    for (size_t e = 0; e < ne; ++e) {
        double a = area(c, e);
        if (std::abs(a) < 1e-9) {
            continue; // degenerate: no orientation
        }
        mon::ok(o(e) == (a > 0 ? -1 : 1), "orientation.value", fmt("element %zu area %g", e, a));
        double b = area(k1, e);
        mon::ok((b > 0 ? -1 : 1) == target, "orientation.set", fmt("element %zu area %g", e, b));
        bool same = true;
        for (size_t i = 0; i < 3; ++i) {
            same = same && k1(e, i) == c(e, i);
        }
        std::multiset<size_t> s(&c(e, 0), &c(e, 0) + 3), t(&k1(e, 0), &k1(e, 0) + 3);
        mon::ok(s == t, "orientation.same_nodes");
        if ((a > 0 ? -1 : 1) == target) {
            mon::ok(same, "orientation.left_alone", fmt("element %zu", e));
        }
        swapped += !same;
    }
    mon::cover("triangles_swapped", swapped);
    mon::cover("triangles", ne);
    mon::sample(mon::context());
}

void run_case(mon::Rng& r)
{
    if (r.coin(0.2)) {
        triangles(r);
        return;
    }
    double h = r.coin(0.4) ? 1.0 : r.logu(1e-2, 1e2);
    size_t nx = r.coin(0.4) ? 3 * r.range(1, 4) : r.range(1, 8), ny = r.range(1, 12);
    bool fine = r.coin(0.5);
    D2 x;
    U2 c;
    if (fine) {
        GF::Mesh::Quad4::FineLayer m(nx, ny, h);
        x = m.coor(), c = m.conn();
    }
    else {
        GF::Mesh::Quad4::Regular m(nx, ny, h);
        x = m.coor(), c = m.conn();
    }
    // deform: affine map (keeps parallelograms) or a jitter of the nodes
    size_t kind = r.range(0, 2);
    if (kind == 1) {
        double a = r.uni(0.5, 2), b = r.uni(-0.5, 0.5), d = r.uni(0.5, 2), ox = r.uni(-3, 3) * h, oy = r.uni(-3, 3) * h;
        for (size_t n = 0; n < x.shape(0); ++n) {
            double p = x(n, 0), q = x(n, 1);
            x(n, 0) = a * p + b * q + ox;
            x(n, 1) = d * q + oy;
        }
    }
    else if (kind == 2) {
        for (auto& v : x) {
            v += r.uni(-0.15, 0.15) * h;
        }
    }
    mon::context() = fmt("fine=%d nx=%zu ny=%zu h=%.17g kind=%zu", fine, nx, ny, h, kind);
    mon::sample(mon::context());
    mon::nontrivial(mon::hash({fine, nx, ny, mon::hashd(h), kind, r.s}));
    auto X = mat(x);
    auto C = umat(c);
    const auto Q4 = GF::Mesh::ElementType::Quad4;
    auto s1 = GF::Mesh::edgesize(x, c), s2 = GF::Mesh::edgesize(x, c, Q4);
    auto g1 = GF::Mesh::centers(x, c), g2 = GF::Mesh::centers(x, c, Q4);
    mon::ok(s1 == s2 && g1 == g2, "type_deduced");
    mon::ok(s1.shape(0) == C.size() && s1.shape(1) == 4 && g1.shape(0) == C.size() && g1.shape(1) == 2, "shape");
    double scale = maxabs(x) + h;
    for (size_t e = 0; e < C.size(); ++e) {
        for (size_t i = 0; i < 4; ++i) {
            auto &p = X[C[e][i]], &q = X[C[e][(i + 1) % 4]];
            mon::close(s1(e, i), std::hypot(p[0] - q[0], p[1] - q[1]), 1e-12 * scale, "edgesize");
        }
        for (size_t d = 0; d < 2; ++d) {
            double m = 0;
            for (auto n : C[e]) {
                m += X[n][d] / 4;
            }
            mon::close(g1(e, d), m, 1e-12 * scale, "centers");
        }
    }
    mon::cover("elements", C.size());
    // lumped mass: total is the area, in each direction; equal to the corner quadrature
    auto m1 = GF::Mesh::nodal_mass(x, c), m2 = GF::Mesh::nodal_mass(x, c, Q4);
    mon::ok(m1 == m2 && m1.shape(0) == X.size() && m1.shape(1) == 2, "nodal_mass.shape");
    vd M(X.size(), 0.0);
    double area = 0, cog[2] = {0, 0}, cogq[2] = {0, 0};
    for (auto& el : C) {
        area += polyarea(X, el);
        auto xe = elem_coor(X, el);
        for (size_t i = 0; i < 4; ++i) {
            vd xi = {(double)quadsign()[i][0], (double)quadsign()[i][1]}, N;
            vvd dN;
            shape(2, xi, N, dN);
            double J = det(jac(2, xe, dN));
            M[el[i]] += J;
            for (size_t d = 0; d < 2; ++d) {
                cogq[d] += J * xe[i][d];
            }
        }
        for (size_t i = 0; i < 4; ++i) {
            auto &p = X[el[i]], &q = X[el[(i + 1) % 4]];
            double cr = p[0] * q[1] - q[0] * p[1];
            cog[0] += (p[0] + q[0]) * cr / 6;
            cog[1] += (p[1] + q[1]) * cr / 6;
        }
    }
    for (size_t d = 0; d < 2; ++d) {
        double t = 0;
        for (size_t n = 0; n < X.size(); ++n) {
            mon::close(m1(n, d), M[n], 1e-11 * scale * scale, "nodal_mass.corner_quadrature");
            t += m1(n, d);
        }
        mon::close(t, area, 1e-10 * scale * scale * C.size(), "nodal_mass.total");
    }
    auto G = GF::Mesh::center_of_gravity(x, c), Gt = GF::Mesh::center_of_gravity(x, c, Q4);
    mon::ok(G == Gt && G.size() == 2, "cog.shape");
    for (size_t d = 0; d < 2; ++d) {
        mon::close(G(d), cogq[d] / area, 1e-10 * scale * C.size(), "cog.lumped");
        if (kind < 2 && !fine) {
            mon::close(G(d), cog[d] / area, 1e-10 * scale * C.size(), "cog.exact_parallelograms");
            mon::cover("cog_exact");
        }
    }
    // element type
    {
        D2 t = xt::zeros<double>({4, 2});
        U2 c3 = xt::zeros<size_t>({1, 3}), c4 = xt::zeros<size_t>({1, 4}), c8 = xt::zeros<size_t>({1, 8});
        D2 t3 = xt::zeros<double>({8, 3});
        mon::ok(GF::Mesh::defaultElementType(t, c3) == GF::Mesh::ElementType::Tri3, "type.tri3");
        mon::ok(GF::Mesh::defaultElementType(t, c4) == GF::Mesh::ElementType::Quad4, "type.quad4");
        mon::ok(GF::Mesh::defaultElementType(t3, c8) == GF::Mesh::ElementType::Hex8, "type.hex8");
        mon::throws([&]() { GF::Mesh::defaultElementType(t, c8); }, "type.reject");
        mon::throws([&]() { GF::Mesh::defaultElementType(t3, c4); }, "type.reject");
        mon::throws([&]() { GF::Mesh::edgesize(x, c, GF::Mesh::ElementType::Hex8); }, "type.unsupported");
        mon::throws([&]() { GF::Mesh::centers(x, c, GF::Mesh::ElementType::Tri3); }, "type.unsupported");
        mon::throws([&]() { GF::Mesh::nodal_mass(x, c, GF::Mesh::ElementType::Unknown); }, "type.unsupported");
    }
    // element map -> node map
    if (fine && kind == 0) {
        GF::Mesh::Quad4::FineLayer m(nx, ny, h);
        size_t n0 = m.elemrow_nelem()(0), n = r.range(0, n0);
        auto em = m.roll(n);
        auto nm = GF::Mesh::elemmap2nodemap(em, x, c);
        mon::ok(nm == GF::Mesh::elemmap2nodemap(em, x, c, Q4), "nodemap.type_deduced");
        double W = nx * h;
        mon::ok(nm.size() == X.size(), "nodemap.size");
        std::vector<char> good(X.size(), 0);
        for (size_t e = 0; e < C.size(); ++e) {
            for (size_t i = 0; i < 4; ++i) {
                good[C[e][i]] |= nm(C[e][i]) == C[em(e)][i];
            }
        }
        for (size_t k = 0; k < X.size(); ++k) {
            if (!mon::ok(nm(k) < X.size(), "nodemap.range")) {
                return;
            }
            mon::ok(good[k], "nodemap.follows_elements", fmt("node %zu", k));
            double d = (X[k][0] - X[nm(k)][0] - n * W / n0) / W;
            mon::ok(std::abs(d - std::round(d)) < 1e-6 && std::abs(X[k][1] - X[nm(k)][1]) < 1e-6 * h, "nodemap.shift", fmt("node %zu -> %zu", k, (size_t)nm(k)));
        }
        mon::cover("nodemap");
    }
}
