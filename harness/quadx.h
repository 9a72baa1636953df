// Random elements (distorted, skewed, stretched), random quadrature rules, and an independent
// reference for everything an element class computes. One description for all element classes:
// the operator B[e][q][m][c] (a tdim x tdim matrix) such that
//     gradu(i, j) = sum_{m, c} B[e][q][m][c](i, j) u(m, c)
#ifndef QUADX_H
#define QUADX_H
#include "fe_mesh.h"
#include <GooseFEM/Element.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
#include <GooseFEM/ElementHex8.h>
namespace fe {
typedef Tensor<double, 4> D4;
typedef Tensor<double, 6> D6;
enum Kind { QUAD = 0, HEX = 1, PLANAR = 2, AXI = 3 };
inline const char* kindname(Kind k)
{
    static const char* n[] = {"Quad4", "Hex8", "Quad4Planar", "Quad4Axisymmetric"};
    return n[k];
}
struct QC {
    Kind kind;
    size_t nelem, nne, ndim, tdim, nip;
    bool meshed = false; // elements come from a conforming mesh `p`
    Prob p;
    std::vector<vvd> x; // [e][m][i]
    vvd xi;
    vd w;
    std::string rule, what;
    double thick = 1.0;
    bool def_rule = false, def_thick = false; // use the constructors' defaults
    // reference
    vvd N; // [q][m]
    std::vector<std::vector<vvd>> dN; // [e][q][m][i]
    vvd vol, detJ; // [e][q]
    double size = 1; // length scale of the coordinates
    double gs = 1; // scale of the gradients
    double vs = 1; // scale of the volumes
    uint64_t h = 0;
    double B(size_t e, size_t q, size_t m, size_t c, size_t i, size_t j) const
    {
        if (kind != AXI) {
            return (c == j && i < ndim) ? dN[e][q][m][i] : 0.0;
        }
        // node: 0 = z, 1 = r; tensor: 0 = r, 1 = theta, 2 = z
        static const int ax[3] = {1, -1, 0};
        if (i == 1 && j == 1) return c == 1 ? N[q][m] / radius(e, q) : 0.0;
        if (i == 1 || j == 1) return 0.0;
        return (int)c == ax[j] ? dN[e][q][m][ax[i]] : 0.0;
    }
    double radius(size_t e, size_t q) const
    {
        double s = 0;
        for (size_t m = 0; m < nne; ++m) s += N[q][m] * x[e][m][1];
        return s;
    }
    vd pos(size_t e, size_t q) const
    {
        vd s(ndim, 0.0);
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < ndim; ++i) s[i] += N[q][m] * x[e][m][i];
        return s;
    }
    void reference()
    {
        N.assign(nip, vd());
        dN.assign(nelem, std::vector<vvd>(nip));
        vol.assign(nelem, vd(nip));
        detJ = vol;
        size = gs = vs = 0;
        for (size_t e = 0; e < nelem; ++e) {
            for (auto& m : x[e]) size = std::max(size, amax(m));
            for (size_t q = 0; q < nip; ++q) {
                detJ[e][q] = gradients(ndim, x[e], xi[q], N[q], dN[e][q]);
                double f = w[q];
                if (kind == PLANAR) f *= thick;
                if (kind == AXI) f *= 2.0 * 3.14159265358979323846 * radius(e, q);
                vol[e][q] = f * detJ[e][q];
                vs = std::max(vs, std::abs(vol[e][q]));
                for (auto& m : dN[e][q]) gs = std::max(gs, amax(m));
                if (kind == AXI) gs = std::max(gs, 1.0 / std::abs(radius(e, q)));
            }
        }
        h = mon::hash({(uint64_t)kind, nelem, nip});
        for (auto& e : x)
            for (auto& m : e)
                for (auto v : m) h = mon::mix(h, mon::hashd(v));
        for (auto& q : xi)
            for (auto v : q) h = mon::mix(h, mon::hashd(v));
    }
    D3 X() const
    {
        D3 r = xt::empty<double>({nelem, nne, ndim});
        for (size_t e = 0; e < nelem; ++e)
            for (size_t m = 0; m < nne; ++m)
                for (size_t i = 0; i < ndim; ++i) r(e, m, i) = x[e][m][i];
        return r;
    }
    D2 XI() const
    {
        D2 r = xt::empty<double>({nip, ndim});
        for (size_t q = 0; q < nip; ++q)
            for (size_t i = 0; i < ndim; ++i) r(q, i) = xi[q][i];
        return r;
    }
    D1 W() const
    {
        return to_d1(w);
    }
    double wsum() const
    {
        double s = 0;
        for (auto i : w) s += i;
        return s;
    }
};

// all corners, the centre and the integration points have det(J) > 0, with a margin
inline bool well_shaped(size_t ndim, const vvd& xe, const vvd& xi, double margin)
{
    vvd pts = xi;
    size_t nne = xe.size();
    for (size_t m = 0; m < nne; ++m) {
        vd p(ndim);
        for (size_t d = 0; d < ndim; ++d) p[d] = ndim == 2 ? quadsign()[m][d] : hexsign()[m][d];
        pts.push_back(p);
    }
    pts.push_back(vd(ndim, 0.0));
    double lo = 1e300, hi = 0;
    for (auto& p : pts) {
        vd N;
        vvd dN;
        shape(ndim, p, N, dN);
        double d = det(jac(ndim, xe, dN));
        lo = std::min(lo, d);
        hi = std::max(hi, d);
    }
    return lo > margin * hi && hi > 0;
}

inline void random_rule(mon::Rng& r, QC& c)
{
    int k = (int)r.range(0, 4);
    bool hex = c.kind == HEX;
    if (k == 3 && hex) k = 4;
    c.def_rule = false;
    if (k == 0 || k == 1) {
        // the default, implicitly or explicitly
        gauss(c.ndim, c.xi, c.w);
        c.def_rule = k == 0;
        c.rule = c.def_rule ? "default" : "Gauss";
    }
    else if (k == 2) {
        gauss(c.ndim, c.xi, c.w);
        for (auto& q : c.xi)
            for (auto& v : q) v = v > 0 ? 1.0 : -1.0;
        c.rule = "Nodal";
    }
    else if (k == 3) {
        c.xi.assign(1, vd(2, 0.0));
        c.w.assign(1, 4.0);
        c.rule = "MidPoint";
    }
    else {
        size_t n = r.range(1, 7);
        c.xi.assign(n, vd(c.ndim));
        c.w.assign(n, 0.0);
        for (auto& q : c.xi)
            for (auto& v : q) v = r.uni(-1, 1);
        for (auto& v : c.w) v = r.uni(0.1, 3);
        c.rule = "custom";
    }
    c.nip = c.w.size();
}

inline void random_coor(mon::Rng& r, QC& c, size_t nelem_fixed = 0)
{
    c.meshed = !nelem_fixed && r.coin(0.4);
    if (c.meshed) {
        c.p = random_mesh(r, c.ndim == 2 ? 0 : 1, false, 3);
        if (r.coin(0.8)) distort(r, c.p, 0.2);
        for (auto& v : c.p.coor) v += 0.0;
        if (c.kind == AXI) {
            double lo = 1e300, hi = -1e300;
            for (size_t i = 0; i < c.p.nnode; ++i) lo = std::min(lo, c.p.coor(i, 1)), hi = std::max(hi, c.p.coor(i, 1));
            double s = -lo + r.uni(0.1, 1.0) * (hi - lo);
            for (size_t i = 0; i < c.p.nnode; ++i) c.p.coor(i, 1) += s;
        }
        c.nelem = c.p.nelem;
        c.x.assign(c.nelem, vvd(c.nne, vd(c.ndim)));
        bool good = true;
        for (size_t e = 0; e < c.nelem; ++e) {
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t i = 0; i < c.ndim; ++i) c.x[e][m][i] = c.p.coor(c.p.c[e][m], i);
            good &= well_shaped(c.ndim, c.x[e], c.xi, 0.02);
        }
        if (good) return;
        c.meshed = false;
    }
    // separate elements
    c.nelem = nelem_fixed ? nelem_fixed : r.range(1, 6);
    c.x.assign(c.nelem, vvd(c.nne, vd(c.ndim)));
    double unit = r.coin(0.7) ? r.logu(0.01, 100.0) : r.logu(1e-7, 1e5);
    for (auto& xe : c.x) {
        for (int it = 0;; ++it) {
            // deformation F with det > 0: random, so includes rotation, shear, stretch
            vvd F(c.ndim, vd(c.ndim));
            for (auto& i : F)
                for (auto& j : i) j = r.uni(-1, 1);
            double d = det(F);
            if (std::abs(d) < 0.15) continue;
            if (d < 0)
                for (auto& v : F[0]) v = -v;
            double amp = it > 200 ? 0.0 : r.uni(0, 0.6);
            vd shift(c.ndim);
            for (auto& v : shift) v = r.uni(-2, 2);
            for (size_t m = 0; m < c.nne; ++m) {
                vd y(c.ndim);
                for (size_t i = 0; i < c.ndim; ++i)
                    y[i] = (c.ndim == 2 ? quadsign()[m][i] : hexsign()[m][i]) + amp * r.uni(-1, 1);
                for (size_t i = 0; i < c.ndim; ++i) {
                    xe[m][i] = shift[i];
                    for (size_t j = 0; j < c.ndim; ++j) xe[m][i] += F[i][j] * y[j];
                }
            }
            if (!well_shaped(c.ndim, xe, c.xi, 0.02)) continue;
            break;
        }
        if (c.kind == AXI) {
            double lo = 1e300;
            for (auto& m : xe) lo = std::min(lo, m[1]);
            double s = -lo + r.uni(0.05, 2.0);
            for (auto& m : xe) m[1] += s;
        }
        for (auto& m : xe)
            for (auto& v : m) v *= unit;
    }
}

inline QC random_quad(mon::Rng& r, int kind = -1)
{
    QC c;
    c.kind = (Kind)(kind >= 0 ? kind : (int)r.range(0, 3));
    c.ndim = c.kind == HEX ? 3 : 2;
    c.nne = c.kind == HEX ? 8 : 4;
    c.tdim = c.kind == QUAD ? 2 : 3;
    random_rule(r, c);
    random_coor(r, c);
    if (c.kind == PLANAR) {
        c.def_thick = r.coin(0.2);
        c.thick = c.def_thick ? 1.0 : r.logu(0.05, 20.0);
    }
    c.reference();
    c.what = fmt("%s nelem=%zu %s rule=%s nip=%zu thick=%g", kindname(c.kind), c.nelem, c.meshed ? c.p.what.c_str() : "separate", c.rule.c_str(), c.nip, c.thick);
    mon::context() = c.what;
    mon::cover(std::string("element.") + kindname(c.kind));
    mon::cover("rule." + c.rule);
    if (c.meshed) mon::cover("mesh");
    return c;
}

template <class T>
struct Make;
template <>
struct Make<GooseFEM::Element::Quad4::Quadrature> {
    static const Kind kind = QUAD;
    static auto make(const QC& c)
    {
        typedef GooseFEM::Element::Quad4::Quadrature T;
        namespace G = GooseFEM::Element::Quad4;
        if (c.def_rule) return T(c.X());
        if (c.rule == "Gauss") return T(c.X(), G::Gauss::xi(), G::Gauss::w());
        if (c.rule == "Nodal") return T(c.X(), G::Nodal::xi(), G::Nodal::w());
        if (c.rule == "MidPoint") return T(c.X(), G::MidPoint::xi(), G::MidPoint::w());
        return T(c.X(), c.XI(), c.W());
    }
};
template <>
struct Make<GooseFEM::Element::Quad4::QuadratureAxisymmetric> {
    static const Kind kind = AXI;
    static auto make(const QC& c)
    {
        typedef GooseFEM::Element::Quad4::QuadratureAxisymmetric T;
        namespace G = GooseFEM::Element::Quad4;
        if (c.def_rule) return T(c.X());
        if (c.rule == "Gauss") return T(c.X(), G::Gauss::xi(), G::Gauss::w());
        if (c.rule == "Nodal") return T(c.X(), G::Nodal::xi(), G::Nodal::w());
        if (c.rule == "MidPoint") return T(c.X(), G::MidPoint::xi(), G::MidPoint::w());
        return T(c.X(), c.XI(), c.W());
    }
};
template <>
struct Make<GooseFEM::Element::Quad4::QuadraturePlanar> {
    static const Kind kind = PLANAR;
    static auto make(const QC& c)
    {
        typedef GooseFEM::Element::Quad4::QuadraturePlanar T;
        namespace G = GooseFEM::Element::Quad4;
        if (c.def_thick) {
            if (c.def_rule) return T(c.X());
            if (c.rule == "MidPoint") return T(c.X(), G::MidPoint::xi(), G::MidPoint::w());
            return T(c.X(), c.XI(), c.W());
        }
        if (c.def_rule) return T(c.X(), c.thick);
        if (c.rule == "Gauss") return T(c.X(), G::Gauss::xi(), G::Gauss::w(), c.thick);
        if (c.rule == "Nodal") return T(c.X(), G::Nodal::xi(), G::Nodal::w(), c.thick);
        if (c.rule == "MidPoint") return T(c.X(), G::MidPoint::xi(), G::MidPoint::w(), c.thick);
        return T(c.X(), c.XI(), c.W(), c.thick);
    }
};
template <>
struct Make<GooseFEM::Element::Hex8::Quadrature> {
    static const Kind kind = HEX;
    static auto make(const QC& c)
    {
        typedef GooseFEM::Element::Hex8::Quadrature T;
        namespace G = GooseFEM::Element::Hex8;
        if (c.def_rule) return T(c.X());
        if (c.rule == "Gauss") return T(c.X(), G::Gauss::xi(), G::Gauss::w());
        if (c.rule == "Nodal") return T(c.X(), G::Nodal::xi(), G::Nodal::w());
        return T(c.X(), c.XI(), c.W());
    }
};
// call f(quadrature) with the class of `c.kind`
template <class F>
inline void with_quad(const QC& c, F&& f)
{
    namespace E = GooseFEM::Element;
    switch (c.kind) {
    case QUAD: { auto t = Make<E::Quad4::Quadrature>::make(c); f(t); break; }
    case HEX: { auto t = Make<E::Hex8::Quadrature>::make(c); f(t); break; }
    case PLANAR: { auto t = Make<E::Quad4::QuadraturePlanar>::make(c); f(t); break; }
    case AXI: { auto t = Make<E::Quad4::QuadratureAxisymmetric>::make(c); f(t); break; }
    }
}
template <class T>
inline constexpr bool is_axi = std::is_same<std::decay_t<T>, GooseFEM::Element::Quad4::QuadratureAxisymmetric>::value;

// reference fields -------------------------------------------------------------------------------
inline D4 ref_grad(const QC& c, const D3& u, int mode) // 0: grad, 1: transposed, 2: symmetric
{
    D4 g = xt::zeros<double>({c.nelem, c.nip, c.tdim, c.tdim});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t k = 0; k < c.ndim; ++k)
                    for (size_t i = 0; i < c.tdim; ++i)
                        for (size_t j = 0; j < c.tdim; ++j) {
                            double v = c.B(e, q, m, k, i, j) * u(e, m, k);
                            if (mode == 0) g(e, q, i, j) += v;
                            if (mode == 1) g(e, q, j, i) += v;
                            if (mode == 2) g(e, q, i, j) += 0.5 * v, g(e, q, j, i) += 0.5 * v;
                        }
    return g;
}
inline D3 ref_force(const QC& c, const D4& s)
{
    D3 f = xt::zeros<double>({c.nelem, c.nne, c.ndim});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t k = 0; k < c.ndim; ++k)
                    for (size_t i = 0; i < c.tdim; ++i)
                        for (size_t j = 0; j < c.tdim; ++j)
                            f(e, m, k) += c.B(e, q, m, k, i, j) * s(e, q, i, j) * c.vol[e][q];
    return f;
}
inline D3 ref_stiff(const QC& c, const D6& C)
{
    size_t n = c.nne * c.ndim, t = c.tdim;
    D3 K = xt::zeros<double>({c.nelem, n, n});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t b = 0; b < n; ++b) {
                // stress due to a unit displacement of b
                vvd s(t, vd(t, 0.0));
                for (size_t k = 0; k < t; ++k)
                    for (size_t l = 0; l < t; ++l) {
                        double B = c.B(e, q, b / c.ndim, b % c.ndim, l, k);
                        if (B == 0) continue;
                        for (size_t i = 0; i < t; ++i)
                            for (size_t j = 0; j < t; ++j) s[i][j] += C(e, q, i, j, k, l) * B;
                    }
                for (size_t a = 0; a < n; ++a)
                    for (size_t i = 0; i < t; ++i)
                        for (size_t j = 0; j < t; ++j)
                            K(e, a, b) += c.B(e, q, a / c.ndim, a % c.ndim, i, j) * s[i][j] * c.vol[e][q];
            }
    return K;
}
inline D3 ref_mass(const QC& c, const D2& rho)
{
    size_t n = c.nne * c.ndim;
    D3 M = xt::zeros<double>({c.nelem, n, n});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t a = 0; a < c.nne; ++a)
                for (size_t b = 0; b < c.nne; ++b)
                    for (size_t i = 0; i < c.ndim; ++i)
                        M(e, a * c.ndim + i, b * c.ndim + i) += c.N[q][a] * c.N[q][b] * rho(e, q) * c.vol[e][q];
    return M;
}
inline D3 ref_intN(const QC& c, const D3& f)
{
    size_t n = f.shape(2);
    D3 g = xt::zeros<double>({c.nelem, c.nne, n});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t i = 0; i < n; ++i) g(e, m, i) += c.N[q][m] * f(e, q, i) * c.vol[e][q];
    return g;
}
inline D3 ref_interp(const QC& c, const D3& u)
{
    size_t n = u.shape(2);
    D3 g = xt::zeros<double>({c.nelem, c.nip, n});
    for (size_t e = 0; e < c.nelem; ++e)
        for (size_t q = 0; q < c.nip; ++q)
            for (size_t m = 0; m < c.nne; ++m)
                for (size_t i = 0; i < n; ++i) g(e, q, i) += c.N[q][m] * u(e, m, i);
    return g;
}
// rounding: the Jacobian of an element far from the origin loses digits
inline double gtol(const QC& c)
{
    return 1e-11 * (1.0 + c.gs * c.size);
}
} // namespace fe
#endif
