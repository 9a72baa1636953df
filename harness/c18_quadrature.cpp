// C18: integration-point volumes, integration rules, interpolation to the integration points, and
// the shapes of everything that is stored per integration point.
#include "mon.h"
#include "quadx.h"
using namespace fe;

static void rules(mon::Rng& r)
{
    auto chk = [&](const char* n, size_t ndim, size_t nip, const D2& xi, const D1& w, int degree, bool nodal) {
        std::string k = n;
        mon::ok(xi.shape(0) == nip && xi.shape(1) == ndim && w.size() == nip, "rule.shape." + k);
        // exact for all monomials of degree <= `degree` in each direction
        for (int t = 0; t < 6; ++t) {
            std::vector<int> p(ndim);
            for (auto& i : p) i = (int)r.range(0, degree);
            double s = 0, want = 1;
            for (size_t q = 0; q < nip; ++q) {
                double f = w(q);
                for (size_t i = 0; i < ndim; ++i) f *= std::pow(xi(q, i), p[i]);
                s += f;
            }
            for (auto i : p) want *= (i % 2) ? 0.0 : 2.0 / (i + 1.0);
            mon::close(s, want, 1e-13 * std::pow(2.0, (double)ndim), "rule.exact." + k, fmt("powers %d %d", p[0], p[1]));
        }
        if (nodal) {
            bool ok = true;
            for (size_t q = 0; q < nip; ++q)
                for (size_t i = 0; i < ndim; ++i) ok &= xi(q, i) == (double)(ndim == 2 ? quadsign()[q][i] : hexsign()[q][i]);
            mon::ok(ok, "rule.nodal." + k);
        }
        mon::cover("rule_checked." + k);
    };
    namespace Q4 = GooseFEM::Element::Quad4;
    namespace H8 = GooseFEM::Element::Hex8;
    chk("Quad4.Gauss", 2, Q4::Gauss::nip(), Q4::Gauss::xi(), Q4::Gauss::w(), 3, false);
    chk("Quad4.Nodal", 2, Q4::Nodal::nip(), Q4::Nodal::xi(), Q4::Nodal::w(), 1, true);
    chk("Quad4.MidPoint", 2, Q4::MidPoint::nip(), Q4::MidPoint::xi(), Q4::MidPoint::w(), 1, false);
    chk("Hex8.Gauss", 3, H8::Gauss::nip(), H8::Gauss::xi(), H8::Gauss::w(), 3, false);
    chk("Hex8.Nodal", 3, H8::Nodal::nip(), H8::Nodal::xi(), H8::Nodal::w(), 1, true);
}

template <class S>
static bool is_shape(const S& s, const vu& want)
{
    return s.size() == want.size() && std::equal(want.begin(), want.end(), s.begin());
}

template <class T>
static void shapes(mon::Rng& r, const T& quad, const QC& c, const std::string& k)
{
    size_t E = c.nelem, P = c.nip, t = c.tdim, n = r.range(1, 5);
    mon::ok(quad.nelem() == E && quad.nne() == c.nne && quad.ndim() == c.ndim && quad.tdim() == t && quad.nip() == P, "sizes." + k);
    bool ok = true;
    ok &= is_shape(quad.shape_elemvec(), {E, c.nne, c.ndim});
    ok &= is_shape(quad.shape_elemvec(n), {E, c.nne, n});
    ok &= is_shape(quad.shape_elemmat(), {E, c.nne * c.ndim, c.nne * c.ndim});
    ok &= is_shape(quad.shape_qscalar(), {E, P});
    ok &= is_shape(quad.shape_qvector(), {E, P, t});
    ok &= is_shape(quad.shape_qvector(n), {E, P, n});
    ok &= is_shape(quad.template shape_qtensor<0>(), {E, P});
    ok &= is_shape(quad.template shape_qtensor<1>(), {E, P, t});
    ok &= is_shape(quad.template shape_qtensor<2>(), {E, P, t, t});
    ok &= is_shape(quad.template shape_qtensor<4>(), {E, P, t, t, t, t});
    ok &= is_shape(quad.template shape_qtensor<2>(2, n), {E, P, n, n});
    for (size_t rank = 0; rank < 5; ++rank) {
        vu want = {E, P}, wantn = want;
        want.resize(2 + rank, t);
        wantn.resize(2 + rank, n);
        ok &= is_shape(quad.shape_qtensor(rank), want);
        ok &= is_shape(quad.shape_qtensor(rank, n), wantn);
    }
    mon::ok(ok, "shapes." + k);
    double v = r.uni(-3, 3);
    auto all = [&](const auto& a, const vu& want, const char* name) {
        bool g = is_shape(a.shape(), want);
        for (auto i : a) g &= i == v;
        mon::ok(g, std::string("allocate.") + name + "." + k);
    };
    all(quad.template allocate_elemvec<double>(v), {E, c.nne, c.ndim}, "elemvec");
    all(quad.template allocate_elemmat<double>(v), {E, c.nne * c.ndim, c.nne * c.ndim}, "elemmat");
    all(quad.template allocate_qscalar<double>(v), {E, P}, "qscalar");
    all(quad.template allocate_qtensor<2, double>(v), {E, P, t, t}, "qtensor2");
    all(quad.template allocate_qtensor<4, double>(v), {E, P, t, t, t, t}, "qtensor4");
    all(quad.template allocate_qtensor<double>(size_t(2), v), {E, P, t, t}, "qtensor_dyn");
    mon::ok(is_shape(quad.template allocate_elemvec<double>().shape(), {E, c.nne, c.ndim}), "allocate.elemvec_raw." + k);
    mon::ok(is_shape(quad.template allocate_elemmat<double>().shape(), {E, c.nne * c.ndim, c.nne * c.ndim}), "allocate.elemmat_raw." + k);
    mon::ok(is_shape(quad.template allocate_qscalar<double>().shape(), {E, P}), "allocate.qscalar_raw." + k);
    mon::ok(is_shape(quad.template allocate_qtensor<4, double>().shape(), {E, P, t, t, t, t}), "allocate.qtensor4_raw." + k);
    mon::ok(is_shape(quad.template allocate_qtensor<double>(size_t(3)).shape(), {E, P, t, t, t}), "allocate.qtensor_dyn_raw." + k);
    // expansion of a scalar to a tensor
    D2 s = xt::empty<double>({E, P});
    fill(r, s);
    auto expanded = [&](const auto& a, size_t rank, const char* name) {
        vu want = {E, P};
        want.resize(2 + rank, t);
        bool g = is_shape(a.shape(), want);
        size_t per = 1;
        for (size_t i = 0; i < rank; ++i) per *= t;
        g = g && a.size() == s.size() * per;
        auto it = a.begin();
        for (size_t i = 0; g && i < s.size(); ++i)
            for (size_t j = 0; j < per; ++j, ++it) g &= *it == s.flat(i);
        mon::ok(g, std::string("as_tensor.") + name + "." + k);
    };
    expanded(quad.template AsTensor<0>(s), 0, "0");
    expanded(quad.template AsTensor<1>(s), 1, "1");
    expanded(quad.template AsTensor<2>(s), 2, "2");
    expanded(quad.template AsTensor<4>(s), 4, "4");
    for (size_t rank = 1; rank < 5; ++rank) expanded(quad.AsTensor(rank, s), rank, "dyn");
    D4 o = xt::empty<double>({E, P, t, t});
    poison(o);
    quad.asTensor(s, o);
    expanded(o, 2, "inplace");
}

void run_case(mon::Rng& r)
{
    if (r.coin(0.05)) rules(r);
    QC c = random_quad(r);
    mon::nontrivial(c.h);
    with_quad(c, [&](auto& quad) {
        std::string k = kindname(c.kind);
        double tol = gtol(c) * c.vs;
        auto& dV = quad.dV();
        mon::ok(dV.shape(0) == c.nelem && dV.shape(1) == c.nip, "dV.shape." + k);
        vd want;
        for (auto& e : c.vol)
            for (auto v : e) want.push_back(v);
        mon::close_seq(dV, want, tol, "dV." + k);
        // --- sums which do not use the reference shape functions
        bool gs = c.rule == "default" || c.rule == "Gauss";
        if (c.rule != "custom") {
            for (size_t e = 0; e < c.nelem; ++e) {
                double s = 0;
                for (size_t q = 0; q < c.nip; ++q) s += dV(e, q);
                double exact = 0, t = tol * (double)c.nip;
                if (c.ndim == 2) {
                    vu id = {0, 1, 2, 3};
                    exact = polyarea(c.x[e], id);
                    if (c.kind == PLANAR) exact *= c.thick;
                    if (c.kind == AXI) {
                        if (!gs) continue;
                        double m = 0; // first moment of the polygon
                        for (size_t i = 0; i < 4; ++i) {
                            auto& p = c.x[e][i];
                            auto& q = c.x[e][(i + 1) % 4];
                            m += (p[0] * q[1] - q[0] * p[1]) * (p[1] + q[1]) / 6.0;
                        }
                        exact = 2.0 * 3.14159265358979323846 * m;
                    }
                }
                else {
                    if (!gs) continue;
                    // divergence theorem with bilinear faces: 1/3 sum over faces of x . n dA, 2 x 2 Gauss
                    double a = 1.0 / std::sqrt(3.0);
                    for (int f = 0; f < 6; ++f)
                        for (int g = 0; g < 4; ++g) {
                            vd xi = {a * quadsign()[g][0], a * quadsign()[g][1]}, N, p(3, 0.0), t0(3, 0.0), t1(3, 0.0);
                            vvd dN;
                            shape(2, xi, N, dN);
                            for (int m = 0; m < 4; ++m)
                                for (int i = 0; i < 3; ++i) {
                                    double v = c.x[e][hexfaces()[f][m]][i];
                                    p[i] += N[m] * v;
                                    t0[i] += dN[m][0] * v;
                                    t1[i] += dN[m][1] * v;
                                }
                            exact += (p[0] * (t0[1] * t1[2] - t0[2] * t1[1]) + p[1] * (t0[2] * t1[0] - t0[0] * t1[2]) + p[2] * (t0[0] * t1[1] - t0[1] * t1[0])) / 3.0;
                        }
                    t = 1e-11 * (std::abs(exact) + std::pow(c.size, 3.0));
                }
                if (c.kind == AXI) t = 1e-11 * (std::abs(exact) + std::pow(c.size, 3.0));
                if (c.kind == QUAD || c.kind == PLANAR) t = 1e-11 * (std::abs(exact) + c.thick * std::pow(c.size, 2.0));
                mon::close(s, exact, t, "volume." + c.rule + "." + k);
            }
        }
        if (c.meshed && gs && c.kind != AXI) {
            // the mesh: the volume of the domain, whatever the distortion of interior nodes
            double s = 0, a = 0;
            for (auto v : dV) s += v;
            for (auto& xe : c.x) a += volume(c.ndim, xe);
            mon::close(s, a * (c.kind == PLANAR ? c.thick : 1.0), 1e-10 * std::abs(a) * std::max(1.0, c.thick), "volume.mesh." + k);
        }
        // --- interpolation
        for (size_t n : {size_t(c.ndim), r.range(1, 5)}) {
            D3 u = xt::empty<double>({c.nelem, c.nne, n});
            fill(r, u);
            D3 qv = quad.InterpQuad_vector(u);
            mon::ok(qv.shape(0) == c.nelem && qv.shape(1) == c.nip && qv.shape(2) == n, "interp.shape." + k);
            mon::close_seq(qv, ref_interp(c, u), 1e-13, "interp." + k, fmt("n=%zu", n));
            D3 o = xt::empty<double>({c.nelem, c.nip, n});
            fill(r, o, -1e6, 1e6);
            quad.interpQuad_vector(u, o);
            mon::close_seq(o, ref_interp(c, u), 1e-13, "interp.inplace." + k, fmt("n=%zu", n));
            if (c.rule == "Nodal") mon::close_seq(qv, u, 1e-14, "interp.nodal." + k);
        }
        D3 X = c.X();
        D3 xq = quad.InterpQuad_vector(X);
        vd pos;
        for (size_t e = 0; e < c.nelem; ++e)
            for (size_t q = 0; q < c.nip; ++q)
                for (auto v : c.pos(e, q)) pos.push_back(v);
        mon::close_seq(xq, pos, 1e-13 * c.size, "interp.position." + k);
        if (r.coin(0.3)) shapes(r, quad, c, k);
        mon::sample(c.what + fmt(" dV(0,0)=%.6g", (double)dV(0, 0)));
    });
}
