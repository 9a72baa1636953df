// C33: with assertions enabled malformed arguments are refused by an exception before anything is
// read or written out of bounds, and well-formed arguments are not (elements, allocation helpers).
#include "quadx.h"
#include "reject.h"
#include <GooseFEM/Allocate.h>
using namespace rej;
namespace GF = GooseFEM;
typedef std::array<size_t, 2> S2;
typedef std::array<size_t, 3> S3;
typedef std::array<size_t, 4> S4;
typedef std::array<size_t, 6> S6;

template <class Q>
static void construct(mon::Rng& r, const std::string& name, const QC& c)
{
    D3 x = c.X();
    D2 xi = c.XI();
    D1 w = c.W();
    valid(name, [&]() { Q q(x, xi, w); });
    switch (r.range(0, 2)) {
    case 0: {
        S3 s{c.nelem, c.nne, c.ndim};
        auto b = s;
        size_t k = r.range(1, 2);
        b[k] = r.coin() ? b[k] + r.range(1, 2) : r.range(0, b[k] - 1);
        D3 y = xt::zeros<double>(b);
        invalid(name + ".x", [&]() { Q q(y, xi, w); }, shp(b));
        break;
    }
    case 1: {
        D2 y = make<2>(r, S2{c.nip, c.ndim}, true);
        invalid(name + ".xi", [&]() { Q q(x, y, w); }, shp(y.shape()));
        break;
    }
    default: {
        D1 y = make<1>(r, std::array<size_t, 1>{c.nip}, true);
        invalid(name + ".w", [&]() { Q q(x, xi, y); }, shp(y.shape()));
    }
    }
}

static void element(mon::Rng& r)
{
    QC c = random_quad(r);
    std::string nm = kindname(c.kind);
    with_quad(c, [&](auto& q) {
        typedef std::decay_t<decltype(q)> Q;
        construct<Q>(r, nm, c);
        size_t t = c.tdim, k = c.nne * c.ndim;
        S3 ev{c.nelem, c.nne, c.ndim}, em{c.nelem, k, k};
        S2 qs{c.nelem, c.nip};
        S4 q2{c.nelem, c.nip, t, t};
        S6 q4{c.nelem, c.nip, t, t, t, t};
        S3 qv{c.nelem, c.nip, c.ndim};
        xt::xtensor<double, 2> dV = q.dV();
        switch (r.range(0, 3)) {
        case 0:
            one<3>(r, nm + ".GradN_vector", ev, [&](auto& a) { q.GradN_vector(a); });
            one<3>(r, nm + ".GradN_vector_T", ev, [&](auto& a) { q.GradN_vector_T(a); });
            one<3>(r, nm + ".SymGradN_vector", ev, [&](auto& a) { q.SymGradN_vector(a); });
            two<3, 4>(r, nm + ".gradN_vector", ev, q2, [&](auto& a, auto& b) { q.gradN_vector(a, b); });
            two<3, 4>(r, nm + ".gradN_vector_T", ev, q2, [&](auto& a, auto& b) { q.gradN_vector_T(a, b); });
            two<3, 4>(r, nm + ".symGradN_vector", ev, q2, [&](auto& a, auto& b) { q.symGradN_vector(a, b); });
            break;
        case 1:
            one<2>(r, nm + ".Int_N_scalar_NT_dV", qs, [&](auto& a) { q.Int_N_scalar_NT_dV(a); });
            two<2, 3>(r, nm + ".int_N_scalar_NT_dV", qs, em, [&](auto& a, auto& b) { q.int_N_scalar_NT_dV(a, b); });
            one<4>(r, nm + ".Int_gradN_dot_tensor2_dV", q2, [&](auto& a) { q.Int_gradN_dot_tensor2_dV(a); });
            two<4, 3>(r, nm + ".int_gradN_dot_tensor2_dV", q2, ev, [&](auto& a, auto& b) { q.int_gradN_dot_tensor2_dV(a, b); });
            break;
        case 2:
            one<6>(r, nm + ".Int_gradN_dot_tensor4_dot_gradNT_dV", q4, [&](auto& a) { q.Int_gradN_dot_tensor4_dot_gradNT_dV(a); });
            two<6, 3>(r, nm + ".int_gradN_dot_tensor4_dot_gradNT_dV", q4, em, [&](auto& a, auto& b) { q.int_gradN_dot_tensor4_dot_gradNT_dV(a, b); });
            break;
        default:
            two<3, 3>(r, nm + ".interpQuad_vector", ev, qv, [&](auto& a, auto& b) { q.interpQuad_vector(a, b); });
            if constexpr (std::is_same<Q, GF::Element::Quad4::Quadrature>::value || std::is_same<Q, GF::Element::Hex8::Quadrature>::value)
                two<3, 3>(r, nm + ".int_N_vector_dV", qv, ev, [&](auto& a, auto& b) { q.int_N_vector_dV(a, b); });
            two<2, 4>(r, nm + ".asTensor", qs, q2, [&](auto& a, auto& b) {
                if (b.shape(0) != c.nelem || b.shape(1) != c.nip) throw std::runtime_error("wrong shape");
                for (size_t i = 2; i < 4; ++i)
                    if (b.shape(i) != t) throw std::runtime_error("other size: allowed");
                q.asTensor(a, b);
            });
        }
        // new coordinates: of another shape
        {
            D3 x = c.X();
            valid(nm + ".update_x", [&]() { q.update_x(x); });
            D3 y = make<3>(r, ev, true);
            invalid(nm + ".update_x", [&]() { q.update_x(y); }, shp(y.shape()));
            mon::ok(same(dV, xt::xtensor<double, 2>(q.dV())), "unaffected." + nm);
            mon::cover("update_x");
        }
    });
    mon::nontrivial(c.h);
}

static void helpers(mon::Rng& r)
{
    mon::context() = "helpers";
    namespace E = GF::Element;
    Prob p = random_topology(r);
    S2 n{p.nnode, p.ndim};
    S3 e{p.nelem, p.nne, p.ndim};
    // assembleNodeVector: nelem and nne as in the connectivity
    D3 a = make<3>(r, e, false);
    valid("assembleNodeVector", [&]() { E::assembleNodeVector(p.conn, a); });
    S3 b = e;
    size_t k = r.range(0, 1);
    b[k] = r.coin() ? b[k] + r.range(1, 3) : b[k] - 1;
    D3 c = xt::zeros<double>(b);
    invalid("assembleNodeVector", [&]() { E::assembleNodeVector(p.conn, c); }, shp(b) + " for " + shp(e));
    // isDiagonal: square matrices only
    D3 m = xt::zeros<double>({r.range(1, 3), r.range(1, 4), r.range(1, 4)});
    if (m.shape(1) == m.shape(2))
        valid("isDiagonal", [&]() { E::isDiagonal(m); });
    else
        invalid("isDiagonal", [&]() { E::isDiagonal(m); });
    // as3d: one, two or three columns
    D2 v = xt::zeros<double>({r.range(0, 4), r.range(0, 6)});
    if (v.shape(1) >= 1 && v.shape(1) <= 3)
        valid("as3d", [&]() { GF::as3d(v); });
    else
        invalid("as3d", [&]() { GF::as3d(v); }, shp(v.shape()));
    // asTensor: leading shape as the argument
    {
        S2 s{r.range(1, 4), r.range(1, 4)};
        D2 x = make<2>(r, s, false);
        size_t d = r.range(1, 3);
        D4 y = xt::zeros<double>({s[0], s[1], d, d});
        valid("asTensor", [&]() { GF::asTensor(x, y); });
        S2 w = wrong<2>(r, s);
        D4 z = xt::zeros<double>({w[0], w[1], d, d});
        invalid("asTensor", [&]() { GF::asTensor(x, z); }, shp(w) + " for " + shp(s));
        // dynamic rank
        xt::xarray<double> xa = x;
        xt::xarray<double> ya = xt::zeros<double>({s[0], s[1], d, d});
        valid("asTensor.xarray", [&]() { GF::asTensor(xa, ya); });
        xt::xarray<double> za = xt::zeros<double>({w[0], w[1], d, d});
        invalid("asTensor.xarray", [&]() { GF::asTensor(xa, za); });
        xt::xarray<double> low = xt::zeros<double>({s[0]});
        invalid("asTensor.rank", [&]() { GF::asTensor(xa, low); });
        mon::cover("asTensor");
    }
    mon::nontrivial(mon::hash({p.h, 9, m.size(), v.size()}));
}

void run_case(mon::Rng& r)
{
    if (r.coin(0.75))
        element(r);
    else
        helpers(r);
    mon::sample(mon::context());
}
