// C37: the default C++ build, whose own arrays are row-major, called with containers of every
// other kind: column-major, run-time shapes, expressions that have not been evaluated, and views on parts
// of bigger arrays (with steps, or seen transposed). The values decide, not what holds them; what lies
// between the items of an output view is left alone.
#include "matx.h"
#include "mon.h"
#include "quadx.h"
#include "tyings.h"
#include <GooseFEM/Allocate.h>
#include <GooseFEM/Mesh.h>
#include <xtensor/xstrided_view.hpp>
using namespace fe;
namespace GF = GooseFEM;

static const double gap = 0.123456789; // what lies between the items of a view

template <class A>
static vd values(const A& a)
{
    vd r;
    for (auto it = a.template begin<xt::layout_type::row_major>(); it != a.template end<xt::layout_type::row_major>(); ++it) r.push_back((double)*it);
    return r;
}
template <class A>
static vvd shape_values(const A& a)
{
    vd s;
    for (auto i : a.shape()) s.push_back((double)i);
    return {s, values(a)};
}
static bool near(const vvd& a, const vvd& b)
{
    if (a[0] != b[0] || a[1].size() != b[1].size()) return false;
    double s = amax(b[1]);
    for (size_t i = 0; i < a[1].size(); ++i)
        if (!(std::abs(a[1][i] - b[1][i]) <= 1e-12 * s || a[1][i] == b[1][i])) return false;
    return true;
}

// call `f` with the same values in all kinds of containers
template <class T, size_t N, class F>
static void with_containers(mon::Rng& r, const xt::xtensor<T, N>& a, F f)
{
    xt::xtensor<T, N, xt::layout_type::column_major> col = a;
    f(col, "column_major");
    bool rm = r.coin();
    xt::xarray<T, xt::layout_type::dynamic> dyn(std::vector<size_t>(a.shape().begin(), a.shape().end()), rm ? xt::layout_type::row_major : xt::layout_type::column_major);
    xt::noalias(dyn) = a;
    f(dyn, rm ? "xarray" : "xarray_column_major");
}
template <class T, size_t N, class F>
static void with_all(mon::Rng& r, const xt::xtensor<T, N>& a, F f)
{
    with_containers(r, a, f);
    // every k-th item of a bigger array, whose axes are in any order
    xt::dynamic_shape<size_t> shape(a.shape().begin(), a.shape().end());
    xt::dynamic_shape<ptrdiff_t> strides(N);
    size_t s = r.range(1, 2), offset = r.range(0, 3);
    auto order = r.perm(N);
    for (auto d : order) {
        strides[d] = (ptrdiff_t)s;
        s *= a.shape(d) + r.range(0, 1);
    }
    xt::xtensor<T, 1> store = xt::empty<T>({offset + s});
    store.fill((T)gap);
    auto view = xt::strided_view(store, std::move(shape), std::move(strides), offset, xt::layout_type::dynamic);
    view = a;
    f(view, "view");
    // what is between the items
    view.fill((T)gap);
    bool clean = true;
    for (auto v : store) clean = clean && v == (T)gap;
    mon::ok(clean, "outside");
    mon::cover("gaps", store.size() - a.size());
}
template <size_t N, class F>
static void with_expressions(const xt::xtensor<double, N>& a, F f)
{
    xt::xtensor<double, N> half = 0.5 * a;
    f(half + half, "expression");
}

// all kinds of output: `want` are the expected values
template <size_t N, class F>
static void into_all(mon::Rng& r, const xt::xtensor<double, N>& want, const std::string& name, F f)
{
    vvd w = shape_values(want);
    xt::xtensor<double, N> blank = xt::empty<double>(want.shape());
    blank.fill(r.pick(vd{0.0, 7.0, -3e10}));
    with_all(r, blank, [&](auto& ret, const std::string& kind) {
        f(ret);
        mon::ok(near(shape_values(ret), w), "into." + name + "." + kind, name + " written in " + kind);
        mon::cover("out." + kind);
    });
}

#define TEST_IN(NAME, A, EXPR, ALL)                                                                             \
    {                                                                                                           \
        auto want = shape_values([&](const auto& arg) { return EXPR; }(A));                                     \
        auto test = [&](const auto& arg, const std::string& kind) {                                             \
            mon::ok(near(shape_values(EXPR), want), "in." NAME "." + kind, NAME " of " + kind);                 \
            mon::cover("in." + kind);                                                                           \
            for (auto v : want[1]) h = mon::mix(h, mon::hashd(v));                                              \
        };                                                                                                      \
        ALL;                                                                                                    \
    }
#define IN(NAME, A, EXPR) TEST_IN(NAME, A, EXPR, with_all(r, A, test))
#define INC(NAME, A, EXPR) TEST_IN(NAME, A, EXPR, with_containers(r, A, test)) // results of the type of the argument
#define INE(NAME, A, EXPR)                                                                                      \
    {                                                                                                           \
        IN(NAME, A, EXPR)                                                                                       \
        auto want = shape_values([&](const auto& arg) { return EXPR; }(A));                                     \
        with_expressions(A, [&](const auto& arg, const std::string& kind) {                                     \
            mon::ok(near(shape_values(EXPR), want), "in." NAME "." + kind, NAME " of " + kind);                 \
            mon::cover("in." + kind);                                                                           \
        });                                                                                                     \
    }

#ifdef C37_QUADRATURE
static uint64_t run(mon::Rng& r)
{
    QC c = random_quad(r);
    uint64_t h = c.h;
    mon::context() = c.what;
    with_quad(c, [&](auto& proto) {
        typedef std::decay_t<decltype(proto)> T;
        auto make = [&](const auto& x, const auto& xi, const auto& w) {
            if constexpr (std::is_same<T, GF::Element::Quad4::QuadraturePlanar>::value)
                return T(x, xi, w, c.thick);
            else return T(x, xi, w);
        };
        D3 x = c.X();
        D2 xi = c.XI();
        D1 w = c.W();
        T q = make(x, xi, w);
        INE("Quadrature.x", x, make(arg, xi, w).dV());
        IN("Quadrature.xi", xi, make(x, arg, w).dV());
        IN("Quadrature.w", w, make(x, xi, arg).dV());
        auto updated = [&](const auto& y) {
            T p = make(x, xi, w);
            p.update_x(y);
            return p.GradN_vector(x);
        };
        INE("update_x", x, updated(arg));
        D3 u = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, u);
        D3 qv = xt::empty<double>({c.nelem, c.nip, c.ndim});
        fill(r, qv);
        D4 qt = xt::empty<double>({c.nelem, c.nip, c.tdim, c.tdim});
        fill(r, qt);
        D6 qf = xt::empty<double>({c.nelem, c.nip, c.tdim, c.tdim, c.tdim, c.tdim});
        fill(r, qf);
        D2 qs = xt::empty<double>({c.nelem, c.nip});
        fill(r, qs);
        switch (r.range(0, 4)) {
        case 0:
            IN("InterpQuad_vector", u, q.InterpQuad_vector(arg));
            into_all(r, q.InterpQuad_vector(u), "interpQuad_vector", [&](auto& ret) { q.interpQuad_vector(u, ret); });
            IN("Int_N_vector_dV", qv, q.Int_N_vector_dV(arg));
            into_all(r, q.Int_N_vector_dV(qv), "int_N_vector_dV", [&](auto& ret) { q.int_N_vector_dV(qv, ret); });
            break;
        case 1:
            IN("GradN_vector", u, q.GradN_vector(arg));
            into_all(r, q.GradN_vector(u), "gradN_vector", [&](auto& ret) { q.gradN_vector(u, ret); });
            IN("GradN_vector_T", u, q.GradN_vector_T(arg));
            into_all(r, q.GradN_vector_T(u), "gradN_vector_T", [&](auto& ret) { q.gradN_vector_T(u, ret); });
            break;
        case 2:
            IN("SymGradN_vector", u, q.SymGradN_vector(arg));
            into_all(r, q.SymGradN_vector(u), "symGradN_vector", [&](auto& ret) { q.symGradN_vector(u, ret); });
            IN("Int_N_scalar_NT_dV", qs, q.Int_N_scalar_NT_dV(arg));
            into_all(r, q.Int_N_scalar_NT_dV(qs), "int_N_scalar_NT_dV", [&](auto& ret) { q.int_N_scalar_NT_dV(qs, ret); });
            break;
        case 3:
            IN("Int_gradN_dot_tensor2_dV", qt, q.Int_gradN_dot_tensor2_dV(arg));
            into_all(r, q.Int_gradN_dot_tensor2_dV(qt), "int_gradN_dot_tensor2_dV", [&](auto& ret) { q.int_gradN_dot_tensor2_dV(qt, ret); });
            {
                xt::xtensor<double, 2, xt::layout_type::column_major> col = qs;
                xt::xtensor<double, 4, xt::layout_type::column_major> ret = xt::empty<double>(q.template shape_qtensor<2>());
                auto want = shape_values(D4(q.template AsTensor<2>(qs)));
                mon::ok(near(shape_values(q.template AsTensor<2>(col)), want), "in.AsTensor.column_major");
                q.asTensor(col, ret);
                mon::ok(near(shape_values(ret), want), "into.asTensor.column_major");
            }
            break;
        default:
            IN("Int_gradN_dot_tensor4_dot_gradNT_dV", qf, q.Int_gradN_dot_tensor4_dot_gradNT_dV(arg));
            into_all(r, q.Int_gradN_dot_tensor4_dot_gradNT_dV(qf), "int_gradN_dot_tensor4_dot_gradNT_dV", [&](auto& ret) { q.int_gradN_dot_tensor4_dot_gradNT_dV(qf, ret); });
        }
        mon::cover(std::string("element.") + kindname(c.kind));
    });
    return h;
}

#else
static uint64_t mesh(mon::Rng& r)
{
    Prob p = random_mesh(r, 0, false, 4);
    if (r.coin(0.6)) distort(r, p, 0.2);
    mon::context() = p.what;
    uint64_t h = p.h;
    D2 x = p.coor;
    U2 conn = p.conn, dofs = p.dofs;
    bool quad = p.nne == 4 && p.ndim == 2;
    switch (r.range(0, 3)) {
    case 0:
        IN("coordination", conn, GF::Mesh::coordination(arg));
        INC("renumber", dofs, GF::Mesh::renumber(arg));
        INC("Renumber", dofs, GF::Mesh::Renumber(arg).index());
        {
            GF::Mesh::Renumber re(dofs);
            INC("Renumber.apply", dofs, re.apply(arg));
            GF::Mesh::Reorder ro({U1(re.index())});
            INC("Reorder.apply", dofs, ro.apply(arg));
        }
        {
            auto e2n = [](const auto& e) {
                vd v;
                for (auto& i : e) {
                    v.push_back(-1);
                    for (auto j : i) v.push_back((double)j);
                }
                return to_d1(v);
            };
            IN("elem2node", conn, e2n(GF::Mesh::elem2node(arg)));
            IN("elem2node.sorted", conn, e2n(GF::Mesh::elem2node(arg, false)));
            IN("elem2node.dofs.conn", conn, e2n(GF::Mesh::elem2node(arg, dofs)));
            IN("elem2node.dofs", dofs, e2n(GF::Mesh::elem2node(conn, arg)));
            IN("node2dof", dofs, e2n(GF::Mesh::node2dof(arg)));
            IN("nodaltyings", dofs, e2n(GF::Mesh::nodaltyings(arg)));
        }
        break;
    case 1:
        if (quad) {
            INE("edgesize", x, GF::Mesh::edgesize(arg, conn));
            IN("edgesize.conn", conn, GF::Mesh::edgesize(x, arg));
            INE("centers", x, GF::Mesh::centers(arg, conn));
            IN("centers.conn", conn, GF::Mesh::centers(x, arg));
        }
        if (quad || p.nne == 8) {
            INE("nodal_mass", x, GF::Mesh::nodal_mass(arg, conn));
            IN("nodal_mass.conn", conn, GF::Mesh::nodal_mass(x, arg));
            IN("center_of_gravity.conn", conn, GF::Mesh::center_of_gravity(x, arg));
        }
        break;
    case 2: {
        // two copies side by side
        D2 y = x;
        double lo = 1e300, hi = -1e300;
        for (size_t i = 0; i < p.nnode; ++i) lo = std::min(lo, x(i, 0)), hi = std::max(hi, x(i, 0));
        for (size_t i = 0; i < p.nnode; ++i) y(i, 0) += 2 * (hi - lo);
        auto stitched = [&](const auto& a, const auto& c) {
            GF::Mesh::Stitch s;
            s.push_back(x, conn);
            s.push_back(a, c);
            vd v = values(s.coor()), k = values(s.conn());
            v.insert(v.end(), k.begin(), k.end());
            return to_d1(v);
        };
        INE("Stitch.coor", y, stitched(arg, conn));
        INC("Stitch.conn", conn, stitched(y, arg));
        U1 some = to_u1(r.perm(p.nnode));
        U1 elem = to_u1(r.perm(p.nelem));
        GF::Mesh::Stitch s;
        s.push_back(x, conn);
        s.push_back(y, conn);
        INC("Stitch.nodeset", some, s.nodeset(arg, 1));
        INC("Stitch.elemset", elem, s.elemset(arg, 1));
        break;
    }
    default: {
        // (the last one moved onto the first one)
        D2 y = x;
        vu ia, ib;
        for (size_t i = 0; i < p.nnode; ++i) y(i, 0) += 100.0 * (1.0 + std::abs(x(i, 0)));
        ia = {r.range(0, p.nnode - 1)};
        ib = {r.range(0, p.nnode - 1)};
        for (size_t d = 0; d < p.ndim; ++d) y(ib[0], d) = x(ia[0], d);
        U1 a = to_u1(ia), b = to_u1(ib);
        auto manual = [&](const auto& xa, const auto& ca, const auto& na, const auto& xb, const auto& cb, const auto& nb) {
            GF::Mesh::ManualStitch s(xa, ca, na, xb, cb, nb);
            vd v = values(s.coor()), k = values(s.conn());
            v.insert(v.end(), k.begin(), k.end());
            return to_d1(v);
        };
        INE("ManualStitch.coor_a", x, manual(arg, conn, a, y, conn, b));
        IN("ManualStitch.conn_a", conn, manual(x, arg, a, y, conn, b));
        IN("ManualStitch.overlap_a", a, manual(x, conn, arg, y, conn, b));
        INE("ManualStitch.coor_b", y, manual(x, conn, a, arg, conn, b));
        INC("ManualStitch.conn_b", conn, manual(x, conn, a, y, arg, b));
        IN("ManualStitch.overlap_b", b, manual(x, conn, a, y, conn, arg));
    }
    }
    mon::cover("mesh");
    return h;
}

static uint64_t arrays(mon::Rng& r)
{
    uint64_t h = 17;
    size_t n = r.range(1, 3);
    D1 a1 = xt::empty<double>({r.range(1, 6)});
    D2 a2 = xt::empty<double>({r.range(1, 6), r.range(1, 3)});
    D3 a3 = xt::empty<double>({r.range(1, 4), r.range(1, 4), r.range(1, 3)});
    fill(r, a1), fill(r, a2), fill(r, a3);
    mon::context() = fmt("arrays of %zu, %zu, %zu items", a1.size(), a2.size(), a3.size());
    typedef xt::xarray<double> X;
    IN("AsTensor.1", a1, X(GF::AsTensor(1, arg, n)));
    IN("AsTensor.2", a2, X(GF::AsTensor(2, arg, n)));
    IN("AsTensor.3", a3, X(GF::AsTensor(2, arg, n)));
    {
        xt::xtensor<double, 2, xt::layout_type::column_major> col = a2;
        auto want = shape_values(X(GF::AsTensor<2>(a2, n)));
        mon::ok(near(shape_values(X(GF::AsTensor<2>(col, n))), want), "in.AsTensor.static.column_major");
        xt::xtensor<double, 4, xt::layout_type::column_major> ret = xt::empty<double>({a2.shape(0), a2.shape(1), n, n});
        GF::asTensor(col, ret);
        mon::ok(near(shape_values(ret), want), "into.asTensor.static.column_major");
    }
    INC("as3d", a2, X(GF::as3d(arg)));
    mon::cover("arrays");
    return h;
}

static uint64_t run(mon::Rng& r)
{
    return r.coin(0.8) ? mesh(r) : arrays(r);
}
#endif

void run_case(mon::Rng& r)
{
    uint64_t h = run(r);
    mon::nontrivial(h);
    mon::sample(mon::context());
}
