// C31: operations are functions of their arguments and of the object only: the same call gives the
// same bits at any place in any interleaving of calls on several objects, whatever the output buffer
// held before; inputs are never modified, and constructors keep no reference to their arguments.
#include "matx.h"
#include "mon.h"
#include "nodenames.h"
#include "quadx.h"
#include "tyings.h"
#include <GooseFEM/Matrix.h>
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/Vector.h>
#include <GooseFEM/VectorPartitioned.h>
#include <GooseFEM/VectorPartitionedTyings.h>
#include <memory>
using namespace fe;
namespace GF = GooseFEM;

struct Op {
    std::string name;
    std::function<vd()> alloc; // returns the result
    std::function<vd(double)> into; // writes in a buffer filled with the argument, returns it
    bool exact = true; // else: linear algebra, whose summation order may depend on memory alignment
    vd want;
    bool have = false;
};
typedef std::vector<Op> Ops;

template <class T>
static vd flat(const T& a)
{
    vd r;
    for (auto v : a) r.push_back((double)v);
    return r;
}
static vd flat(size_t a)
{
    return vd{(double)a};
}
static vd flat(double a)
{
    return vd{a};
}
static vd flat(const Eigen::SparseMatrix<double>& a)
{
    return dense_flat(a);
}
static vd flat(const Eigen::VectorXd& a)
{
    return sv(a);
}
static bool same_bits(const vd& a, const vd& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
static bool agree(const Op& o, const vd& a, const vd& b)
{
    if (o.exact) return same_bits(a, b);
    if (a.size() != b.size()) return false;
    double s = 1;
    for (auto v : b) s = std::max(s, std::abs(v));
    for (size_t i = 0; i < a.size(); ++i)
        if (!(std::abs(a[i] - b[i]) <= 1e-9 * s)) return false;
    return true;
}

// inputs of which a copy is kept
static std::vector<std::function<bool()>> guards;
template <class T>
static std::shared_ptr<T> guard(const T& a)
{
    auto p = std::make_shared<T>(relay(a));
    auto q = std::make_shared<T>(*p);
    guards.push_back([p, q]() {
        return p->shape() == q->shape() && (p->size() == 0 || std::memcmp(p->data(), q->data(), p->size() * sizeof(*p->data())) == 0);
    });
    return p;
}
// fill what was given to a constructor with something else
template <class T>
static void trash(T& a)
{
    typedef typename T::value_type V;
    for (auto& v : a) v = static_cast<V>(V(3) * v + V(1000000));
}

#define OP(NAME, EXPR) ops.push_back({NAME, [=]() { return flat(EXPR); }, nullptr})
#define OP2(NAME, EXPR, BUF, CALL)                                                                  \
    ops.push_back({NAME, [=]() { return flat(EXPR); }, [=](double fillv) {                           \
                       auto ret = relay(BUF);                                                       \
                       into_begin(ret);                                                             \
                       CALL;                                                                        \
                       into_end(ret, NAME);                                                         \
                       return flat(ret);                                                            \
                   }})
#define INEXACT ops.back().exact = false

static D1 rnd1(mon::Rng& r, size_t n)
{
    D1 a = xt::empty<double>({n});
    fill(r, a);
    return a;
}

// Vector and what derives from it
template <class V>
static void vector_ops(mon::Rng& r, Ops& ops, const Prob& p, std::shared_ptr<V> v, const std::string& n)
{
    auto dv = guard(rnd1(r, p.ndof));
    auto nv = guard(as_node(p, rnd1(r, p.ndof)));
    D3 e = xt::empty<double>({p.nelem, p.nne, p.ndim});
    fill(r, e);
    auto ev0 = guard(e); // arbitrary
    D2 nn = xt::empty<double>({p.nnode, p.ndim});
    fill(r, nn);
    auto nr = guard(nn);
    D3 ec = e; // consistent
    for (size_t i = 0; i < p.nelem; ++i)
        for (size_t m = 0; m < p.nne; ++m)
            for (size_t j = 0; j < p.ndim; ++j) ec(i, m, j) = (*dv)(p.d[p.c[i][m]][j]);
    auto ecs = guard(ec);
    OP2(n + ".AsDofs.nodevec", v->AsDofs(*nv), v->allocate_dofval(fillv), v->asDofs(*nv, ret));
    if (!p.orphan) OP2(n + ".AsDofs.elemvec", v->AsDofs(*ecs), v->allocate_dofval(fillv), v->asDofs(*ecs, ret));
    OP2(n + ".AsNode.dofval", v->AsNode(*dv), v->allocate_nodevec(fillv), v->asNode(*dv, ret));
    if (!p.orphan) OP2(n + ".AsNode.elemvec", v->AsNode(*ecs), v->allocate_nodevec(fillv), v->asNode(*ecs, ret));
    OP2(n + ".AsElement.dofval", v->AsElement(*dv), v->allocate_elemvec(fillv), v->asElement(*dv, ret));
    OP2(n + ".AsElement.nodevec", v->AsElement(*nr), v->allocate_elemvec(fillv), v->asElement(*nr, ret));
    OP2(n + ".AssembleDofs.nodevec", v->AssembleDofs(*nr), v->allocate_dofval(fillv), v->assembleDofs(*nr, ret));
    OP2(n + ".AssembleDofs.elemvec", v->AssembleDofs(*ev0), v->allocate_dofval(fillv), v->assembleDofs(*ev0, ret));
    OP2(n + ".AssembleNode.elemvec", v->AssembleNode(*ev0), v->allocate_nodevec(fillv), v->assembleNode(*ev0, ret));
    OP2(n + ".Copy", v->Copy(*nr, *nv), v->allocate_nodevec(fillv), v->copy(*nr, ret));
    OP(n + ".conn", v->conn());
    OP(n + ".dofs", v->dofs());
    OP(n + ".ndof", v->ndof());
    if constexpr (std::is_same<V, GF::VectorPartitioned>::value) {
        auto du = guard(rnd1(r, v->nnu())), dp = guard(rnd1(r, v->nnp()));
        auto bu = [](const auto& v, double f) {
            D1 a = xt::empty<double>({v->nnu()});
            a.fill(f);
            return a;
        };
        auto bp = [](const auto& v, double f) {
            D1 a = xt::empty<double>({v->nnp()});
            a.fill(f);
            return a;
        };
        OP2(n + ".AsDofs_u.dofval", v->AsDofs_u(*dv), bu(v, fillv), v->asDofs_u(*dv, ret));
        OP2(n + ".AsDofs_p.dofval", v->AsDofs_p(*dv), bp(v, fillv), v->asDofs_p(*dv, ret));
        OP2(n + ".AsDofs_u.nodevec", v->AsDofs_u(*nv), bu(v, fillv), v->asDofs_u(*nv, ret));
        OP2(n + ".AsDofs_p.nodevec", v->AsDofs_p(*nv), bp(v, fillv), v->asDofs_p(*nv, ret));
        if (!p.orphan) {
            OP2(n + ".AsDofs_u.elemvec", v->AsDofs_u(*ecs), bu(v, fillv), v->asDofs_u(*ecs, ret));
            OP2(n + ".AsDofs_p.elemvec", v->AsDofs_p(*ecs), bp(v, fillv), v->asDofs_p(*ecs, ret));
        }
        OP2(n + ".DofsFromParitioned", v->DofsFromParitioned(*du, *dp), v->allocate_dofval(fillv), v->dofsFromParitioned(*du, *dp, ret));
        OP2(n + ".NodeFromPartitioned", v->NodeFromPartitioned(*du, *dp), v->allocate_nodevec(fillv), v->nodeFromPartitioned(*du, *dp, ret));
        OP2(n + ".ElementFromPartitioned", v->ElementFromPartitioned(*du, *dp), v->allocate_elemvec(fillv), v->elementFromPartitioned(*du, *dp, ret));
        OP(n + ".Copy_u", v->Copy_u(*nr, *nv));
        OP(n + ".Copy_p", v->Copy_p(*nr, *nv));
        OP(n + ".iiu", v->iiu());
        OP(n + ".iip", v->iip());
        OP(n + ".dofs_is_u", v->dofs_is_u());
        OP(n + ".dofs_is_p", v->dofs_is_p());
    }
}

static void vec_objects(mon::Rng& r, Ops& ops, const std::string& n)
{
    Prob p = random_problem(r);
    if (r.coin()) {
        U2 conn = relay(p.conn), dofs = relay(p.dofs);
        auto v = std::make_shared<GF::Vector>(conn, dofs);
        trash(conn), trash(dofs);
        vector_ops(r, ops, p, v, n + "Vector");
        mon::cover("Vector");
    }
    else {
        vu iip = random_iip(r, p.ndof);
        U2 conn = relay(p.conn), dofs = relay(p.dofs);
        U1 ii = relay(to_u1(iip));
        auto v = std::make_shared<GF::VectorPartitioned>(conn, dofs, ii);
        trash(conn), trash(dofs), trash(ii);
        mon::same_seq(v->iip(), iip, "argument_kept.iip");
        mon::same_seq(v->conn(), p.conn, "argument_kept.conn");
        mon::same_seq(v->dofs(), p.dofs, "argument_kept.dofs");
        vector_ops(r, ops, p, v, n + "VectorPartitioned");
        mon::cover("VectorPartitioned");
    }
}

static void quad_objects(mon::Rng& r, Ops& ops, const std::string& n)
{
    QC c = random_quad(r);
    with_quad(c, [&](auto& proto) {
        typedef std::decay_t<decltype(proto)> T;
        // arguments of the constructor change after construction
        D3 x = relay(c.X());
        D2 xi = relay(c.XI());
        D1 w = relay(c.W());
        std::shared_ptr<T> q;
        if constexpr (std::is_same<T, GF::Element::Quad4::QuadraturePlanar>::value)
            q = std::make_shared<T>(x, xi, w, c.thick);
        else q = std::make_shared<T>(x, xi, w);
        if (r.coin()) {
            D3 y = relay(c.X());
            q->update_x(y);
            trash(y);
        }
        trash(x), trash(xi), trash(w);
        vd vol;
        for (auto& i : c.vol)
            for (auto j : i) vol.push_back(j);
        mon::close_seq(q->dV(), vol, gtol(c) * c.vs, std::string("argument_kept.x.") + kindname(c.kind));
        std::string k = n + kindname(c.kind);
        D3 u0 = xt::empty<double>({c.nelem, c.nne, c.ndim});
        fill(r, u0);
        auto u = guard(u0);
        D3 qv0 = xt::empty<double>({c.nelem, c.nip, c.ndim});
        fill(r, qv0);
        auto qv = guard(qv0);
        D4 qt0 = xt::empty<double>({c.nelem, c.nip, c.tdim, c.tdim});
        fill(r, qt0);
        auto qt = guard(qt0);
        D6 qf0 = xt::empty<double>({c.nelem, c.nip, c.tdim, c.tdim, c.tdim, c.tdim});
        fill(r, qf0);
        auto qf = guard(qf0);
        D2 qs0 = xt::empty<double>({c.nelem, c.nip});
        fill(r, qs0);
        auto qs = guard(qs0);
        auto q3 = [](const auto& q, double f) {
            D3 a = xt::empty<double>(q->shape_qvector(q->ndim()));
            a.fill(f);
            return a;
        };
        OP2(k + ".InterpQuad_vector", q->InterpQuad_vector(*u), q3(q, fillv), q->interpQuad_vector(*u, ret));
        OP2(k + ".GradN_vector", q->GradN_vector(*u), q->template allocate_qtensor<2>(fillv), q->gradN_vector(*u, ret));
        OP2(k + ".GradN_vector_T", q->GradN_vector_T(*u), q->template allocate_qtensor<2>(fillv), q->gradN_vector_T(*u, ret));
        OP2(k + ".SymGradN_vector", q->SymGradN_vector(*u), q->template allocate_qtensor<2>(fillv), q->symGradN_vector(*u, ret));
        OP2(k + ".Int_N_vector_dV", q->Int_N_vector_dV(*qv), q->allocate_elemvec(fillv), q->int_N_vector_dV(*qv, ret));
        OP2(k + ".Int_N_scalar_NT_dV", q->Int_N_scalar_NT_dV(*qs), q->allocate_elemmat(fillv), q->int_N_scalar_NT_dV(*qs, ret));
        OP2(k + ".Int_gradN_dot_tensor2_dV", q->Int_gradN_dot_tensor2_dV(*qt), q->allocate_elemvec(fillv), q->int_gradN_dot_tensor2_dV(*qt, ret));
        OP2(k + ".Int_gradN_dot_tensor4_dot_gradNT_dV", q->Int_gradN_dot_tensor4_dot_gradNT_dV(*qf), q->allocate_elemmat(fillv), q->int_gradN_dot_tensor4_dot_gradNT_dV(*qf, ret));
        OP2(k + ".AsTensor", q->template AsTensor<2>(*qs), q->template allocate_qtensor<2>(fillv), q->asTensor(*qs, ret));
        OP(k + ".dV", q->dV());
        if constexpr (!is_axi<T>) OP(k + ".GradN", q->GradN());
        mon::cover(std::string("element.") + kindname(c.kind));
    });
}

static vu complement(const vu& ii, size_t n)
{
    std::set<size_t> s(ii.begin(), ii.end());
    vu r;
    for (size_t i = 0; i < n; ++i)
        if (!s.count(i)) r.push_back(i);
    return r;
}

static void mat_objects(mon::Rng& r, Ops& ops, const std::string& n)
{
    int kind = (int)r.range(0, 4);
    if (kind == 4) {
        Tied t;
        for (int k = 0; k < 200; ++k) {
            t = random_tied(r, true);
            if (t.nu && t.ndof <= 80) break;
        }
        Prob q = t.p;
        U2 dofs = relay(U2(t.per.dofs()));
        q.dofs = dofs;
        q.finish();
        U2 conn = relay(q.conn);
        auto Cdu = t.per.Cdu(), Cdp = t.per.Cdp(), Cdi = t.per.Cdi();
        auto A = std::make_shared<GF::MatrixPartitionedTyings>(conn, dofs, Cdu, Cdp);
        auto v = std::make_shared<GF::VectorPartitionedTyings>(conn, dofs, Cdu, Cdp, Cdi);
        D3 K = relay(elemmat_spd(r, q));
        A->assemble(K);
        trash(conn), trash(dofs), trash(K);
        Cdu *= 3, Cdp *= 3, Cdi *= 3;
        auto b = guard(rnd1(r, q.ndof)), x = guard(rnd1(r, q.ndof));
        auto bn = guard(as_node(q, *b)), xn = guard(as_node(q, *x));
        auto S = std::make_shared<GF::MatrixPartitionedTyingsSolver<>>();
        EM M = EM::Map(A->Todense().data(), q.ndof, q.ndof);
        OP2(n + "Tyings.Todense", A->Todense(), (D2)xt::full_like(xt::eval(xt::empty<double>({q.ndof, q.ndof})), fillv), A->todense(ret));
        OP(n + "Tyings.data_uu", A->data_uu());
        OP(n + "Tyings.data_dp", A->data_dp());
        OP(n + "Tyings.Solve.dofval", S->Solve(*A, *b, *x));
        INEXACT;
        OP(n + "Tyings.Solve.nodevec", S->Solve(*A, *bn, *xn));
        INEXACT;
        vector_ops(r, ops, q, v, n + "VectorPartitionedTyings");
        OP2(n + "VectorPartitionedTyings.AsDofs_i", v->AsDofs_i(*xn), (D1)xt::full_like(v->AsDofs_i(*xn), fillv), v->asDofs_i(*xn, ret));
        INEXACT;
        mon::cover("Tyings");
        return;
    }
    Prob p = matrix_problem(r, true, 50);
    auto full2 = [](size_t n, double f) {
        D2 a = xt::empty<double>({n, n});
        a.fill(f);
        return a;
    };
    auto full1 = [](size_t n, double f) {
        D1 a = xt::empty<double>({n});
        a.fill(f);
        return a;
    };
    auto fullnode = [](const Prob& p, double f) {
        D2 a = xt::empty<double>({p.nnode, p.ndim});
        a.fill(f);
        return a;
    };
    U2 conn = relay(p.conn), dofs = relay(p.dofs);
    auto b = guard(rnd1(r, p.ndof)), x = guard(rnd1(r, p.ndof));
    auto bn = guard(as_node(p, *b)), xn = guard(as_node(p, *x));
    size_t N = p.ndof;
    vu iip = random_iip(r, N, false, 1);
    U1 ii = relay(to_u1(iip));
    auto common = [&](auto A, const std::string& k) {
        mon::same_seq(A->conn(), p.conn, "argument_kept.conn");
        mon::same_seq(A->dofs(), p.dofs, "argument_kept.dofs");
        OP2(k + ".Todense", A->Todense(), full2(N, fillv), A->todense(ret));
        OP2(k + ".Dot.dofval", A->Dot(*x), full1(N, fillv), A->dot(*x, ret));
        INEXACT;
        OP2(k + ".Dot.nodevec", A->Dot(*xn), fullnode(p, fillv), A->dot(*xn, ret));
        INEXACT;
        mon::cover(k.substr(n.size()));
    };
    auto reactions = [&](auto A, const std::string& k) {
        mon::same_seq(A->iip(), iip, "argument_kept.iip");
        vu iiu = complement(iip, N);
        auto xu = guard(rnd1(r, iiu.size())), xp = guard(rnd1(r, iip.size()));
        OP(k + ".Reaction.dofval", A->Reaction(*x, *b));
        INEXACT;
        OP(k + ".Reaction.nodevec", A->Reaction(*xn, *bn));
        INEXACT;
        OP2(k + ".Reaction_p", A->Reaction_p(*xu, *xp), full1(iip.size(), fillv), A->reaction_p(*xu, *xp, ret));
        INEXACT;
    };
    if (kind == 0) {
        auto A = std::make_shared<GF::Matrix>(conn, dofs);
        trash(conn), trash(dofs);
        D3 K = relay(elemmat_spd(r, p));
        A->assemble(K);
        trash(K);
        common(A, n + "Matrix");
        auto S = std::make_shared<GF::MatrixSolver<>>();
        OP2(n + "Matrix.Solve.dofval", S->Solve(*A, *b), full1(N, fillv), S->solve(*A, *b, ret));
        INEXACT;
        OP2(n + "Matrix.Solve.nodevec", S->Solve(*A, *bn), fullnode(p, fillv), S->solve(*A, *bn, ret));
        INEXACT;
        OP(n + "Matrix.data", A->data());
    }
    else if (kind == 1) {
        auto A = std::make_shared<GF::MatrixPartitioned>(conn, dofs, ii);
        trash(conn), trash(dofs), trash(ii);
        D3 K = relay(elemmat_spd(r, p));
        A->assemble(K);
        trash(K);
        common(A, n + "MatrixPartitioned");
        reactions(A, n + "MatrixPartitioned");
        auto S = std::make_shared<GF::MatrixPartitionedSolver<>>();
        auto bu = guard(rnd1(r, N - iip.size())), xp = guard(rnd1(r, iip.size()));
        size_t nu = N - iip.size();
        OP(n + "MatrixPartitioned.Solve.dofval", S->Solve(*A, *b, *x));
        INEXACT;
        OP(n + "MatrixPartitioned.Solve.nodevec", S->Solve(*A, *bn, *xn));
        INEXACT;
        OP2(n + "MatrixPartitioned.Solve_u", S->Solve_u(*A, *bu, *xp), full1(nu, fillv), S->solve_u(*A, *bu, *xp, ret));
        INEXACT;
        OP(n + "MatrixPartitioned.data_uu", A->data_uu());
    }
    else if (kind == 2) {
        auto A = std::make_shared<GF::MatrixDiagonal>(conn, dofs);
        trash(conn), trash(dofs);
        D3 K = relay(elemmat_diag(r, p, false));
        A->assemble(K);
        trash(K);
        common(A, n + "MatrixDiagonal");
        OP2(n + "MatrixDiagonal.Solve.dofval", A->Solve(*b), full1(N, fillv), A->solve(*b, ret));
        OP2(n + "MatrixDiagonal.Solve.nodevec", A->Solve(*bn), fullnode(p, fillv), A->solve(*bn, ret));
        OP(n + "MatrixDiagonal.Todiagonal", A->Todiagonal());
    }
    else {
        auto A = std::make_shared<GF::MatrixDiagonalPartitioned>(conn, dofs, ii);
        trash(conn), trash(dofs), trash(ii);
        D3 K = relay(elemmat_diag(r, p, false));
        A->assemble(K);
        trash(K);
        common(A, n + "MatrixDiagonalPartitioned");
        reactions(A, n + "MatrixDiagonalPartitioned");
        size_t nu = N - iip.size(), np = iip.size();
        auto xu = guard(rnd1(r, nu)), xp = guard(rnd1(r, np));
        OP2(n + "MatrixDiagonalPartitioned.Dot_u", A->Dot_u(*xu, *xp), full1(nu, fillv), A->dot_u(*xu, *xp, ret));
        OP2(n + "MatrixDiagonalPartitioned.Dot_p", A->Dot_p(*xu, *xp), full1(np, fillv), A->dot_p(*xu, *xp, ret));
        OP2(n + "MatrixDiagonalPartitioned.Solve_u", A->Solve_u(*xu, *xp), full1(nu, fillv), A->solve_u(*xu, *xp, ret));
        OP(n + "MatrixDiagonalPartitioned.Todiagonal", A->Todiagonal());
        OP(n + "MatrixDiagonalPartitioned.data_pp", A->data_pp());
    }
}

template <class M>
static void mesh_common(Ops& ops, std::shared_ptr<M> m, const std::string& n)
{
    OP(n + ".coor", m->coor());
    OP(n + ".conn", m->conn());
    OP(n + ".dofs", m->dofs());
    OP(n + ".dofsPeriodic", m->dofsPeriodic());
    OP(n + ".nodesPeriodic", m->nodesPeriodic());
    OP(n + ".nodesOrigin", m->nodesOrigin());
    OP(n + ".nelx", m->nelx());
    OP(n + ".nely", m->nely());
    OP(n + ".h", m->h());
}
template <class M>
static void mesh_2d(Ops& ops, std::shared_ptr<M> m, const std::string& n)
{
    mesh_common(ops, m, n);
#define X(name) OP(n + ".nodes" #name, m->nodes##name());
    NODES2D(X)
#undef X
}

static void mesh_objects(mon::Rng& r, Ops& ops, const std::string& n)
{
    int kind = (int)r.range(0, 4);
    double h = r.logu(0.2, 5);
    if (kind == 0) {
        auto m = std::make_shared<GF::Mesh::Quad4::Regular>(r.range(1, 6), r.range(1, 6), h);
        mesh_2d(ops, m, n + "Quad4::Regular");
        OP(n + "Quad4::Regular.elementgrid", m->elementgrid());
    }
    else if (kind == 1) {
        auto m = std::make_shared<GF::Mesh::Tri3::Regular>(r.range(1, 6), r.range(1, 6), h);
        mesh_2d(ops, m, n + "Tri3::Regular");
    }
    else if (kind == 2) {
        auto m = std::make_shared<GF::Mesh::Quad4::FineLayer>(r.pick(std::vector<size_t>{3, 6, 9, 12, 7}), r.range(1, 19), h, r.range(1, 3));
        std::string k = n + "Quad4::FineLayer";
        mesh_2d(ops, m, k);
        OP(k + ".elementsMiddleLayer", m->elementsMiddleLayer());
        OP(k + ".elemrow_nelem", m->elemrow_nelem());
        OP(k + ".elemrow_nhx", m->elemrow_nhx());
        OP(k + ".roll", m->roll(1));
        size_t l = r.range(0, m->elemrow_nelem().size() - 1);
        OP(k + ".elementsLayer", m->elementsLayer(l));
        if (r.coin()) {
            auto map = std::make_shared<GF::Mesh::Quad4::Map::FineLayer2Regular>(*m);
            OP(k + ".map.coor", map->regularMesh().coor());
            auto e = guard(rnd1(r, m->nelem()));
            OP(k + ".map.mapToRegular", map->mapToRegular(*e));
        }
    }
    else if (kind == 3) {
        size_t nx = r.range(1, 4), ny = r.range(1, 4), f = r.range(1, 3), g = r.range(1, 3);
        GF::Mesh::Quad4::Regular coarse(nx, ny, h);
        auto m = std::make_shared<GF::Mesh::Quad4::Map::RefineRegular>(coarse, f, g);
        auto ec = guard(rnd1(r, nx * ny));
        auto ef = guard(rnd1(r, nx * ny * f * g));
        OP(n + "RefineRegular.map", m->map());
        OP(n + "RefineRegular.mapToFine", m->mapToFine(*ec));
        OP(n + "RefineRegular.meanToCoarse", m->meanToCoarse(*ef));
        OP(n + "RefineRegular.coarse", m->coarseMesh().coor());
        OP(n + "RefineRegular.fine", m->fineMesh().conn());
    }
    else {
        // stitched, from containers which are changed afterwards, also by what is added later
        GF::Mesh::Quad4::Regular a(r.range(1, 4), r.range(1, 3), h);
        D2 x = a.coor();
        U2 c = a.conn();
        auto s = std::make_shared<GF::Mesh::Stitch>();
        size_t nm = r.range(1, 4);
        for (size_t i = 0; i < nm; ++i) {
            D2 y = x;
            for (size_t j = 0; j < y.shape(0); ++j) y(j, 1) += h * (double)(i * a.nely());
            U2 cc = relay(c);
            y = relay(y);
            s->push_back(y, cc);
            trash(y), trash(cc);
        }
        vd wx;
        for (size_t j = 0; j < x.shape(0); ++j) wx.push_back(x(j, 0)), wx.push_back(x(j, 1));
        auto got = flat(s->coor());
        got.resize(std::min(got.size(), wx.size()));
        mon::same_seq(got, wx, "argument_kept.stitch");
        U1 set = a.nodesTopEdge();
        auto sg = guard(set);
        OP(n + "Stitch.coor", s->coor());
        OP(n + "Stitch.conn", s->conn());
        OP(n + "Stitch.nodeset", s->nodeset(*sg, nm - 1));
        OP(n + "Stitch.nodemap", s->nodemap(nm - 1));
        OP(n + "Stitch.elemmap", s->elemmap(nm - 1));
        auto cg = guard(U2(s->conn()));
        auto xg = guard(D2(s->coor()));
        size_t nn = s->nnode();
        OP(n + "coordination", GF::Mesh::coordination(*cg));
        OP(n + "centers", GF::Mesh::centers(*xg, *cg));
        OP(n + "edgesize", GF::Mesh::edgesize(*xg, *cg));
        OP(n + "renumber", GF::Mesh::renumber(*cg));
        OP(n + "dofs", GF::Mesh::dofs(nn, 2));
        // blocks of a permutation of the DOFs
        vu perm = r.perm(nn * 2);
        size_t cut = r.range(1, nn * 2 - 1);
        auto ia = guard(to_u1(vu(perm.begin(), perm.begin() + cut))), ib = guard(to_u1(vu(perm.begin() + cut, perm.end())));
        auto dg = guard(U2(s->dofs()));
        auto re = std::make_shared<GF::Mesh::Reorder>(std::initializer_list<U1>{*ia, *ib});
        OP(n + "Reorder.apply", re->apply(*dg));
        OP(n + "Reorder.index", re->index());
        auto rn = std::make_shared<GF::Mesh::Renumber>(*cg);
        OP(n + "Renumber.apply", rn->apply(*cg));
        OP(n + "Renumber.index", rn->index());
        ops.push_back({n + "elem2node", [=]() {
                           vd v;
                           for (auto& i : GF::Mesh::elem2node(*cg))
                               for (auto j : i) v.push_back((double)j);
                           return v;
                       }, nullptr});
        OP(n + "nodal_mass", GF::Mesh::nodal_mass(*xg, *cg));
        OP(n + "center_of_gravity", GF::Mesh::center_of_gravity(*xg, *cg));
    }
    static const char* names[] = {"Quad4::Regular", "Tri3::Regular", "Quad4::FineLayer", "RefineRegular", "Stitch"};
    mon::cover(std::string("mesh.") + names[kind]);
}

// functions that take arrays, and objects that are made from arrays
static vd flat(const std::vector<std::vector<size_t>>& a)
{
    vd r;
    for (auto& i : a) {
        r.push_back(-1.0);
        for (auto j : i) r.push_back((double)j);
    }
    return r;
}
static void array_objects(mon::Rng& r, Ops& ops, const std::string& n)
{
    int kind = (int)r.range(0, 5);
    if (kind == 0) {
        Tied t = random_tied(r);
        auto coor = guard(D2(t.coor));
        auto dofs = guard(U2(t.dofs)), control = guard(U2(t.control)), ties = guard(U2(t.ties));
        auto iip = guard(to_u1(t.iip));
        typedef GF::Tyings::Periodic P;
        OP(n + "Periodic.dofs", P(*coor, *dofs, *control, *ties, *iip).dofs());
        OP(n + "Periodic.control", P(*coor, *dofs, *control, *ties, *iip).control());
        OP(n + "Periodic.Cdu", P(*coor, *dofs, *control, *ties, *iip).Cdu());
        OP(n + "Periodic.Cdp", P(*coor, *dofs, *control, *ties, *iip).Cdp());
        OP(n + "Periodic.Cdi", P(*coor, *dofs, *control, *ties).Cdi());
        OP(n + "Periodic.iii", P(*coor, *dofs, *control, *ties, *iip).iii());
        OP(n + "Control.coor", GF::Tyings::Control(*coor, *dofs).coor());
        OP(n + "Control.dofs", GF::Tyings::Control(*coor, *dofs).dofs());
        OP(n + "node2dof", GF::Mesh::node2dof(*dofs));
    }
    else if (kind == 1) {
        double h = r.logu(0.3, 3);
        size_t nx = r.range(1, 4), ny = r.range(1, 3);
        GF::Mesh::Quad4::Regular m(nx, ny, h);
        D2 x = m.coor(), y = m.coor();
        for (size_t i = 0; i < y.shape(0); ++i) y(i, 1) += h * (double)ny;
        auto xa = guard(x), xb = guard(y);
        auto ca = guard(U2(m.conn())), cb = guard(U2(m.conn()));
        auto top = guard(U1(m.nodesTopEdge())), bot = guard(U1(m.nodesBottomEdge()));
        auto es = guard(to_u1(r.perm(nx * ny)));
        auto s = std::make_shared<GF::Mesh::ManualStitch>(*xa, *ca, *top, *xb, *cb, *bot);
        OP(n + "ManualStitch", GF::Mesh::ManualStitch(*xa, *ca, *top, *xb, *cb, *bot).coor());
        OP(n + "ManualStitch.conn", s->conn());
        OP(n + "ManualStitch.nodemap", s->nodemap(1));
        OP(n + "ManualStitch.nodeset", s->nodeset(*top, 1));
        OP(n + "ManualStitch.elemset", s->elemset(*es, 1));
        auto v = std::make_shared<GF::Mesh::Vstack>();
        for (int i = 0; i < 3; ++i) v->push_back(*xa, *ca, *bot, *top);
        OP(n + "Vstack.coor", v->coor());
        OP(n + "Vstack.conn", v->conn());
        OP(n + "Vstack.nodeset", v->nodeset(*top, 2));
        OP(n + "Vstack.elemset", v->elemset(*es, 1));
    }
    else if (kind == 2) {
        GF::Mesh::Tri3::Regular m(r.range(1, 4), r.range(1, 4), r.logu(0.3, 3));
        auto x = guard(D2(m.coor()));
        U2 c = m.conn();
        for (size_t e = 0; e < c.shape(0); ++e)
            if (r.coin()) std::swap(c(e, 1), c(e, 2));
        auto cg = guard(c);
        OP(n + "getOrientation", GF::Mesh::Tri3::getOrientation(*x, *cg));
        OP(n + "setOrientation", GF::Mesh::Tri3::setOrientation(*x, *cg, 1));
        OP(n + "coordination.Tri3", GF::Mesh::coordination(*cg));
    }
    else if (kind == 3) {
        GF::Mesh::Quad4::FineLayer m(r.pick(std::vector<size_t>{3, 6, 9, 18, 7}), r.range(1, 25), r.logu(0.3, 3), r.range(1, 3));
        auto x = guard(D2(m.coor()));
        auto c = guard(U2(m.conn()));
        auto f = std::make_shared<GF::Mesh::Quad4::FineLayer>(*x, *c);
        OP(n + "FineLayer.coor", f->coor());
        OP(n + "FineLayer.conn", f->conn());
        OP(n + "FineLayer.elemrow_nhx", f->elemrow_nhx());
        OP(n + "FineLayer.nodesPeriodic", f->nodesPeriodic());
        size_t e = f->elementsMiddleLayer()(r.range(0, f->elementsMiddleLayer().size() - 1));
        size_t k = r.range(0, 2);
        OP(n + "FineLayer.elementgrid_leftright", f->elementgrid_leftright(e, k, k));
    }
    else if (kind == 4) {
        D1 a1 = xt::empty<double>({r.range(1, 6)});
        D2 a2 = xt::empty<double>({r.range(1, 6), r.range(1, 3)});
        D3 a3 = xt::empty<double>({r.range(1, 4), r.range(1, 4), r.range(1, 3)});
        fill(r, a1), fill(r, a2), fill(r, a3);
        auto g1 = guard(a1);
        auto g2 = guard(a2);
        auto g3 = guard(a3);
        size_t d = r.range(1, 3);
        OP(n + "AsTensor<1>", (GF::AsTensor<1>(*g1, d)));
        OP(n + "AsTensor<2>", (GF::AsTensor<2>(*g2, d)));
        OP(n + "AsTensor.rank", GF::AsTensor(2, *g3, d));
        OP(n + "AsTensor.shape", GF::AsTensor(*g2, {d, d + 1}));
        OP(n + "as3d", GF::as3d(*g2));
        vu u = r.perm(r.range(1, 9));
        if (r.coin()) u.push_back(u[0]);
        auto ug = guard(to_u1(u));
        OP(n + "is_unique", (size_t)GF::is_unique(*ug));
        OP(n + "renumber", GF::Mesh::renumber(*ug));
    }
    else {
        Prob p = random_problem(r);
        auto conn = guard(p.conn), dofs = guard(p.dofs);
        OP(n + "node2dof", GF::Mesh::node2dof(*dofs));
        // (ties are between nodes)
        GF::Mesh::Quad4::Regular m(r.range(1, 4), r.range(1, 4));
        auto mc = guard(U2(m.conn())), md = guard(r.coin() ? U2(m.dofs()) : U2(m.dofsPeriodic()));
        OP(n + "elem2node.dofs", GF::Mesh::elem2node(*mc, *md));
        OP(n + "nodaltyings", GF::Mesh::nodaltyings(*md));
        size_t N = p.ndof;
        D2 block = xt::empty<double>({r.range(1, N), r.range(1, N)});
        fill(r, block);
        vu ri = r.perm(N), ci = r.perm(N);
        ri.resize(block.shape(0)), ci.resize(block.shape(1));
        auto b = guard(block);
        auto rows = guard(to_u1(ri)), cols = guard(to_u1(ci));
        D3 e = xt::empty<double>({p.nelem, p.nne * p.ndim, p.nne * p.ndim});
        fill(r, e);
        auto K = guard(e);
        auto dv = guard(rnd1(r, N));
        auto changed = [=](int how) {
            GF::Matrix A(*conn, *dofs);
            A.assemble(*K);
            if (how == 1) A.set(*rows, *cols, *b);
            if (how == 2) A.add(*rows, *cols, *b);
            return A.Todense();
        };
        OP(n + "Matrix.assemble", changed(0));
        INEXACT;
        OP(n + "Matrix.set", changed(1));
        INEXACT;
        OP(n + "Matrix.add", changed(2));
        INEXACT;
        auto diagonal = [=]() {
            GF::MatrixDiagonal A(*conn, *dofs);
            A.set(*dv);
            return A.Todiagonal();
        };
        OP(n + "MatrixDiagonal.set", diagonal());
    }
    static const char* names[] = {"tyings", "stack", "triangles", "replica", "helpers", "assembly"};
    mon::cover(std::string("arrays.") + names[kind]);
}

#ifndef C31_OPERATIONS_ONLY // (shared with c34_threads.cpp)
void run_case(mon::Rng& r)
{
    guards.clear();
    Ops ops;
    size_t nobj = r.range(2, 4);
    std::string what;
    for (size_t i = 0; i < nobj; ++i) {
        int k = (int)r.range(0, 4);
        std::string n = "";
        size_t before = ops.size();
        if (k == 0) vec_objects(r, ops, n);
        if (k == 1) quad_objects(r, ops, n);
        if (k == 2) mat_objects(r, ops, n);
        if (k == 3) mesh_objects(r, ops, n);
        if (k == 4) array_objects(r, ops, n);
        if (ops.size() > before) what += ops[before].name + " ";
    }
    mon::context() = what;
    static const double fills[] = {std::numeric_limits<double>::quiet_NaN(), 1e30, -7.0, 0.0, std::numeric_limits<double>::infinity()};
    uint64_t h = 1469598103934665603ull;
    for (int round = 0; round < 3; ++round) {
        auto order = r.perm(ops.size());
        for (auto i : order) {
            Op& o = ops[i];
            bool into = o.into && r.coin(0.6);
            double f = fills[r.range(0, 4)];
            vd got = into ? o.into(f) : o.alloc();
            if (!o.have) {
                // reference: in the middle of the first round, in random order
                o.want = into ? o.alloc() : got;
                o.have = true;
            }
            std::string d = o.name + (into ? fmt(" into a buffer of %g", f) : std::string(" allocated"));
            mon::ok(agree(o, got, o.want), (into ? "into." : "again.") + o.name, d + fmt(" round %d", round));
            mon::cover(into ? "calls.into" : "calls.allocating");
            h = mon::mix(h, i);
        }
    }
    bool same = true;
    for (auto& g : guards) same = same && g();
    mon::ok(same, "input_modified");
    mon::cover("inputs_guarded", guards.size());
    for (auto& o : ops)
        for (auto v : o.want) h = mon::mix(h, mon::hashd(v));
    mon::nontrivial(h);
    mon::sample(what);
    guards.clear();
}
#endif
