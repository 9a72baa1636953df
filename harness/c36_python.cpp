// C36: the Python interface does what the C++ function of the same name does.
// The bindings (python/*.hpp, main.cpp) are compiled as they are, against a stand-in for pybind11
// (harness/py_stub) that records what they register and calls it the way Python would.
#include "python/main.cpp"
#undef Q
#include "fe_mesh.h"
#include "matx.h"
#include "mon.h"
#include "nodenames.h"
#include "quadx.h"
#include "tyings.h"
using namespace fe;
namespace GF = GooseFEM;
using py::Value;

static py::Module& top()
{
    static py::module_ m;
    static bool done = false;
    if (!done) {
        done = true;
        pybind11_init__GooseFEM(m);
    }
    return *m.m;
}
static py::Module* submodule(const std::string& path)
{
    py::Module* m = &top();
    std::string rest = path;
    while (!rest.empty()) {
        auto k = rest.find('.');
        std::string head = rest.substr(0, k);
        rest = k == std::string::npos ? "" : rest.substr(k + 1);
        auto i = m->submodules.find(head);
        if (i == m->submodules.end()) return nullptr;
        m = i->second.get();
    }
    return m;
}
static std::pair<std::string, std::string> split(const std::string& path)
{
    auto k = path.rfind('.');
    return k == std::string::npos ? std::make_pair(std::string(), path) : std::make_pair(path.substr(0, k), path.substr(k + 1));
}

static mon::Rng* rng = nullptr;
struct A {
    std::string name; // "": can only be positional
    Value v;
    template <class T>
    A(const char* n, const T& x) : name(n), v(py::to_value(x))
    {
    }
    A(const char* n, const Value& x) : name(n), v(x) {}
};
typedef std::vector<A> As;
// the caller writes some arguments by position and the rest by name, in any order
static py::Args arrange(const As& a)
{
    size_t pos = a.size();
    if (rng->coin(0.6)) pos = rng->range(0, a.size());
    while (pos < a.size() && a[pos].name.empty()) ++pos;
    py::Args ret;
    for (size_t i = 0; i < pos; ++i) ret.push_back({"", a[i].v});
    auto q = rng->perm(a.size() - pos);
    for (auto i : q) ret.push_back({a[pos + i].name, a[pos + i].v});
    mon::cover("arguments.positional", pos);
    mon::cover("arguments.keyword", a.size() - pos);
    return ret;
}
static std::string show(const Value& v)
{
    switch (v.kind) {
    case py::NONE: return "None";
    case py::BOOL: return v.b ? "True" : "False";
    case py::INT: return fmt("%lld", v.i);
    case py::FLOAT: return fmt("%.17g", v.d);
    case py::STR: return "'" + v.s + "'";
    case py::LIST: return fmt("list of %zu", v.list->size());
    case py::ARRAY: return "array";
    default: return "object";
    }
}
static bool equal(const Value& a, const Value& b)
{
    if (a.kind != b.kind) return false;
    switch (a.kind) {
    case py::NONE: return true;
    case py::BOOL: return a.b == b.b;
    case py::INT: return a.i == b.i;
    case py::FLOAT: return a.d == b.d || (a.d != a.d && b.d != b.d);
    case py::STR: return a.s == b.s;
    case py::LIST:
        if (a.list->size() != b.list->size()) return false;
        for (size_t i = 0; i < a.list->size(); ++i)
            if (!equal((*a.list)[i], (*b.list)[i])) return false;
        return true;
    default: return a.type == b.type && a.same && a.same(a.p.get(), b.p.get());
    }
}
static bool same(const Value& got, const Value& want, const std::string& key)
{
    bool g = equal(got, want);
    return mon::ok(g, key, g ? "" : "Python: " + show(got) + " C++: " + show(want));
}
struct missing : std::runtime_error {
    using std::runtime_error::runtime_error;
};

struct Obj {
    Value v;
    py::Class* c = nullptr;
    std::string name;
    Obj() {}
    Obj(const std::string& path, const As& a) : name(path)
    {
        auto s = split(path);
        auto* m = submodule(s.first);
        if (!m || !m->classes.count(s.second)) throw missing("no class " + path);
        c = m->classes[s.second].get();
        v = py::call(c->init, nullptr, arrange(a), path);
        v.kind = py::OBJECT;
        v.type = c->type;
        mon::cover("objects");
        mon::cover("class." + path);
    }
    // an object that some property returned
    Obj(const std::string& path, const Value& x) : v(x), name(path)
    {
        auto i = py::registry().find(x.type);
        if (x.kind != py::OBJECT || i == py::registry().end()) throw missing("not an instance of " + path);
        c = i->second;
    }
    Value get(const std::string& n) const
    {
        for (py::Class* k = c; k; k = k->base) {
            auto i = k->getters.find(n);
            if (i == k->getters.end()) continue;
            std::vector<Value> a{v};
            mon::cover("properties");
            return i->second(a);
        }
        throw missing(name + " has no property " + n);
    }
    void set(const std::string& n, const Value& x) const
    {
        for (py::Class* k = c; k; k = k->base) {
            auto i = k->setters.find(n);
            if (i == k->setters.end()) continue;
            py::call(i->second, &v, {{"", x}}, name + "." + n);
            mon::cover("properties.set");
            return;
        }
        throw missing(name + " cannot set " + n);
    }
    // (a name that is defined by a derived class hides all overloads of the base class)
    Value call(const std::string& n, const As& a = {}) const
    {
        for (py::Class* k = c; k; k = k->base) {
            auto i = k->methods.find(n);
            if (i == k->methods.end()) continue;
            mon::cover("calls");
            return py::call(i->second, &v, arrange(a), name + "." + n);
        }
        throw missing(name + " has no method " + n);
    }
};
static Value fcall(const std::string& path, const As& a = {})
{
    auto s = split(path);
    auto* m = submodule(s.first);
    if (!m || !m->functions.count(s.second)) throw missing("no function " + path);
    mon::cover("calls");
    return py::call(m->functions[s.second], nullptr, arrange(a), path);
}
// evaluates one comparison; names that do not exist, and calls that Python refuses, are violations
template <class F>
static void item(const std::string& key, F&& f)
{
    try {
        f();
    }
    catch (const missing& e) {
        mon::ok(false, key, e.what());
    }
    catch (const py::type_error& e) {
        mon::ok(false, key, e.what());
    }
    catch (const py::no_match&) {
        mon::ok(false, key, "wrong self");
    }
}
// the same result, or refused by both
template <class F, class G>
static void twin(const std::string& key, F&& python, G&& cpp)
{
    Value want, got;
    bool refused = false, threw = false;
    std::string why;
    try {
        want = cpp();
    }
    catch (const std::exception& e) {
        refused = true, why = e.what();
    }
    item(key, [&]() {
        try {
            got = python();
        }
        catch (const missing&) {
            throw;
        }
        catch (const py::type_error&) {
            throw;
        }
        catch (const std::exception& e) {
            threw = true, why = e.what();
        }
        if (!mon::ok(threw == refused, key, (threw ? "only Python refuses: " : "only C++ refuses: ") + why)) return;
        if (refused) mon::cover("refused_by_both");
        else same(got, want, key);
    });
}
#define ITEM(key, ...) item(key, [&]() { __VA_ARGS__; })
#define PROP(n) ITEM(o.name + "." #n, same(o.get(#n), py::to_value(c.n()), o.name + "." #n));
// property of the same name as in C++ / method that returns / method that writes its last argument
#define RET(n, cpp, ...) twin(o.name + "." n, [&]() { return o.call(n, As{__VA_ARGS__}); }, [&]() { return py::to_value(cpp); })
#define FUN(n, cpp, ...) twin(n, [&]() { return fcall(n, As{__VA_ARGS__}); }, [&]() { return py::to_value(cpp); })
#define FUNV(n, a, cpp) twin(n, [&]() { return fcall(n, a); }, [&]() { return py::to_value(cpp); })
// `out`: what is in the output before the call; `stmt`: the C++ call, writing `w`
#define INTO(n, T, out, stmt, last, ...) \
    ITEM(o.name + "." n, T w = out; Value g = py::to_value(T(out)); stmt; o.call(n, As{__VA_ARGS__ A(last, g)}); same(g, py::to_value(w), o.name + "." n); mon::cover("outputs_written"))

template <class T>
static T any(mon::Rng& r, std::vector<size_t> shape)
{
    T a = T::from_shape(shape);
    for (auto& v : a) v = r.uni(-2, 2);
    return a;
}
template <class S>
static std::vector<size_t> vec(const S& s)
{
    return std::vector<size_t>(s.begin(), s.end());
}

static void vector_base(mon::Rng& r, const Obj& o, const GF::Vector& c)
{
    PROP(nelem) PROP(nne) PROP(nnode) PROP(ndim) PROP(ndof) PROP(conn) PROP(dofs)
    PROP(shape_dofval) PROP(shape_nodevec) PROP(shape_elemvec) PROP(shape_elemmat)
    typedef xt::xarray<double> X;
    X dv = any<X>(r, {c.ndof()}), nv = any<X>(r, vec(c.shape_nodevec())), nw = any<X>(r, vec(c.shape_nodevec())), ev = any<X>(r, vec(c.shape_elemvec()));
    bool derived = o.name != "Vector";
    RET("Copy", c.Copy(nv, nw), {"nodevec_src", nv}, {"nodevec_dest", nw});
    INTO("copy", X, nw, c.copy(nv, w), "nodevec_dest", A("nodevec_src", nv), );
    for (auto* i : {&nv, &ev}) {
        RET("AsDofs", c.AsDofs(*i), {"arg", *i});
        INTO("asDofs", D1, any<D1>(r, {c.ndof()}), (c.asDofs(*i, w), g = py::to_value(any<D1>(r, {c.ndof()}))), "ret", A("arg", *i), );
    }
    for (auto* i : {&dv, &ev}) {
        RET("AsNode", c.AsNode(*i), {"arg", *i});
        INTO("asNode", D2, D2(nw), c.asNode(*i, w), "ret", A("arg", *i), );
    }
    for (auto* i : {&dv, &nv}) {
        RET("AsElement", c.AsElement(*i), {"arg", *i});
        INTO("asElement", D3, D3(ev), c.asElement(*i, w), "ret", A("arg", *i), );
    }
    for (auto* i : {&nv, &ev}) {
        RET("AssembleDofs", c.AssembleDofs(*i), {"arg", *i});
        INTO("assembleDofs", D1, any<D1>(r, {c.ndof()}), c.assembleDofs(*i, w), "ret", A("arg", *i), );
    }
    RET("AssembleNode", c.AssembleNode(ev), {"arg", ev});
    INTO("assembleNode", D2, D2(nw), c.assembleNode(ev, w), "ret", A("arg", ev), );
    double v = r.uni(-3, 3);
    RET("allocate_dofval", c.allocate_dofval(v), {"", v});
    RET("allocate_nodevec", c.allocate_nodevec(v), {"", v});
    RET("allocate_elemvec", c.allocate_elemvec(v), {"", v});
    RET("allocate_elemmat", c.allocate_elemmat(v), {"", v});
    // (not initialised: only the shape)
#define SHAPE(n, T) ITEM(o.name + "." n, { auto g = o.call(n); mon::ok(g.kind == py::ARRAY && vec(static_cast<X*>(g.p.get())->shape()) == vec(c.T()), o.name + "." n); })
    SHAPE("allocate_dofval", shape_dofval);
    SHAPE("allocate_nodevec", shape_nodevec);
    SHAPE("allocate_elemvec", shape_elemvec);
    SHAPE("allocate_elemmat", shape_elemmat);
    RET("__repr__", std::string("<GooseFEM." + o.name + ">"));
    if (derived) mon::cover("inherited");
}

static void vectors(mon::Rng& r)
{
    Prob p = random_problem(r);
    mon::context() = p.what;
    {
        GF::Vector c(p.conn, p.dofs);
        Obj o("Vector", {{"conn", p.conn}, {"dofs", p.dofs}});
        vector_base(r, o, c);
    }
    U1 iip = to_u1(random_iip(r, p.ndof));
    GF::VectorPartitioned c(p.conn, p.dofs, iip);
    Obj o("VectorPartitioned", {{"conn", p.conn}, {"dofs", p.dofs}, {"iip", iip}});
    vector_base(r, o, c);
    PROP(nnu) PROP(nnp) PROP(iiu) PROP(iip) PROP(dofs_is_u) PROP(dofs_is_p)
    D1 u = any<D1>(r, {c.nnu()}), q = any<D1>(r, {c.nnp()});
    D2 nv = any<D2>(r, vec(c.shape_nodevec())), nw = any<D2>(r, vec(c.shape_nodevec()));
    D3 ev = any<D3>(r, vec(c.shape_elemvec()));
    RET("DofsFromParitioned", c.DofsFromParitioned(u, q), {"dofval_u", u}, {"dofval_p", q});
    RET("NodeFromPartitioned", c.NodeFromPartitioned(u, q), {"dofval_u", u}, {"dofval_p", q});
    RET("ElementFromPartitioned", c.ElementFromPartitioned(u, q), {"dofval_u", u}, {"dofval_p", q});
    RET("AsDofs_u", c.AsDofs_u(nv), {"nodevec", nv});
    RET("AsDofs_u", c.AsDofs_u(ev), {"elemvec", ev});
    RET("AsDofs_p", c.AsDofs_p(nv), {"nodevec", nv});
    RET("AsDofs_p", c.AsDofs_p(ev), {"elemvec", ev});
    RET("Copy_u", c.Copy_u(nv, nw), {"nodevec_src", nv}, {"nodevec_dest", nw});
    RET("Copy_p", c.Copy_p(nv, nw), {"nodevec_src", nv}, {"nodevec_dest", nw});
    INTO("copy_u", D2, nw, c.copy_u(nv, w), "nodevec_dest", A("nodevec_src", nv), );
    INTO("copy_p", D2, nw, c.copy_p(nv, w), "nodevec_dest", A("nodevec_src", nv), );
    mon::nontrivial(mon::hash({1, p.h, iip.size()}));
}

template <class M>
static void matrix_base(mon::Rng& r, const Obj& o, M& c, const D3& K)
{
    PROP(nelem) PROP(nne) PROP(nnode) PROP(ndim) PROP(ndof) PROP(dofs) PROP(conn)
    ITEM(o.name + ".assemble", o.call("assemble", {{"elemmat", K}}));
    c.assemble(K);
    RET("Todense", c.Todense());
    INTO("todense", D2, D2(any<D2>(r, {c.ndof(), c.ndof()})), c.todense(w), "ret", );
    D1 x = any<D1>(r, {c.ndof()}), b = any<D1>(r, {c.ndof()});
    D2 xn = any<D2>(r, {c.nnode(), c.ndim()}), bn = any<D2>(r, {c.nnode(), c.ndim()});
    // (a matrix with tyings cannot multiply)
    if constexpr (!std::is_same_v<M, GF::MatrixPartitionedTyings>) {
        RET("Dot", c.Dot(x), {"x", x});
        RET("Dot", c.Dot(xn), {"x", xn});
        INTO("dot", D1, b, c.dot(x, w), "b", A("x", x), );
        INTO("dot", D2, bn, c.dot(xn, w), "b", A("x", xn), );
    }
    RET("__repr__", std::string("<GooseFEM." + o.name + ">"));
}
template <class M>
static void partitioned_base(mon::Rng& r, const Obj& o, M& c)
{
    PROP(nnu) PROP(nnp) PROP(iiu) PROP(iip)
    if constexpr (!std::is_same_v<M, GF::MatrixPartitionedTyings>) {
        D1 x = any<D1>(r, {c.ndof()}), b = any<D1>(r, {c.ndof()}), xu = any<D1>(r, {c.nnu()}), xp = any<D1>(r, {c.nnp()});
        D2 xn = any<D2>(r, {c.nnode(), c.ndim()}), bn = any<D2>(r, {c.nnode(), c.ndim()});
        RET("Reaction", c.Reaction(x, b), {"x", x}, {"b", b});
        RET("Reaction", c.Reaction(xn, bn), {"x", xn}, {"b", bn});
        INTO("reaction", D1, b, c.reaction(x, w), "b", A("x", x), );
        INTO("reaction", D2, bn, c.reaction(xn, w), "b", A("x", xn), );
        RET("Reaction_p", c.Reaction_p(xu, xp), {"x_u", xu}, {"x_p", xp});
    }
}
static void matrices(mon::Rng& r)
{
    Prob p = matrix_problem(r, true, 60);
    mon::context() = p.what;
    D3 K = elemmat_spd(r, p), Kd = elemmat_diag(r, p, false);
    D1 b = any<D1>(r, {p.ndof}), x = any<D1>(r, {p.ndof});
    D2 bn = any<D2>(r, {p.nnode, p.ndim}), xn = any<D2>(r, {p.nnode, p.ndim});
    U1 iip = to_u1(random_iip(r, p.ndof));
    const As cd = {{"conn", p.conn}, {"dofs", p.dofs}}, cdi = {{"conn", p.conn}, {"dofs", p.dofs}, {"iip", iip}};
    mon::nontrivial(mon::hash({2, p.h, iip.size()}));
    {
        GF::Matrix c(p.conn, p.dofs);
        Obj o("Matrix", cd);
        matrix_base(r, o, c, K);
        PROP(data)
        GF::MatrixSolver<> s;
        Obj m = o, t("MatrixSolver", As{});
        o = t;
        for (int pass = 0; pass < 2; ++pass) {
            RET("Solve", s.Solve(c, b), {"A", m.v}, {"b", b});
            RET("Solve", s.Solve(c, bn), {"A", m.v}, {"b", bn});
            INTO("solve", D1, x, s.solve(c, b, w), "x", A("A", m.v), A("b", b), );
            INTO("solve", D2, xn, s.solve(c, bn, w), "x", A("A", m.v), A("b", bn), );
            if (pass) break;
            // another matrix: the solver has to notice
            auto l = random_rows(r, p.ndof);
            U1 rows = to_u1(l);
            D2 B = any<D2>(r, {l.size(), l.size()});
            D2 S = 0.01 * (B + xt::transpose(B));
            for (size_t i = 0; i < l.size(); ++i) S(i, i) += 1.0;
            c.add(rows, rows, S);
            ITEM("Matrix.add", m.call("add", {{"rows", rows}, {"cols", rows}, {"matrix", S}}); same(m.get("data"), py::to_value(c.data()), "Matrix.add"));
        }
        RET("__repr__", std::string("<GooseFEM.MatrixSolver>"));
        auto l1 = to_u1(random_rows(r, p.ndof)), l2 = to_u1(random_rows(r, p.ndof));
        D2 B = any<D2>(r, {l1.size(), l2.size()});
        c.set(l1, l2, B);
        ITEM("Matrix.set", m.call("set", {{"rows", l1}, {"cols", l2}, {"matrix", B}}); same(m.get("data"), py::to_value(c.data()), "Matrix.set"));
        c.add(l1, l2, B);
        ITEM("Matrix.add", m.call("add", {{"rows", l1}, {"cols", l2}, {"matrix", B}}); same(m.get("data"), py::to_value(c.data()), "Matrix.add"));
    }
    {
        GF::MatrixPartitioned c(p.conn, p.dofs, iip);
        Obj o("MatrixPartitioned", cdi);
        matrix_base(r, o, c, K);
        partitioned_base(r, o, c);
        PROP(data_uu) PROP(data_up) PROP(data_pu) PROP(data_pp)
        GF::MatrixPartitionedSolver<> s;
        Obj m = o, t("MatrixPartitionedSolver", As{});
        o = t;
        D1 bu = any<D1>(r, {c.nnu()}), xp = any<D1>(r, {c.nnp()}), xu = any<D1>(r, {c.nnu()});
        for (int pass = 0; pass < 2; ++pass) {
            RET("Solve", s.Solve(c, b, x), {"A", m.v}, {"b", b}, {"x", x});
            RET("Solve", s.Solve(c, bn, xn), {"A", m.v}, {"b", bn}, {"x", xn});
            INTO("solve", D1, x, s.solve(c, b, w), "x", A("A", m.v), A("b", b), );
            INTO("solve", D2, xn, s.solve(c, bn, w), "x", A("A", m.v), A("b", bn), );
            RET("Solve_u", s.Solve_u(c, bu, xp), {"A", m.v}, {"b_u", bu}, {"x_p", xp});
            INTO("solve_u", D1, xu, s.solve_u(c, bu, xp, w), "x_u", A("A", m.v), A("b_u", bu), A("x_p", xp), );
            if (pass) break;
            K = elemmat_spd(r, p);
            c.assemble(K);
            ITEM("MatrixPartitioned.assemble", m.call("assemble", {{"elemmat", K}}));
        }
        RET("__repr__", std::string("<GooseFEM.MatrixPartitionedSolver>"));
    }
    {
        GF::MatrixDiagonal c(p.conn, p.dofs);
        Obj o("MatrixDiagonal", cd);
        matrix_base(r, o, c, Kd);
        PROP(data)
        for (int pass = 0; pass < 2; ++pass) {
            RET("Solve", c.Solve(b), {"b", b});
            RET("Solve", c.Solve(bn), {"b", bn});
            INTO("solve", D1, x, c.solve(b, w), "x", A("b", b), );
            INTO("solve", D2, xn, c.solve(bn, w), "x", A("b", bn), );
            if (pass) break;
            D1 d = xt::abs(any<D1>(r, {p.ndof})) + 0.1;
            c.set(d);
            ITEM("MatrixDiagonal.data", o.set("data", py::to_value(d)));
            PROP(data)
        }
    }
    {
        GF::MatrixDiagonalPartitioned c(p.conn, p.dofs, iip);
        Obj o("MatrixDiagonalPartitioned", cdi);
        matrix_base(r, o, c, Kd);
        partitioned_base(r, o, c);
        PROP(data) PROP(data_uu) PROP(data_pp)
        D1 u = any<D1>(r, {c.nnu()}), q = any<D1>(r, {c.nnp()});
        RET("Dot_u", c.Dot_u(u, q), {"x_u", u}, {"x_p", q});
        RET("Dot_p", c.Dot_p(u, q), {"x_u", u}, {"x_p", q});
        RET("Solve_u", c.Solve_u(u, q), {"b_u", u}, {"x_p", q});
    }
    mon::cover("matrices");
}

static void tied(mon::Rng& r)
{
    Tied t = random_tied(r);
    mon::context() = t.what;
    mon::nontrivial(mon::hash({3, t.p.h, t.np, t.nnd}));
    GF::Tyings::Control k(t.p.coor, t.p.dofs);
    {
        const auto& c = k;
        Obj o("Tyings.Control", {{"coor", t.p.coor}, {"dofs", t.p.dofs}});
        PROP(coor) PROP(dofs) PROP(controlDofs) PROP(controlNodes)
        RET("__repr__", std::string("<GooseFEM.Tyings.Control>"));
    }
    auto tyings = [&](const Obj& o, const GF::Tyings::Periodic& c) {
        PROP(nnd) PROP(nni) PROP(nnu) PROP(nnp) PROP(dofs) PROP(control) PROP(nodal_tyings) PROP(iid) PROP(iii) PROP(iiu) PROP(iip) PROP(Cdi) PROP(Cdu) PROP(Cdp)
        RET("__repr__", std::string("<GooseFEM.Tyings.Periodic>"));
    };
    As a = {{"coor", t.coor}, {"dofs", t.dofs}, {"control_dofs", t.control}, {"nodal_tyings", t.ties}};
    tyings(Obj("Tyings.Periodic", a), GF::Tyings::Periodic(t.coor, t.dofs, t.control, t.ties));
    U1 iip = to_u1(t.iip);
    a.push_back({"iip", iip});
    GF::Tyings::Periodic per(t.coor, t.dofs, t.control, t.ties, iip);
    tyings(Obj("Tyings.Periodic", a), per);
    U2 dofs = per.dofs();
    Eigen::SparseMatrix<double> Cdu = per.Cdu(), Cdp = per.Cdp(), Cdi = per.Cdi();
    {
        GF::VectorPartitionedTyings c(t.p.conn, dofs, Cdu, Cdp, Cdi);
        Obj o("VectorPartitionedTyings", {{"conn", t.p.conn}, {"dofs", dofs}, {"Cdu", Cdu}, {"Cdp", Cdp}, {"Cdi", Cdi}});
        vector_base(r, o, c);
        PROP(nnu) PROP(nnp) PROP(nni) PROP(nnd) PROP(iiu) PROP(iip) PROP(iii) PROP(iid)
        D1 x = any<D1>(r, {c.ndof()}), y = any<D1>(r, {c.ndof()}), z = any<D1>(r, {c.nni()});
        D2 nv = any<D2>(r, vec(c.shape_nodevec()));
        INTO("copy_p", D1, y, c.copy_p(x, w), "dofval_dest", A("dofval_src", x), );
        RET("AsDofs_i", c.AsDofs_i(nv), {"nodevec", nv});
        INTO("asDofs_i", D1, z, c.asDofs_i(nv, w), "dofval_i", A("nodevec", nv), );
        bool app = r.coin();
        ITEM(o.name + ".asDofs_i", D1 w = z; Value g = py::to_value(z); c.asDofs_i(nv, w, app); o.call("asDofs_i", {{"nodevec", nv}, {"dofval_i", g}, {"apply_tyings", app}}); same(g, py::to_value(w), o.name + ".asDofs_i"));
    }
    if (dofs.size() > 60) return;
    Prob q = t.p;
    q.dofs = dofs;
    D3 K = elemmat_spd(r, q);
    GF::MatrixPartitionedTyings c(t.p.conn, dofs, Cdu, Cdp);
    Obj o("MatrixPartitionedTyings", {{"conn", t.p.conn}, {"dofs", dofs}, {"Cdu", Cdu}, {"Cdp", Cdp}});
    matrix_base(r, o, c, K);
    partitioned_base(r, o, c);
    PROP(nni) PROP(nnd) PROP(iii) PROP(iid)
    PROP(data_uu) PROP(data_up) PROP(data_pu) PROP(data_pp) PROP(data_ud) PROP(data_pd) PROP(data_du) PROP(data_dp) PROP(data_dd)
    // (control DOFs that are not prescribed can leave a matrix that cannot be solved: those are exempt)
    Obj m = o;
    o = Obj("MatrixPartitionedTyingsSolver", As{});
    RET("__repr__", std::string("<GooseFEM.MatrixPartitionedTyingsSolver>"));
    GF::MatrixPartitionedTyingsSolver<> s;
    D1 b = any<D1>(r, {c.ndof()}), x = any<D1>(r, {c.ndof()});
    D2 bn = any<D2>(r, {c.nnode(), c.ndim()}), xn = any<D2>(r, {c.nnode(), c.ndim()});
    D1 bu = any<D1>(r, {c.nnu()}), bd = any<D1>(r, {c.nnd()}), xp = any<D1>(r, {c.nnp()}), xu = any<D1>(r, {c.nnu()});
    RET("Solve", s.Solve(c, b, x), {"A", m.v}, {"b", b}, {"x", x});
    RET("Solve", s.Solve(c, bn, xn), {"A", m.v}, {"b", bn}, {"x", xn});
    INTO("solve", D1, x, s.solve(c, b, w), "x", A("A", m.v), A("b", b), );
    INTO("solve", D2, xn, s.solve(c, bn, w), "x", A("A", m.v), A("b", bn), );
    RET("Solve_u", s.Solve_u(c, bu, bd, xp), {"matrix", m.v}, {"b_u", bu}, {"b_d", bd}, {"x_p", xp});
    INTO("solve_u", D1, xu, s.solve_u(c, bu, bd, xp, w), "x_u", A("matrix", m.v), A("b_u", bu), A("b_d", bd), A("x_p", xp), );
    mon::cover("tyings.matrix");
}

template <class T>
static void quad_members(mon::Rng& r, const Obj& o, T& c, const QC& q)
{
    PROP(nelem) PROP(nne) PROP(ndim) PROP(tdim) PROP(nip) PROP(dV)
    if constexpr (is_axi<T>) PROP(B)
    else PROP(GradN)
    for (size_t rank = 0; rank < 5; ++rank) {
        if (rank) {
            xt::xarray<double> s = any<xt::xarray<double>>(r, {q.nelem, q.nip});
            RET("AsTensor", c.AsTensor(rank, s), {"rank", rank}, {"qscalar", s});
        }
        size_t td = r.range(1, 4);
        RET("shape_qtensor", c.shape_qtensor(rank), {"rank", rank});
        RET("shape_qtensor", c.shape_qtensor(rank, td), {"rank", rank}, {"tdim", td});
    }
    size_t td = r.range(1, 4);
    RET("shape_elemvec", c.shape_elemvec());
    RET("shape_elemvec", c.shape_elemvec(td), {"tdim", td});
    RET("shape_elemmat", c.shape_elemmat());
    RET("shape_qscalar", c.shape_qscalar());
    RET("shape_qvector", c.shape_qvector());
    RET("shape_qvector", c.shape_qvector(td), {"tdim", td});
    D3 u = any<D3>(r, vec(c.shape_elemvec())), em = any<D3>(r, vec(c.shape_elemmat()));
    size_t nc = r.range(1, 4);
    D3 uc = any<D3>(r, vec(c.shape_elemvec(nc))), qv = any<D3>(r, vec(c.shape_qvector(nc)));
    D2 rho = any<D2>(r, vec(c.shape_qscalar()));
    D4 s = any<D4>(r, vec(c.shape_qtensor(2)));
    D6 C = any<D6>(r, vec(c.shape_qtensor(4)));
    RET("InterpQuad_vector", c.InterpQuad_vector(uc), {"elemvec", uc});
    INTO("interpQuad_vector", D3, qv, c.interpQuad_vector(uc, w), "qvector", A("elemvec", uc), );
    RET("GradN_vector", c.GradN_vector(u), {"elemvec", u});
    INTO("gradN_vector", D4, s, c.gradN_vector(u, w), "qtensor", A("elemvec", u), );
    RET("GradN_vector_T", c.GradN_vector_T(u), {"elemvec", u});
    INTO("gradN_vector_T", D4, s, c.gradN_vector_T(u, w), "qtensor", A("elemvec", u), );
    RET("SymGradN_vector", c.SymGradN_vector(u), {"elemvec", u});
    INTO("symGradN_vector", D4, s, c.symGradN_vector(u, w), "qtensor", A("elemvec", u), );
    RET("Int_N_vector_dV", c.Int_N_vector_dV(qv), {"qvector", qv});
    INTO("int_N_vector_dV", D3, uc, c.int_N_vector_dV(qv, w), "elemvec", A("qvector", qv), );
    RET("Int_N_scalar_NT_dV", c.Int_N_scalar_NT_dV(rho), {"qscalar", rho});
    INTO("int_N_scalar_NT_dV", D3, em, c.int_N_scalar_NT_dV(rho, w), "elemmat", A("qscalar", rho), );
    RET("Int_gradN_dot_tensor2_dV", c.Int_gradN_dot_tensor2_dV(s), {"qtensor", s});
    INTO("int_gradN_dot_tensor2_dV", D3, u, c.int_gradN_dot_tensor2_dV(s, w), "elemvec", A("qtensor", s), );
    RET("Int_gradN_dot_tensor4_dot_gradNT_dV", c.Int_gradN_dot_tensor4_dot_gradNT_dV(C), {"qtensor", C});
    INTO("int_gradN_dot_tensor4_dot_gradNT_dV", D3, em, c.int_gradN_dot_tensor4_dot_gradNT_dV(C, w), "elemmat", A("qtensor", C), );
    RET("__repr__", "<GooseFEM." + o.name + ">");
}
static void quadratures(mon::Rng& r)
{
    QC q = random_quad(r);
    mon::nontrivial(mon::hash({4, q.h, (uint64_t)q.kind}));
    static const char* names[] = {"Element.Quad4.Quadrature", "Element.Hex8.Quadrature", "Element.Quad4.QuadraturePlanar", "Element.Quad4.QuadratureAxisymmetric"};
    As a = {{"x", q.X()}};
    if (!q.def_rule) a.push_back({"xi", q.XI()}), a.push_back({"w", q.W()});
    if (q.kind == PLANAR && !q.def_thick) a.push_back({"thick", q.thick});
    Obj o(names[q.kind], a);
    with_quad(q, [&](auto& c) {
        typedef std::decay_t<decltype(c)> T;
        // (a rule by name holds the same numbers up to rounding; here the same objects are needed)
        auto make = [&]() {
            if constexpr (std::is_same_v<T, GF::Element::Quad4::QuadraturePlanar>) {
                if (q.def_rule) return q.def_thick ? T(q.X()) : T(q.X(), q.thick);
                return q.def_thick ? T(q.X(), q.XI(), q.W()) : T(q.X(), q.XI(), q.W(), q.thick);
            }
            else {
                return q.def_rule ? T(q.X()) : T(q.X(), q.XI(), q.W());
            }
        };
        T d = make();
        quad_members(r, o, d, q);
        D3 y = q.X();
        y *= r.uni(1.01, 1.2);
        d.update_x(y);
        ITEM(o.name + ".update_x", o.call("update_x", {{"x", y}}); same(o.get("dV"), py::to_value(d.dV()), o.name + ".update_x"));
    });
    // rules
#define RULE(E, R) FUN("Element." #E "." #R ".nip", GF::Element::E::R::nip()); FUN("Element." #E "." #R ".xi", GF::Element::E::R::xi()); FUN("Element." #E "." #R ".w", GF::Element::E::R::w());
    RULE(Quad4, Gauss) RULE(Quad4, Nodal) RULE(Quad4, MidPoint) RULE(Hex8, Gauss) RULE(Hex8, Nodal)
}

template <class M>
static void mesh_base(const Obj& o, const M& c)
{
    PROP(nelem) PROP(nnode) PROP(nne) PROP(ndim) PROP(nelx) PROP(nely) PROP(h) PROP(elementType) PROP(coor) PROP(conn) PROP(dofs) PROP(dofsPeriodic) PROP(nodesPeriodic) PROP(nodesOrigin)
}
#define NPROP(n) PROP(nodes##n)
template <class M>
static void mesh2d(const Obj& o, const M& c)
{
    mesh_base(o, c);
    NODES2D(NPROP)
}
template <class M>
static void mesh3d(const Obj& o, const M& c)
{
    mesh_base(o, c);
    NODES3D(NPROP)
    PROP(nodesFrontFace) PROP(nodesBackFace) PROP(nodesLeftFace) PROP(nodesRightFace) PROP(nodesBottomFace) PROP(nodesTopFace)
}
static void fine_layer(mon::Rng& r, const Obj& o, GF::Mesh::Quad4::FineLayer c)
{
    mesh2d(o, c);
    PROP(elemrow_nhx) PROP(elemrow_nhy) PROP(elemrow_type) PROP(elemrow_nelem) PROP(elementsMiddleLayer)
    RET("__repr__", std::string("<GooseFEM.Mesh.Quad4.FineLayer>"));
    size_t l = r.range(0, c.elemrow_nhx().size() - 1);
    RET("elementsLayer", c.elementsLayer(l), {"layer", l});
    // rectangles of the fine layer's grid
    size_t nx = c.nelx();
    auto rng2 = [&](size_t n) {
        size_t a = r.range(0, n - 1), b = r.range(a + 1, n);
        return std::vector<size_t>{a, b};
    };
    size_t ny = c.nely();
    std::vector<size_t> rows = r.coin(0.2) ? std::vector<size_t>() : rng2(ny), cols = r.coin(0.2) ? std::vector<size_t>() : rng2(nx);
    RET("elementgrid_ravel", c.elementgrid_ravel(rows, cols), {"rows_range", rows}, {"cols_range", cols});
    auto mid = c.elementsMiddleLayer();
    size_t e = mid(r.range(0, mid.size() - 1));
    bool per = r.coin();
    size_t s = r.range(0, (nx - 1) / 2), le = r.range(0, (nx - 1) / 2), ri = r.range(0, (nx - 1) / 2);
    if (r.coin()) {
        RET("elementgrid_around_ravel", c.elementgrid_around_ravel(e, s), {"element", e}, {"size", s});
        RET("elementgrid_leftright", c.elementgrid_leftright(e, le, ri), {"element", e}, {"left", le}, {"right", ri});
    }
    else {
        // (selections around an element exist for periodic grids only: refused otherwise)
        RET("elementgrid_around_ravel", c.elementgrid_around_ravel(e, s, per), {"element", e}, {"size", s}, {"periodic", per});
        RET("elementgrid_leftright", c.elementgrid_leftright(e, le, ri, per), {"element", e}, {"left", le}, {"right", ri}, {"periodic", per});
    }
    size_t n = r.range(0, 4);
    RET("roll", c.roll(n), {"", n});
}
// arguments with those that have a default in the end, of which `keep` are given
template <class F>
static void defaults(mon::Rng& r, const As& req, const As& opt, F&& f)
{
    size_t k = r.range(0, opt.size());
    As a = req;
    for (size_t i = 0; i < k; ++i) a.push_back(opt[i]);
    mon::cover("defaults_omitted", opt.size() - k);
    f(a, k);
}
static void meshes(mon::Rng& r)
{
    double h = r.coin(0.2) ? 1.0 : r.logu(0.05, 20);
    size_t nx = r.range(1, 6), ny = r.range(1, 6), nz = r.range(1, 4);
    mon::context() = fmt("%zu x %zu x %zu h=%g", nx, ny, nz, h);
    mon::nontrivial(mon::hash({5, nx, ny, nz, mon::hashd(h)}));
    // values of the enumeration
    auto* E = submodule("Mesh.ElementType");
    auto* M = submodule("Mesh");
#define ENUM(n) mon::ok(E && E->values.count(#n) && equal(E->values[#n], py::to_value(GF::Mesh::ElementType::n)), "Mesh.ElementType." #n); mon::ok(M && M->values.count(#n) && equal(M->values[#n], py::to_value(GF::Mesh::ElementType::n)), "Mesh." #n);
    ENUM(Unknown) ENUM(Tri3) ENUM(Quad4) ENUM(Hex8)
    if (r.coin())
        defaults(r, {{"nx", nx}, {"ny", ny}}, {{"h", h}}, [&](const As& a, size_t k) {
            GF::Mesh::Quad4::Regular c = k ? GF::Mesh::Quad4::Regular(nx, ny, h) : GF::Mesh::Quad4::Regular(nx, ny);
            Obj o("Mesh.Quad4.Regular", a);
            mesh2d(o, c);
            PROP(elementgrid)
            RET("__repr__", "<GooseFEM." + o.name + ">");
            // refinement
            size_t fx = r.range(1, 3), fy = r.range(1, 3);
            GF::Mesh::Quad4::Map::RefineRegular m(c, fx, fy);
            Obj q("Mesh.Quad4.Map.RefineRegular", {{"mesh", o.v}, {"nx", fx}, {"ny", fy}});
            {
                const Obj& o = q;
                const auto& c = m;
                PROP(map)
                RET("__repr__", "<GooseFEM." + o.name + ">");
                ITEM(o.name + ".coarseMesh", mesh2d(Obj("Mesh.Quad4.Regular", o.get("coarseMesh")), c.coarseMesh()));
                ITEM(o.name + ".fineMesh", mesh2d(Obj("Mesh.Quad4.Regular", o.get("fineMesh")), c.fineMesh()));
                size_t nf = m.fineMesh().nelem(), nc = m.coarseMesh().nelem();
                auto rank = [&](auto tag) {
                    constexpr size_t N = decltype(tag)::value;
                    typedef xt::xtensor<double, N> T;
                    std::vector<size_t> sf{nf}, sc{nc};
                    for (size_t i = 1; i < N; ++i) sf.push_back(r.range(1, 3)), sc.push_back(r.range(1, 3));
                    T f = any<T>(r, sf), w = xt::abs(any<T>(r, sf)) + 0.1, v = any<T>(r, sc);
                    RET("meanToCoarse", c.template meanToCoarse<double>(f), {"", f});
                    RET("averageToCoarse", (c.template averageToCoarse<double, N, double>(f, w)), {"", f}, {"", w});
                    RET("mapToFine", c.template mapToFine<double>(v), {"", v});
                };
                rank(std::integral_constant<size_t, 1>());
                rank(std::integral_constant<size_t, 2>());
                rank(std::integral_constant<size_t, 3>());
                rank(std::integral_constant<size_t, 4>());
            }
        });
    if (r.coin())
        defaults(r, {{"nx", nx}, {"ny", ny}}, {{"h", h}}, [&](const As& a, size_t k) {
            GF::Mesh::Tri3::Regular c = k ? GF::Mesh::Tri3::Regular(nx, ny, h) : GF::Mesh::Tri3::Regular(nx, ny);
            Obj o("Mesh.Tri3.Regular", a);
            mesh2d(o, c);
            RET("__repr__", "<GooseFEM." + o.name + ">");
            D2 x = c.coor();
            U2 k0 = c.conn();
            for (size_t e = 0; e < k0.shape(0); ++e)
                if (r.coin()) std::swap(k0(e, 1), k0(e, 2));
            auto v = GF::Mesh::Tri3::getOrientation(x, k0);
            FUN("Mesh.Tri3.getOrientation", v, {"coor", x}, {"conn", k0});
            int s = r.coin() ? 1 : -1;
            FUN("Mesh.Tri3.setOrientation", GF::Mesh::Tri3::setOrientation(x, k0, s), {"coor", x}, {"conn", k0}, {"orientation", s});
            xt::xtensor<int, 1> vi = v;
            FUN("Mesh.Tri3.setOrientation", GF::Mesh::Tri3::setOrientation(x, k0, vi, s), {"coor", x}, {"conn", k0}, {"val", vi}, {"orientation", s});
        });
    if (r.coin())
        defaults(r, {{"nx", nx}, {"ny", ny}, {"nz", nz}}, {{"h", h}}, [&](const As& a, size_t k) {
            GF::Mesh::Hex8::Regular c = k ? GF::Mesh::Hex8::Regular(nx, ny, nz, h) : GF::Mesh::Hex8::Regular(nx, ny, nz);
            Obj o("Mesh.Hex8.Regular", a);
            mesh3d(o, c);
            RET("__repr__", "<GooseFEM." + o.name + ">");
        });
    if (r.coin()) {
        size_t fx = r.coin() ? 3 * r.range(1, 6) : r.range(1, 20), fy = r.range(1, 20), nf = r.range(1, 5);
        mon::context() = fmt("FineLayer %zu x %zu h=%g nfine=%zu", fx, fy, h, nf);
        defaults(r, {{"nx", fx}, {"ny", fy}}, {{"h", h}, {"nfine", nf}}, [&](const As& a, size_t k) {
            typedef GF::Mesh::Quad4::FineLayer T;
            T c = k == 0 ? T(fx, fy) : k == 1 ? T(fx, fy, h) : T(fx, fy, h, nf);
            Obj o("Mesh.Quad4.FineLayer", a);
            fine_layer(r, o, c);
            if (c.nelx() == fx) {
                D2 x = c.coor();
                U2 e = c.conn();
                bool thrown = false;
                try {
                    T d(x, e);
                    Obj q("Mesh.Quad4.FineLayer", {{"coor", x}, {"conn", e}});
                    fine_layer(r, q, d);
                }
                catch (const missing&) {
                    throw;
                }
                catch (const py::type_error&) {
                    throw;
                }
                catch (const std::exception&) {
                    thrown = true; // (whether a replica can be built is C07)
                }
                if (!thrown) mon::cover("replica");
            }
            GF::Mesh::Quad4::Map::FineLayer2Regular m(c);
            Obj q("Mesh.Quad4.Map.FineLayer2Regular", {{"mesh", o.v}});
            {
                const Obj& o = q;
                const auto& c = m;
                PROP(map) PROP(mapFraction)
                RET("__repr__", "<GooseFEM." + o.name + ">");
                ITEM(o.name + ".regularMesh", mesh2d(Obj("Mesh.Quad4.Regular", o.get("regularMesh")), c.regularMesh()));
                ITEM(o.name + ".fineLayerMesh", fine_layer(r, Obj("Mesh.Quad4.FineLayer", o.get("fineLayerMesh")), c.fineLayerMesh()));
                size_t n = m.fineLayerMesh().nelem();
                auto rank = [&](auto tag) {
                    constexpr size_t N = decltype(tag)::value;
                    typedef xt::xtensor<double, N> T;
                    std::vector<size_t> s{n};
                    for (size_t i = 1; i < N; ++i) s.push_back(r.range(1, 3));
                    T v = any<T>(r, s);
                    RET("mapToRegular", c.template mapToRegular<double>(v), {"", v});
                };
                rank(std::integral_constant<size_t, 1>());
                rank(std::integral_constant<size_t, 2>());
                rank(std::integral_constant<size_t, 3>());
                rank(std::integral_constant<size_t, 4>());
            }
        });
    }
    if (r.coin()) {
        size_t fx = 3 * r.range(1, 2), fz = 3 * r.range(1, 2), fy = r.range(1, 9), nf = r.range(1, 4);
        mon::context() = fmt("Hex8.FineLayer %zu x %zu x %zu h=%g nfine=%zu", fx, fy, fz, h, nf);
        defaults(r, {{"nx", fx}, {"ny", fy}, {"nz", fz}}, {{"h", h}, {"nfine", nf}}, [&](const As& a, size_t k) {
            typedef GF::Mesh::Hex8::FineLayer T;
            T c = k == 0 ? T(fx, fy, fz) : k == 1 ? T(fx, fy, fz, h) : T(fx, fy, fz, h, nf);
            Obj o("Mesh.Hex8.FineLayer", a);
            mesh3d(o, c);
            RET("elementsMiddleLayer", c.elementsMiddleLayer());
            RET("__repr__", "<GooseFEM." + o.name + ">");
        });
    }
    mon::cover("meshes");
}

template <class S>
static void stitch_members(mon::Rng& r, const Obj& o, const S& c, size_t n)
{
    PROP(nmesh) PROP(nnode) PROP(nelem) PROP(ndim) PROP(nne) PROP(coor) PROP(conn) PROP(dofs)
    RET("nodemap", c.nodemap());
    RET("elemmap", c.elemmap());
    std::vector<U1> ns, es;
    for (size_t i = 0; i < n; ++i) {
        RET("nodemap", c.nodemap(i), {"mesh_index", i});
        RET("elemmap", c.elemmap(i), {"mesh_index", i});
        size_t nn = c.nodemap(i).size(), ne = c.elemmap(i).size();
        ns.push_back(to_u1(r.subset(nn, r.range(1, nn))));
        es.push_back(to_u1(r.subset(ne, r.range(1, ne))));
        RET("nodeset", c.nodeset(ns[i], i), {"set", ns[i]}, {"mesh_index", i});
        RET("elemset", c.elemset(es[i], i), {"set", es[i]}, {"mesh_index", i});
    }
    if constexpr (!std::is_same_v<S, GF::Mesh::ManualStitch>) {
        RET("nodeset", c.nodeset(ns), {"set", ns});
        RET("elemset", c.elemset(es), {"set", es});
    }
    RET("__repr__", "<GooseFEM." + o.name + ">");
}
static void stitches(mon::Rng& r)
{
    size_t nx = r.range(1, 4);
    double h = r.logu(0.2, 5);
    size_t n = r.range(1, 4);
    mon::context() = fmt("%zu stacked meshes of width %zu, h=%g", n, nx, h);
    mon::nontrivial(mon::hash({6, nx, n, mon::hashd(h)}));
    bool chk = r.coin(0.7);
    double rtol = r.logu(1e-7, 1e-4), atol = r.logu(1e-9, 1e-7);
    auto opt = As{{"rtol", rtol}, {"atol", atol}};
    size_t k = r.range(0, 2), kv = r.range(0, 3);
    GF::Mesh::Stitch s = k == 0 ? GF::Mesh::Stitch() : k == 1 ? GF::Mesh::Stitch(rtol) : GF::Mesh::Stitch(rtol, atol);
    Obj ps("Mesh.Stitch", As(opt.begin(), opt.begin() + k));
    auto optv = As{{"check_overlap", chk}, {"rtol", rtol}, {"atol", atol}};
    GF::Mesh::Vstack v = kv == 0 ? GF::Mesh::Vstack() : kv == 1 ? GF::Mesh::Vstack(chk) : kv == 2 ? GF::Mesh::Vstack(chk, rtol) : GF::Mesh::Vstack(chk, rtol, atol);
    Obj pv("Mesh.Vstack", As(optv.begin(), optv.begin() + kv));
    double y = 0;
    D2 last;
    bool stack_ok = true;
    size_t nstack = 0;
    for (size_t i = 0; i < n; ++i) {
        GF::Mesh::Quad4::Regular m(nx, r.range(1, 3), h);
        D2 x = m.coor();
        U2 c = m.conn();
        U1 b = m.nodesBottomEdge(), t = m.nodesTopEdge();
        if (stack_ok) {
            // fits exactly, or nearly: the tolerances (given or not) matter
            D2 z = x;
            if (r.coin()) z(b(r.range(0, b.size() - 1)), 0) += (r.coin() ? 1 : -1) * r.logu(1e-10, 1e-3) * h;
            bool pt = false, ct = false;
            try {
                v.push_back(z, c, b, t);
            }
            catch (const std::exception&) {
                ct = true;
            }
            ITEM("Mesh.Vstack.push_back", try { pv.call("push_back", {{"coor", z}, {"conn", c}, {"nodes_bottom", b}, {"nodes_top", t}}); } catch (const missing&) { throw; } catch (const py::type_error&) { throw; } catch (const std::exception&) { pt = true; });
            mon::ok(pt == ct, "Mesh.Vstack.push_back", fmt("Python refuses: %d C++ refuses: %d", pt, ct));
            stack_ok = !ct && !pt;
            nstack += stack_ok;
            mon::cover(ct ? "stack.refused" : "stack.accepted");
        }
        double apart = r.coin() ? r.logu(1e-10, 1e-3) * h : 0.0;
        for (size_t j = 0; j < x.shape(0); ++j) x(j, 1) += y, x(j, 0) += apart;
        if (i) {
            // overlap by hand, near misses included: the tolerances that were handed over matter
            D2 z = x;
            for (auto& w : z) w *= 1 + (r.coin(0.3) ? r.logu(1e-9, 1e-3) : 0.0);
            double ra = r.logu(1e-8, 1e-3), aa = r.logu(1e-10, 1e-3);
            defaults(r, {{"coor_a", last}, {"coor_b", z}}, {{"rtol", ra}, {"atol", aa}}, [&](const As& a, size_t k) {
                FUNV("Mesh.overlapping", a, (k == 0 ? GF::Mesh::overlapping(last, z) : k == 1 ? GF::Mesh::overlapping(last, z, ra) : GF::Mesh::overlapping(last, z, ra, aa)));
            });
            GF::Mesh::Quad4::Regular m0(1, 1, h);
            // two meshes, stitched by hand, possibly slightly apart
            GF::Mesh::Quad4::Regular A0(nx, 2, h);
            D2 xa = A0.coor(), xb = A0.coor();
            double gap = r.coin() ? r.logu(1e-9, 1e-3) * h : 0.0;
            for (size_t j = 0; j < xb.shape(0); ++j) xb(j, 1) += 2 * h + gap;
            U1 oa = A0.nodesTopEdge(), ob = A0.nodesBottomEdge();
            bool check = r.coin();
            As req = {{"coor_a", xa}, {"conn_a", A0.conn()}, {"overlapping_nodes_a", oa}, {"coor_b", xb}, {"conn_b", A0.conn()}, {"overlapping_nodes_b", ob}};
            defaults(r, req, {{"check_position", check}, {"rtol", ra}, {"atol", aa}}, [&](const As& a, size_t k) {
                typedef GF::Mesh::ManualStitch T;
                std::unique_ptr<T> c;
                std::unique_ptr<Obj> o;
                bool pt = false, ct = false;
                try {
                    U2 e = A0.conn();
                    c.reset(k == 0 ? new T(xa, e, oa, xb, e, ob) : k == 1 ? new T(xa, e, oa, xb, e, ob, check) : k == 2 ? new T(xa, e, oa, xb, e, ob, check, ra) : new T(xa, e, oa, xb, e, ob, check, ra, aa));
                }
                catch (const std::exception&) {
                    ct = true;
                }
                ITEM("Mesh.ManualStitch", try { o.reset(new Obj("Mesh.ManualStitch", a)); } catch (const missing&) { throw; } catch (const py::type_error&) { throw; } catch (const std::exception&) { pt = true; });
                mon::ok(pt == ct, "Mesh.ManualStitch.refuses", fmt("gap %g given %zu: Python %d C++ %d", gap, k, pt, ct));
                mon::cover(ct ? "manual.refused" : "manual.accepted");
                if (c && o) stitch_members(r, *o, *c, 2);
            });
        }
        s.push_back(x, c);
        ps.call("push_back", {{"coor", x}, {"conn", c}});
        last = x;
        y += h * (double)m.nely();
    }
    stitch_members(r, ps, s, n);
    stitch_members(r, pv, v, nstack);
    mon::cover("stitches");
}

static void numbering(mon::Rng& r)
{
    Prob p = random_mesh(r);
    mon::context() = p.what;
    mon::nontrivial(mon::hash({7, p.h}));
    {
        // numbers with holes
        xt::xarray<size_t> d = p.dofs;
        size_t s = r.range(1, 3), off = r.range(0, 3);
        for (auto& v : d) v = s * v + off;
        GF::Mesh::Renumber c(d);
        Obj o("Mesh.Renumber", {{"dofs", d}});
        PROP(index)
        RET("apply", c.apply(d), {"", d});
        RET("__repr__", "<GooseFEM." + o.name + ">");
        U2 d2 = d;
        FUN("Mesh.renumber", GF::Mesh::renumber(d2), {"dofs", d2});
        FUN("Mesh.nodaltyings", GF::Mesh::nodaltyings(p.dofs), {"dofs", p.dofs});
    }
    {
        // one to four lists that together hold all numbers
        auto q = r.perm(p.ndof);
        size_t k = r.range(1, std::min<size_t>(4, p.ndof));
        std::vector<vu> l(k);
        for (size_t i = 0; i < q.size(); ++i) l[i < k ? i : r.range(0, k - 1)].push_back(q[i]);
        std::vector<U1> a;
        As as;
        for (auto& i : l) a.push_back(to_u1(i)), as.push_back({"", a.back()});
        std::unique_ptr<GF::Mesh::Reorder> c0;
        if (k == 1) c0.reset(new GF::Mesh::Reorder({a[0]}));
        if (k == 2) c0.reset(new GF::Mesh::Reorder({a[0], a[1]}));
        if (k == 3) c0.reset(new GF::Mesh::Reorder({a[0], a[1], a[2]}));
        if (k == 4) c0.reset(new GF::Mesh::Reorder({a[0], a[1], a[2], a[3]}));
        auto& c = *c0;
        Obj o("Mesh.Reorder", as);
        PROP(index)
        xt::xarray<size_t> d = p.dofs;
        RET("apply", c.apply(d), {"", d});
        RET("__repr__", "<GooseFEM." + o.name + ">");
        mon::cover(fmt("reorder.%zu", k));
    }
    size_t nn = r.range(1, 9), nd = r.range(1, 4);
    FUN("Mesh.dofs", GF::Mesh::dofs(nn, nd), {"nnode", nn}, {"ndim", nd});
    FUN("Mesh.coordination", GF::Mesh::coordination(p.conn), {"conn", p.conn});
    bool sorted = r.coin();
    if (r.coin()) {
        FUN("Mesh.elem2node", GF::Mesh::elem2node(p.conn), {"conn", p.conn});
        FUN("Mesh.elem2node", GF::Mesh::elem2node(p.conn, p.dofs), {"conn", p.conn}, {"dofs", p.dofs});
        FUN("Mesh.node2dof", GF::Mesh::node2dof(p.dofs), {"dofs", p.dofs});
    }
    else {
        FUN("Mesh.elem2node", GF::Mesh::elem2node(p.conn, sorted), {"conn", p.conn}, {"sorted", sorted});
        FUN("Mesh.elem2node", GF::Mesh::elem2node(p.conn, p.dofs, sorted), {"conn", p.conn}, {"dofs", p.dofs}, {"sorted", sorted});
        FUN("Mesh.node2dof", GF::Mesh::node2dof(p.dofs, sorted), {"dofs", p.dofs}, {"sorted", sorted});
    }
    const D2& x = p.coor;
    const U2& e = p.conn;
    auto type = p.nne == 8 ? GF::Mesh::ElementType::Hex8 : p.nne == 4 ? GF::Mesh::ElementType::Quad4 : GF::Mesh::ElementType::Tri3;
    if (type == GF::Mesh::ElementType::Quad4 || r.coin(0.1)) {
        FUN("Mesh.edgesize", GF::Mesh::edgesize(x, e), {"coor", x}, {"conn", e});
        FUN("Mesh.edgesize", GF::Mesh::edgesize(x, e, type), {"coor", x}, {"conn", e}, {"type", type});
        FUN("Mesh.centers", GF::Mesh::centers(x, e), {"coor", x}, {"conn", e});
        FUN("Mesh.centers", GF::Mesh::centers(x, e, type), {"coor", x}, {"conn", e}, {"type", type});
        U1 map = to_u1(r.perm(e.shape(0)));
        FUN("Mesh.elemmap2nodemap", GF::Mesh::elemmap2nodemap(map, x, e), {"elem_map", map}, {"coor", x}, {"conn", e});
        FUN("Mesh.elemmap2nodemap", GF::Mesh::elemmap2nodemap(map, x, e, type), {"elem_map", map}, {"coor", x}, {"conn", e}, {"type", type});
        FUN("Mesh.nodal_mass", GF::Mesh::nodal_mass(x, e), {"coor", x}, {"conn", e});
        FUN("Mesh.nodal_mass", GF::Mesh::nodal_mass(x, e, type), {"coor", x}, {"conn", e}, {"type", type});
        FUN("Mesh.center_of_gravity", GF::Mesh::center_of_gravity(x, e), {"coor", x}, {"conn", e});
        FUN("Mesh.center_of_gravity", GF::Mesh::center_of_gravity(x, e, type), {"coor", x}, {"conn", e}, {"type", type});
        mon::cover("geometry");
    }
    D2 nv = any<D2>(r, {p.nnode, r.range(1, 4)});
    D3 ev = any<D3>(r, {p.nelem, p.nne, r.range(1, 4)});
    FUN("Element.asElementVector", GF::Element::asElementVector(e, nv), {"conn", e}, {"nodevec", nv});
    // (the bindings call this "ElementVector")
    FUN("Element.assembleElementVector", GF::Element::assembleNodeVector(e, ev), {"conn", e}, {"elemvec", ev});
    mon::cover("numbering");
}

static void small(mon::Rng& r)
{
    typedef xt::xarray<double> X;
    X a = any<X>(r, r.coin() ? std::vector<size_t>{r.range(1, 4)} : std::vector<size_t>{r.range(1, 4), r.range(1, 3)});
    std::vector<size_t> sh;
    for (size_t i = 0, n = r.range(1, 3); i < n; ++i) sh.push_back(r.range(1, 3));
    FUN("AsTensor", GF::AsTensor(a, sh), {"arg", a}, {"shape", sh});
    size_t rank = r.range(1, 4), n = r.range(1, 3);
    FUN("AsTensor", GF::AsTensor(rank, a, n), {"rank", rank}, {"arg", a}, {"n", n});
    X b = any<X>(r, {r.range(1, 5), r.range(1, 3)});
    FUN("as3d", GF::as3d(b), {"arg", b});
    xt::xarray<long> l = xt::empty<long>(std::vector<size_t>{r.range(1, 9)});
    for (auto& v : l) v = (long)r.range(0, 20) - 10;
    FUN("is_unique", GF::is_unique(l), {"a", l});
    FUN("version", GF::version());
    FUN("version_dependencies", GF::version_dependencies());
    size_t len = r.range(1, 5);
    defaults(r, {}, {{"n", len}}, [&](const As& as, size_t k) {
        GF::Iterate::StopList c = k ? GF::Iterate::StopList(len) : GF::Iterate::StopList();
        Obj o("Iterate.StopList", as);
        PROP(data)
        for (int i = 0; i < 12; ++i) {
            if (r.coin(0.1)) c.reset(), ITEM("Iterate.StopList.reset", o.call("reset"));
            double v = r.logu(1e-3, 1.0), tol = r.logu(1e-2, 1.0);
            c.roll_insert(v);
            ITEM("Iterate.StopList.roll_insert", o.call("roll_insert", {{"res", v}}));
            PROP(data)
            RET("descending", c.descending());
            RET("all_less", c.all_less(tol), {"tol", tol});
        }
        RET("__repr__", "<GooseFEM." + o.name + ">");
    });
    mon::nontrivial(mon::hash({8, rank, n, len, mon::hashd(a.flat(0))}));
}

void run_case(mon::Rng& r)
{
    rng = &r;
    static void (*const all[])(mon::Rng&) = {vectors, matrices, tied, quadratures, meshes, stitches, numbering, small};
    static const char* names[] = {"vectors", "matrices", "tied", "quadratures", "meshes", "stitches", "numbering", "small"};
    size_t k = mon::S().cur % 8;
    mon::cover(std::string("group.") + names[k]);
    item(std::string("missing.") + names[k], [&]() { all[k](r); });
}
