// C29: array helpers: expansion of a scalar field to tensors, padding to three dimensions,
// per-element storage of nodal vectors, and the predicates on DOFs and element matrices.
#include "fe_mesh.h"
#include "mon.h"
#include <GooseFEM/Allocate.h>
#include <GooseFEM/Element.h>
#include <GooseFEM/assertions.h>
using namespace fe;

template <class A, class R>
static void expanded(const A& a, const R& ret, const vu& extra, const std::string& key)
{
    vu want(a.shape().begin(), a.shape().end());
    want.insert(want.end(), extra.begin(), extra.end());
    bool g = ret.dimension() == want.size() && std::equal(want.begin(), want.end(), ret.shape().begin());
    size_t per = 1;
    for (auto i : extra) per *= i;
    vd flat(a.begin(), a.end());
    size_t i = 0;
    if (g)
        for (auto it = ret.begin(); it != ret.end(); ++it, ++i) g = g && (double)*it == flat[i / per];
    g = g && i == flat.size() * per;
    mon::ok(g, key);
}

template <class A>
static void tensors(mon::Rng& r, const A& a, const std::string& k)
{
    size_t n = r.range(1, 4);
    expanded(a, GooseFEM::AsTensor<1>(a, n), {n}, "as_tensor.1." + k);
    expanded(a, GooseFEM::AsTensor<2>(a, n), {n, n}, "as_tensor.2." + k);
    expanded(a, GooseFEM::AsTensor<4>(a, n), {n, n, n, n}, "as_tensor.4." + k);
    for (size_t rank = 1; rank < 5; ++rank) expanded(a, GooseFEM::AsTensor(rank, a, n), vu(rank, n), "as_tensor.dyn." + k);
    size_t p = r.range(1, 4), q = r.range(1, 4);
    expanded(a, GooseFEM::AsTensor(a, {p, q}), {p, q}, "as_tensor.shape." + k);
    expanded(a, GooseFEM::AsTensor(a, {q, p, n}), {q, p, n}, "as_tensor.shape3." + k);
    std::vector<size_t> sh = {p, n};
    expanded(a, GooseFEM::AsTensor(a, sh), sh, "as_tensor.shape_dyn." + k);
    auto f = GooseFEM::AsTensor(a, {p, q});
    f.fill(-7);
    GooseFEM::asTensor(a, f);
    expanded(a, f, {p, q}, "as_tensor.inplace." + k);
    auto d = GooseFEM::AsTensor(a, sh);
    d.fill(-7);
    GooseFEM::asTensor(a, d);
    expanded(a, d, sh, "as_tensor.inplace_dyn." + k);
}

void run_case(mon::Rng& r)
{
    // --- expansion
    size_t s0 = r.range(1, 5), s1 = r.range(1, 5), s2 = r.range(1, 3);
    uint64_t h = mon::hash({s0, s1, s2});
    switch (r.range(0, 3)) {
    case 0: { D1 a = xt::empty<double>({s0}); fill(r, a); tensors(r, a, "rank1"); break; }
    case 1: { D2 a = xt::empty<double>({s0, s1}); fill(r, a); tensors(r, a, "rank2"); break; }
    case 2: { D3 a = xt::empty<double>({s0, s1, s2}); fill(r, a); tensors(r, a, "rank3"); break; }
    default: { xt::xtensor<int, 2> a = xt::empty<int>({s0, s1}); for (auto& v : a) v = (int)r.range(0, 99); tensors(r, a, "int"); }
    }
    {
        xt::xarray<double> a = xt::empty<double>(std::vector<size_t>{s0, s1});
        fill(r, a);
        size_t n = r.range(1, 4), rank = r.range(1, 4);
        expanded(a, GooseFEM::AsTensor(rank, a, n), vu(rank, n), "as_tensor.xarray");
    }
    // --- padding
    {
        size_t nd = r.range(1, 3), nr = r.range(1, 7);
        D2 a = xt::empty<double>({nr, nd});
        fill(r, a);
        D2 b = GooseFEM::as3d(a);
        bool g = b.shape(0) == nr && b.shape(1) == 3;
        for (size_t i = 0; g && i < nr; ++i)
            for (size_t j = 0; j < 3; ++j) g &= b(i, j) == (j < nd ? a(i, j) : 0.0);
        mon::ok(g, "as3d", fmt("dim %zu", nd));
    }
    // --- nodal vectors per element
    Prob p = random_problem(r);
    mon::context() = p.what;
    h = mon::mix(h, p.h);
    {
        size_t nc = r.range(1, 4);
        D2 u = xt::empty<double>({p.nnode, nc});
        fill_int(r, u);
        D3 ue = GooseFEM::Element::asElementVector(p.conn, u);
        bool g = ue.shape(0) == p.nelem && ue.shape(1) == p.nne && ue.shape(2) == nc;
        for (size_t e = 0; g && e < p.nelem; ++e)
            for (size_t m = 0; m < p.nne; ++m)
                for (size_t i = 0; i < nc; ++i) g &= ue(e, m, i) == u(p.c[e][m], i);
        mon::ok(g, "asElementVector");
        D3 fe = xt::empty<double>({p.nelem, p.nne, nc});
        fill_int(r, fe);
        D2 f = GooseFEM::Element::assembleNodeVector(p.conn, fe);
        size_t nn = 0;
        for (auto& e : p.c)
            for (auto n : e) nn = std::max(nn, n + 1);
        D2 want = xt::zeros<double>({nn, nc});
        for (size_t e = 0; e < p.nelem; ++e)
            for (size_t m = 0; m < p.nne; ++m)
                for (size_t i = 0; i < nc; ++i) want(p.c[e][m], i) += fe(e, m, i);
        mon::ok(f.shape(0) == nn && f.shape(1) == nc, "assembleNodeVector.shape");
        mon::same_seq(f, want, "assembleNodeVector");
    }
    // --- predicates
    {
        // DOFs with or without holes
        U2 d = p.dofs;
        bool hole = r.coin(0.5);
        if (hole) {
            size_t at = r.range(0, p.ndof - 1);
            if (r.coin()) {
                // shift everything from `at` on: hole at `at`
                for (auto& i : d) if (i >= at) i += r.coin(0.9) ? 1 : 1;
            }
            else {
                // remove one number
                size_t to = r.range(0, p.ndof - 1);
                for (auto& i : d) if (i == at) i = to;
            }
        }
        std::set<size_t> seen(d.begin(), d.end());
        bool want = *seen.rbegin() + 1 == seen.size();
        mon::ok(GooseFEM::Element::isSequential(d) == want, want ? "isSequential.true" : "isSequential.false", fmt("%zu distinct, largest %zu", seen.size(), *seen.rbegin()));
        mon::cover(want ? "sequential" : "holes");
        bool uniq = seen.size() == d.size();
        mon::ok(GooseFEM::is_unique(d) == uniq, "is_unique.2d");
        vu l;
        size_t nl = r.range(1, 9);
        for (size_t i = 0; i < nl; ++i) l.push_back(r.range(0, 30));
        std::set<size_t> sl(l.begin(), l.end());
        U1 lu = to_u1(l);
        mon::ok(GooseFEM::is_unique(lu) == (sl.size() == l.size()), "is_unique.1d");
    }
    {
        size_t ne = r.range(1, 6), k = r.range(1, 8);
        D3 K = xt::zeros<double>({ne, k, k});
        for (size_t e = 0; e < ne; ++e)
            for (size_t i = 0; i < k; ++i) K(e, i, i) = r.coin(0.9) ? r.uni(-5, 5) : 0.0;
        mon::ok(GooseFEM::Element::isDiagonal(K), "isDiagonal.true", fmt("%zu %zu", ne, k));
        if (k > 1) {
            size_t i = r.range(0, k - 1), j = (i + r.range(1, k - 1)) % k;
            K(r.range(0, ne - 1), i, j) = (r.coin() ? 1 : -1) * r.logu(1e-10, 1e3);
            mon::ok(!GooseFEM::Element::isDiagonal(K), "isDiagonal.false", fmt("%zu x %zu entry %zu %zu", ne, k, i, j));
            mon::cover("off_diagonal");
        }
    }
    mon::nontrivial(h);
    mon::sample(p.what + fmt(" expand %zux%zux%zu", s0, s1, s2));
}
