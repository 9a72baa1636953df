// C10: renumbering to the lowest possible index / in a prescribed order.
#include "ref.h"
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshQuad4.h>
using namespace ref;
namespace GF = GooseFEM;
typedef GF::array_type::tensor<size_t, 2> U2;
typedef GF::array_type::tensor<size_t, 1> U1;

void run_case(mon::Rng& r)
{
    size_t nnode = r.range(1, 60), ndim = r.range(1, 3), gap = r.coin(0.3) ? 1 : r.range(1, 50);
    U2 d = xt::empty<size_t>({nnode, ndim});
    size_t kind = r.range(0, 3);
    size_t pool = r.range(1, nnode * ndim);
    vu values(pool);
    {
        std::set<size_t> s;
        while (s.size() < pool) {
            s.insert(r.range(0, pool * gap + 3));
        }
        values.assign(s.begin(), s.end());
    }
    if (kind == 0) {
        // sequential: invariant under renumbering
        size_t i = 0;
        for (auto& v : d) {
            v = i++;
        }
    }
    else {
        for (auto& v : d) {
            v = r.pick(values);
        }
    }
    mon::context() = fmt("nnode=%zu ndim=%zu kind=%zu max=%zu", nnode, ndim, kind, (size_t)xt::amax(d)());
    mon::sample(mon::context());
    uint64_t hsh = 0;
    for (auto& v : d) {
        hsh = mon::mix(hsh, v);
    }
    mon::nontrivial(hsh);
    // reference: rank among the sorted unique values
    std::set<size_t> u(d.begin(), d.end());
    std::map<size_t, size_t> rank;
    for (auto v : u) {
        size_t k = rank.size();
        rank[v] = k;
    }
    auto before = d;
    auto out = GF::Mesh::renumber(d);
    mon::ok(out.shape(0) == nnode && out.shape(1) == ndim, "renumber.shape");
    mon::ok(d == before, "renumber.input_untouched");
    auto it = d.begin();
    std::set<size_t> seen;
    for (auto& v : out) {
        mon::ok(v == rank[*it], "renumber.order_preserving", fmt("%zu -> %zu expected %zu", (size_t)*it, (size_t)v, rank[*it]));
        seen.insert(v);
        ++it;
    }
    mon::ok(seen.size() == u.size() && *seen.rbegin() + 1 == u.size(), "renumber.contiguous");
    mon::ok(GF::Mesh::renumber(out) == out, "renumber.idempotent");
    {
        GF::Mesh::Renumber R(d);
        auto idx = R.index();
        mon::ok(idx.size() == *u.rbegin() + 1, "renumber.index_size");
        for (auto v : u) {
            mon::ok(idx(v) == rank[v], "renumber.index");
        }
        // apply to any list of known numbers
        U1 list = xt::empty<size_t>({r.range(1, 30)});
        vu uv(u.begin(), u.end());
        for (auto& v : list) {
            v = r.pick(uv);
        }
        auto o = R.apply(list);
        mon::ok(o.size() == list.size(), "renumber.apply_size");
        for (size_t i = 0; i < list.size(); ++i) {
            mon::ok(o(i) == rank[list(i)], "renumber.apply");
        }
    }
    mon::cover("renumber_values", u.size());
    // --- prescribed order: the first list gets 0 ... , the next continues, ...
    vu uv(u.begin(), u.end());
    r.shuffle(uv);
    size_t cut1 = r.range(0, uv.size()), cut2 = r.range(cut1, uv.size());
    auto mk = [](const vu& v, size_t a, size_t b) {
        U1 o = xt::empty<size_t>({b - a});
        std::copy(v.begin() + a, v.begin() + b, o.begin());
        return o;
    };
    U1 l1 = mk(uv, 0, cut1), l2 = mk(uv, cut1, cut2), l3 = mk(uv, cut2, uv.size());
    GF::Mesh::Reorder O({l1, l2, l3});
    std::map<size_t, size_t> pos;
    for (size_t i = 0; i < uv.size(); ++i) {
        pos[uv[i]] = i;
    }
    auto o2 = O.apply(d);
    mon::ok(o2.shape(0) == nnode && o2.shape(1) == ndim, "reorder.shape");
    it = d.begin();
    for (auto& v : o2) {
        mon::ok(v == pos[*it], "reorder.order", fmt("%zu -> %zu expected %zu", (size_t)*it, (size_t)v, pos[*it]));
        ++it;
    }
    auto idx = O.index();
    for (auto v : uv) {
        mon::ok(v < idx.size() && idx(v) == pos[v], "reorder.index");
    }
    if (cut1 == 0 || cut1 == cut2 || cut2 == uv.size()) {
        mon::cover("reorder_empty_list");
    }
    auto lall = mk(uv, 0, uv.size());
    GF::Mesh::Reorder O1(std::initializer_list<U1>{lall});
    mon::ok(O1.apply(d) == o2, "reorder.single_list");
    mon::cover("reorder_values", uv.size());
    // --- prescribed DOFs ordered last, as used to partition a system
    {
        GF::Mesh::Quad4::Regular m(r.range(1, 6), r.range(1, 6));
        auto dp = m.dofsPeriodic();
        std::set<size_t> a(dp.begin(), dp.end());
        vu av(a.begin(), a.end());
        auto p = r.subset(av.size(), r.range(0, av.size()));
        std::set<size_t> ps;
        for (auto i : p) {
            ps.insert(av[i]);
        }
        vu un, pr(ps.begin(), ps.end());
        for (auto v : av) {
            if (!ps.count(v)) {
                un.push_back(v);
            }
        }
        GF::Mesh::Reorder RO({mk(un, 0, un.size()), mk(pr, 0, pr.size())});
        auto q = RO.apply(dp);
        auto jt = dp.begin();
        for (auto& v : q) {
            mon::ok((v >= un.size()) == (ps.count(*jt) > 0) && v < av.size(), "reorder.partition");
            ++jt;
        }
        mon::cover("reorder_periodic");
    }
}
