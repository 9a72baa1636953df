// C04: every named boundary node set is geometrically exact, all aliases agree, and the sets of
// opposite sides are matched node by node. C05: the periodic pairs / periodic DOFs built from them.
#include "nodenames.h"
#include "ref.h"
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
using namespace ref;
namespace GF = GooseFEM;

static vu tovec(size_t n)
{
    return vu{n};
}
template <class T>
static vu tovec(const T& a)
{
    return vu(a.begin(), a.end());
}

struct Sel {
    std::vector<std::pair<size_t, int>> sides; // (dimension, 0/1)
    bool open = false;
};

static Sel parse(std::string s, size_t ndim)
{
    static const std::vector<std::pair<std::string, std::pair<size_t, int>>> names = {
        {"Left", {0, 0}}, {"Right", {0, 1}}, {"Bottom", {1, 0}}, {"Top", {1, 1}}, {"Front", {2, 0}}, {"Back", {2, 1}}};
    Sel r;
    bool more = true;
    while (more) {
        more = false;
        for (auto& n : names) {
            if (s.compare(0, n.first.size(), n.first) == 0) {
                r.sides.push_back(n.second);
                s = s.substr(n.first.size());
                more = true;
                break;
            }
        }
    }
    if (s == "OpenEdge") {
        r.open = true;
    }
    else if (s == "Face") {
        r.open = true;
    }
    else {
        mon::ok(s == "Edge" || s == "Corner" || s == "", "harness.name", s);
    }
    (void)ndim;
    return r;
}

template <class M>
struct Sets {
    std::map<std::string, vu> s;
    std::map<std::string, bool> scalar;
};

static void check(const std::string& key, const vvd& x, const vd& L, double h, const std::map<std::string, vu>& sets)
{
    size_t ndim = L.size();
    double eps = 1e-8 * h;
    auto on = [&](size_t n, std::pair<size_t, int> s) { return std::abs(x[n][s.first] - (s.second ? L[s.first] : 0.0)) < eps; };
    std::map<std::vector<std::pair<size_t, int>>, std::map<bool, std::pair<std::string, vu>>> canon;
    for (auto& i : sets) {
        Sel sel = parse(i.first, ndim);
        vu expect;
        for (size_t n = 0; n < x.size(); ++n) {
            bool in = true;
            size_t count = 0;
            for (size_t d = 0; d < ndim; ++d) {
                count += on(n, {d, 0}) || on(n, {d, 1});
            }
            for (auto& s : sel.sides) {
                in &= on(n, s);
            }
            if (in && (!sel.open || count == sel.sides.size())) {
                expect.push_back(n);
            }
        }
        vu got = i.second;
        vu srt = got;
        std::sort(srt.begin(), srt.end());
        mon::cover("nodes_selected", got.size());
        if (expect.empty()) {
            mon::cover("empty_selection");
        }
        mon::ok(srt == expect, key + ".exact", fmt("nodes%s: %zu nodes, expected %zu", i.first.c_str(), got.size(), expect.size()));
        // aliases
        auto id = sel.sides;
        std::sort(id.begin(), id.end());
        auto& rec = canon[id][sel.open];
        if (rec.first.empty()) {
            rec = i;
        }
        else {
            mon::ok(rec.second == got, key + ".alias", "nodes" + rec.first + " != nodes" + i.first);
        }
    }
    // opposite sides are matched in order: same coordinates along the directions that are not fixed
    for (auto& a : canon) {
        for (auto& b : canon) {
            if (a.first.size() != b.first.size()) {
                continue;
            }
            bool same = true;
            for (size_t k = 0; k < a.first.size(); ++k) {
                same &= a.first[k].first == b.first[k].first;
            }
            if (!same) {
                continue;
            }
            for (int open = 0; open < 2; ++open) {
                if (!a.second.count(open) || !b.second.count(open)) {
                    continue;
                }
                auto& p = a.second.at(open);
                auto& q = b.second.at(open);
                bool good = p.second.size() == q.second.size();
                for (size_t n = 0; good && n < p.second.size(); ++n) {
                    for (size_t d = 0; d < ndim; ++d) {
                        bool fixed = false;
                        for (auto& s : a.first) {
                            fixed |= s.first == d;
                        }
                        good &= fixed || (p.second[n] < x.size() && q.second[n] < x.size() && std::abs(x[p.second[n]][d] - x[q.second[n]][d]) < eps);
                    }
                }
                mon::ok(good, key + ".matched", "nodes" + p.first + " and nodes" + q.first + " are not matched in order");
                mon::cover("matched_pairs");
            }
        }
    }
    if (ndim == 2) {
        mon::ok(sets.size() == 16, "harness.count");
    }
    else {
        mon::ok(sets.size() == 108, "harness.count", fmt("%zu", sets.size()));
    }
}

template <class M>
static std::map<std::string, vu> sets2(const M& m)
{
    std::map<std::string, vu> r;
#define X(n) r[#n] = tovec(m.nodes##n());
    NODES2D(X)
#undef X
    return r;
}
template <class M>
static std::map<std::string, vu> sets3(const M& m)
{
    std::map<std::string, vu> r;
#define X(n) r[#n] = tovec(m.nodes##n());
    NODES3D(X)
#undef X
    return r;
}

// C05
template <class M>
static void periodic(const M& m, const std::string& key, const vvd& x, const vd& L, double h)
{
    size_t ndim = L.size(), nn = x.size();
    double eps = 1e-8 * h;
    auto P = umat(m.nodesPeriodic());
    // reference: equivalence classes of the nodes modulo the domain
    auto cls = [&](size_t n) {
        std::vector<long long> c;
        for (size_t d = 0; d < ndim; ++d) {
            double v = std::abs(x[n][d] - L[d]) < eps ? 0.0 : x[n][d];
            c.push_back(llround(v / h * 64.0));
        }
        return c;
    };
    std::map<std::vector<long long>, vu> C;
    for (size_t n = 0; n < nn; ++n) {
        C[cls(n)].push_back(n);
    }
    size_t expect = 0;
    for (auto& c : C) {
        expect += c.second.size() - 1;
    }
    mon::ok(P.size() == expect, key + ".pairs_count", fmt("%zu pairs, expected %zu", P.size(), expect));
    std::map<size_t, size_t> dep;
    std::set<size_t> indep;
    for (auto& p : P) {
        if (!mon::ok(p.size() == 2 && p[0] < nn && p[1] < nn && p[0] != p[1], key + ".pair_valid")) {
            return;
        }
        mon::ok(cls(p[0]) == cls(p[1]), key + ".pair_is_image", fmt("%zu %zu", p[0], p[1]));
        mon::ok(dep.emplace(p[1], p[0]).second, key + ".dependent_once", fmt("%zu", p[1]));
        indep.insert(p[0]);
        // the independent node is the one on the lower sides
        for (size_t d = 0; d < ndim; ++d) {
            mon::ok(x[p[0]][d] <= x[p[1]][d] + eps, key + ".independent_is_lower", fmt("%zu %zu", p[0], p[1]));
        }
    }
    for (auto n : indep) {
        mon::ok(!dep.count(n), key + ".no_chain", fmt("%zu", n));
    }
    mon::cover("periodic_pairs", P.size());
    // origin
    size_t o = m.nodesOrigin();
    bool at = true;
    for (size_t d = 0; d < ndim; ++d) {
        at &= std::abs(x[o][d]) < eps;
    }
    mon::ok(at, key + ".origin");
    // DOFs
    auto D = umat(m.dofsPeriodic());
    mon::ok(D.size() == nn && D[0].size() == ndim, key + ".dofs_shape");
    std::set<size_t> vals;
    std::map<size_t, std::pair<std::vector<long long>, size_t>> owner;
    for (size_t n = 0; n < nn; ++n) {
        for (size_t d = 0; d < ndim; ++d) {
            vals.insert(D[n][d]);
            auto it = owner.emplace(D[n][d], std::make_pair(cls(n), d));
            mon::ok(it.first->second == std::make_pair(cls(n), d), key + ".dofs_distinct_classes", fmt("node %zu dim %zu dof %zu", n, d, D[n][d]));
        }
    }
    mon::ok(vals.size() == C.size() * ndim, key + ".dofs_count", fmt("%zu DOFs expected %zu", vals.size(), C.size() * ndim));
    mon::ok(!vals.empty() && *vals.rbegin() + 1 == vals.size(), key + ".dofs_contiguous");
    // plain dofs are one DOF per node per direction
    auto S = umat(m.dofs());
    std::set<size_t> all;
    for (auto& r : S) {
        all.insert(r.begin(), r.end());
    }
    mon::ok(S.size() == nn && S[0].size() == ndim && all.size() == nn * ndim && *all.rbegin() + 1 == nn * ndim, key + ".plain_dofs");
}

#ifndef DO_C05
#define DO_C05 0
#endif

template <class M>
static void one2(const M& m, const std::string& key, size_t nx, size_t ny, double h)
{
    auto x = mat(m.coor());
    vd L = {nx * h, ny * h};
    if (DO_C05) {
        periodic(m, key, x, L, h);
    }
    else {
        check(key, x, L, h, sets2(m));
    }
    mon::cover(key);
}
template <class M>
static void one3(const M& m, const std::string& key, const vd& L, double h)
{
    auto x = mat(m.coor());
    if (DO_C05) {
        periodic(m, key, x, L, h);
    }
    else {
        check(key, x, L, h, sets3(m));
    }
    mon::cover(key);
}

void run_case(mon::Rng& r)
{
    double h = r.coin(0.3) ? 1.0 : r.logu(1e-3, 1e3);
    bool th = mon::thorough();
    size_t which = r.range(0, 4);
    if (which < 3) {
        size_t nx = r.range(1, th ? 40 : 18), ny = r.range(1, th ? 40 : 18);
        if (which == 1) {
            nx = r.coin(0.7) ? 3 * r.range(1, th ? 27 : 12) : nx;
            ny = r.range(1, th ? 120 : 60);
            if (r.coin(0.08)) { // three levels of refinement
                nx = 27 * r.range(1, 2);
                ny = r.range(104, 140);
            }
        }
        if (r.coin(0.1)) {
            nx = 1;
        }
        size_t nfine = r.coin(0.7) ? 1 : r.range(1, 9);
        mon::context() = fmt("which=%zu nx=%zu ny=%zu h=%.17g nfine=%zu", which, nx, ny, h, nfine);
        mon::nontrivial(mon::hash({which, nx, ny, which == 1 ? nfine : 0}));
        if (which == 0) {
            one2(GF::Mesh::Quad4::Regular(nx, ny, h), "quad4", nx, ny, h);
        }
        else if (which == 1) {
            GF::Mesh::Quad4::FineLayer m(nx, ny, h, nfine);
    {
        size_t levels = 0;
        for (size_t n = xt::amax(m.elemrow_nhx())(); n >= 3; n /= 3) ++levels;
        mon::cover(fmt("levels.%zu", levels));
    }
            one2(m, "quad4fine", m.nelx(), m.nely(), h);
        }
        else {
            one2(GF::Mesh::Tri3::Regular(nx, ny, h), "tri3", nx, ny, h);
        }
    }
    else {
        size_t m = th ? 9 : 6;
        size_t nx = r.range(1, m), ny = r.range(1, m), nz = r.range(1, m), nfine = 1;
        if (which == 4) {
            nx = r.coin(0.6) ? 3 * r.range(1, 3) : nx;
            nz = r.coin(0.6) ? 3 * r.range(1, 3) : nz;
            ny = r.range(1, th ? 30 : 16);
            if (r.coin(0.1)) { // several levels of refinement
                nx = 9 * r.range(1, 2);
                nz = 9;
                ny = r.range(28, 60);
            }
            nfine = r.coin(0.7) ? 1 : r.range(1, 5);
        }
        mon::context() = fmt("which=%zu nx=%zu ny=%zu nz=%zu h=%.17g nfine=%zu", which, nx, ny, nz, h, nfine);
        mon::nontrivial(mon::hash({which, nx, ny, nz, nfine}));
        if (which == 3) {
            one3(GF::Mesh::Hex8::Regular(nx, ny, nz, h), "hex8", {nx * h, ny * h, nz * h}, h);
        }
        else {
            GF::Mesh::Hex8::FineLayer f(nx, ny, nz, h, nfine);
            one3(f, "hex8fine", {f.nelx() * h, f.nely() * h, f.nelz() * h}, h);
        }
    }
    mon::sample(mon::context());
}
