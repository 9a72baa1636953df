// C09: stitching and stacking meshes: nothing lost, nothing duplicated, all maps consistent.
#include "ref.h"
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
using namespace ref;
namespace GF = GooseFEM;
typedef GF::array_type::tensor<double, 2> D2;
typedef GF::array_type::tensor<size_t, 2> U2;
typedef GF::array_type::tensor<size_t, 1> U1;

struct Piece {
    vvd x;
    vvu c;
    vu gnode; // node -> node of the original
    vu gelem;
};

static D2 todx(const vvd& x)
{
    D2 r = xt::empty<double>({x.size(), x[0].size()});
    for (size_t i = 0; i < x.size(); ++i) {
        for (size_t j = 0; j < x[0].size(); ++j) {
            r(i, j) = x[i][j];
        }
    }
    return r;
}
static U2 toux(const vvu& x)
{
    U2 r = xt::empty<size_t>({x.size(), x[0].size()});
    for (size_t i = 0; i < x.size(); ++i) {
        for (size_t j = 0; j < x[0].size(); ++j) {
            r(i, j) = x[i][j];
        }
    }
    return r;
}
static U1 tou1(const vu& x)
{
    U1 r = xt::empty<size_t>({x.size()});
    std::copy(x.begin(), x.end(), r.begin());
    return r;
}

static Piece extract(mon::Rng& r, const vvd& x, const vvu& c, const vu& elems, bool renumber)
{
    Piece p;
    std::set<size_t> s;
    for (auto e : elems) {
        s.insert(c[e].begin(), c[e].end());
    }
    vu nodes(s.begin(), s.end());
    if (renumber) {
        r.shuffle(nodes);
    }
    std::map<size_t, size_t> inv;
    for (size_t i = 0; i < nodes.size(); ++i) {
        inv[nodes[i]] = i;
        p.x.push_back(x[nodes[i]]);
    }
    p.gnode = nodes;
    p.gelem = elems;
    for (auto e : elems) {
        vu row;
        for (auto n : c[e]) {
            row.push_back(inv[n]);
        }
        p.c.push_back(row);
    }
    return p;
}

static void original(mon::Rng& r, vvd& x, vvu& c, double& h)
{
    h = r.coin(0.5) ? 1.0 : r.logu(1e-2, 1e2);
    size_t k = r.range(0, 3);
    if (k == 0) {
        GF::Mesh::Quad4::Regular m(r.range(1, 8), r.range(1, 8), h);
        x = mat(m.coor()), c = umat(m.conn());
    }
    else if (k == 1) {
        GF::Mesh::Tri3::Regular m(r.range(1, 6), r.range(1, 6), h);
        x = mat(m.coor()), c = umat(m.conn());
    }
    else if (k == 2) {
        GF::Mesh::Quad4::FineLayer m(3 * r.range(1, 3), r.range(1, 14), h);
        x = mat(m.coor()), c = umat(m.conn());
    }
    else {
        GF::Mesh::Hex8::Regular m(r.range(1, 4), r.range(1, 4), r.range(1, 4), h);
        x = mat(m.coor()), c = umat(m.conn());
    }
    mon::context() = fmt("original kind=%zu nnode=%zu nelem=%zu h=%.17g", k, x.size(), c.size(), h);
    // off the origin
    if (r.coin(0.5)) {
        for (size_t d = 0; d < x[0].size(); ++d) {
            double o = r.uni(-2, 2) * h;
            for (auto& p : x) {
                p[d] += o;
            }
        }
    }
}

static void stitch(mon::Rng& r)
{
    vvd x;
    vvu c;
    double h;
    original(r, x, c, h);
    size_t ne = c.size(), np = std::min(ne, r.range(1, 4));
    // distribute the elements over the pieces (each at least one)
    std::vector<vu> el(np);
    auto perm = r.perm(ne);
    bool contiguous = r.coin(0.5);
    if (contiguous) {
        for (size_t i = 0; i < ne; ++i) {
            perm[i] = i;
        }
    }
    for (size_t i = 0; i < ne; ++i) {
        size_t p = contiguous ? i * np / ne : (i < np ? i : r.range(0, np - 1));
        el[p].push_back(perm[i]);
    }
    std::vector<Piece> P;
    for (auto& e : el) {
        P.push_back(extract(r, x, c, e, r.coin(0.7)));
    }
    mon::nontrivial(mon::hash({1, ne, x.size(), np, (uint64_t)contiguous, r.s}));
    // pieces that touch nothing
    size_t fresh = x.size();
    for (size_t i = 0; i < np; ++i) {
        if (r.coin(0.15)) {
            for (auto& p : P[i].x) {
                p[0] += (100.0 + 100.0 * i) * h;
            }
            for (auto& g : P[i].gnode) {
                g = fresh++;
            }
            mon::cover("disjoint_pieces");
        }
    }
    // the tolerance to merge nodes is the caller's
    double tol = r.coin(0.3) ? h * r.logu(1e-9, 1e-3) : 0.0;
    GF::Mesh::Stitch S = tol > 0 ? GF::Mesh::Stitch(0.0, tol) : GF::Mesh::Stitch();
    if (tol > 0) {
        for (auto& p : P) {
            for (auto& i : p.x) {
                for (auto& j : i) {
                    j += r.uni(-0.4, 0.4) * tol;
                }
            }
        }
        mon::cover("custom_tolerance");
    }
    std::vector<vu> before;
    for (size_t i = 0; i < np; ++i) {
        S.push_back(todx(P[i].x), toux(P[i].c));
        // a mesh keeps its nodes and elements when others are added
        before.push_back(uvec(S.nodemap(i)));
        bool kept = S.nmesh() == i + 1;
        for (size_t j = 0; kept && j <= i; ++j) {
            kept = uvec(S.nodemap(j)) == before[j];
        }
        mon::ok(kept, "stitch.kept", fmt("after mesh %zu", i));
    }
    auto X = mat(S.coor());
    auto C = umat(S.conn());
    std::set<size_t> used;
    for (auto& p : P) {
        used.insert(p.gnode.begin(), p.gnode.end());
    }
    mon::ok(S.nmesh() == np && S.nodemap().size() == np && S.elemmap().size() == np, "stitch.nmesh");
    mon::ok(S.nelem() == ne && C.size() == ne, "stitch.nelem");
    if (!mon::ok(S.nnode() == used.size() && X.size() == used.size(), "stitch.nodes_merged", fmt("%zu pieces: %zu nodes, expected %zu", np, X.size(), used.size()))) {
        return;
    }
    mon::ok(S.nne() == c[0].size() && S.ndim() == x[0].size(), "stitch.nne_ndim");
    auto D = umat(S.dofs());
    mon::ok(D.size() == X.size() && D[0].size() == x[0].size() && D[0][0] == 0 && D.back().back() + 1 == X.size() * x[0].size(), "stitch.dofs");
    vu g2s(fresh, SIZE_MAX);
    size_t off = 0, shared = 0;
    std::vector<U1> nsets, esets;
    std::set<size_t> nexp, eexp;
    for (size_t i = 0; i < np; ++i) {
        auto nm = uvec(S.nodemap(i)), em = uvec(S.elemmap(i));
        mon::ok(nm == uvec(S.nodemap()[i]) && em == uvec(S.elemmap()[i]), "stitch.maps_agree");
        if (!mon::ok(nm.size() == P[i].x.size() && em.size() == P[i].c.size(), "stitch.map_size")) {
            return;
        }
        for (size_t n = 0; n < nm.size(); ++n) {
            if (!mon::ok(nm[n] < X.size(), "stitch.map_range")) {
                return;
            }
            mon::close_seq(X[nm[n]], P[i].x[n], 1e-7 * h + tol, "stitch.position");
            size_t& s = g2s[P[i].gnode[n]];
            shared += s != SIZE_MAX;
            mon::ok(s == SIZE_MAX || s == nm[n], "stitch.same_node", fmt("mesh %zu node %zu", i, n));
            s = nm[n];
        }
        for (size_t e = 0; e < em.size(); ++e) {
            if (!mon::ok(em[e] == off + e, "stitch.elemmap", fmt("mesh %zu element %zu: %zu", i, e, em[e]))) {
                return;
            }
            bool good = true;
            for (size_t k = 0; k < P[i].c[e].size(); ++k) {
                good &= C[em[e]][k] == nm[P[i].c[e][k]];
            }
            mon::ok(good, "stitch.conn", fmt("mesh %zu element %zu", i, e));
        }
        off += em.size();
        // sets
        auto ns = tou1(r.subset(nm.size(), r.range(1, nm.size())));
        auto es = tou1(r.subset(em.size(), r.range(1, em.size())));
        auto ns2 = S.nodeset(ns, i);
        auto es2 = S.elemset(es, i);
        for (size_t k = 0; k < ns.size(); ++k) {
            mon::ok(ns2(k) == nm[ns(k)], "stitch.nodeset");
            nexp.insert(nm[ns(k)]);
        }
        for (size_t k = 0; k < es.size(); ++k) {
            mon::ok(es2(k) == em[es(k)], "stitch.elemset");
            eexp.insert(em[es(k)]);
        }
        nsets.push_back(ns);
        esets.push_back(es);
    }
    auto all_n = uvec(S.nodeset(nsets));
    mon::ok(all_n == vu(nexp.begin(), nexp.end()), "stitch.nodeset_all");
    if (np == 2) {
        mon::ok(uvec(S.nodeset({nsets[0], nsets[1]})) == all_n && S.elemset({esets[0], esets[1]}) == S.elemset(esets), "stitch.set_list");
    }
    auto all_e = uvec(S.elemset(esets));
    mon::ok(std::set<size_t>(all_e.begin(), all_e.end()) == eexp && all_e.size() == eexp.size(), "stitch.elemset_all");
    mon::cover("stitched_pieces", np);
    mon::cover("shared_nodes", shared);
}

static void manual(mon::Rng& r)
{
    vvd x;
    vvu c;
    double h;
    original(r, x, c, h);
    if (c.size() < 2) {
        return;
    }
    std::vector<vu> el(2);
    auto perm = r.perm(c.size());
    for (size_t i = 0; i < c.size(); ++i) {
        el[i < 2 ? i : r.range(0, 1)].push_back(perm[i]);
    }
    auto A = extract(r, x, c, el[0], true), B = extract(r, x, c, el[1], true);
    std::map<size_t, size_t> ia;
    for (size_t i = 0; i < A.gnode.size(); ++i) {
        ia[A.gnode[i]] = i;
    }
    std::vector<std::pair<size_t, size_t>> ov;
    for (size_t i = 0; i < B.gnode.size(); ++i) {
        if (ia.count(B.gnode[i])) {
            ov.push_back({ia[B.gnode[i]], i});
        }
    }
    r.shuffle(ov);
    vu oa, ob;
    for (auto& i : ov) {
        oa.push_back(i.first);
        ob.push_back(i.second);
    }
    mon::nontrivial(mon::hash({2, c.size(), x.size(), ov.size(), r.s}));
    // the search of the overlap finds exactly these pairs
    auto O = GF::Mesh::overlapping(todx(A.x), todx(B.x));
    std::set<std::pair<size_t, size_t>> os, es(ov.begin(), ov.end());
    for (size_t i = 0; i < O.shape(1); ++i) {
        os.insert({O(0, i), O(1, i)});
    }
    mon::ok(O.shape(0) == 2 && os == es && O.shape(1) == es.size(), "overlapping.exact", fmt("%zu pairs, expected %zu", os.size(), es.size()));
    if (ov.empty()) {
        return;
    }
    GF::Mesh::ManualStitch S(todx(A.x), toux(A.c), tou1(oa), todx(B.x), toux(B.c), tou1(ob));
    auto X = mat(S.coor());
    auto C = umat(S.conn());
    mon::ok(S.nnode() == X.size() && X.size() == A.x.size() + B.x.size() - ov.size(), "manual.nnode");
    auto D = umat(S.dofs());
    bool std_dofs = D.size() == X.size();
    for (size_t i = 0; std_dofs && i < D.size(); ++i) {
        for (size_t j = 0; j < D[i].size(); ++j) {
            std_dofs &= D[i].size() == x[0].size() && D[i][j] == i * x[0].size() + j;
        }
    }
    mon::ok(std_dofs, "manual.dofs");
    mon::ok(S.nelem() == c.size() && S.nmesh() == 2 && S.nne() == c[0].size() && S.ndim() == x[0].size(), "manual.size");
    const Piece* P[2] = {&A, &B};
    vu g2s(x.size(), SIZE_MAX);
    for (size_t i = 0; i < 2; ++i) {
        auto nm = uvec(S.nodemap(i)), em = uvec(S.elemmap(i));
        mon::ok(nm.size() == P[i]->x.size() && em.size() == P[i]->c.size() && nm == uvec(S.nodemap()[i]) && em == uvec(S.elemmap()[i]), "manual.maps");
        for (size_t n = 0; n < nm.size(); ++n) {
            if (!mon::ok(nm[n] < X.size(), "manual.map_range")) {
                return;
            }
            mon::close_seq(X[nm[n]], P[i]->x[n], 1e-7 * h, "manual.position");
            size_t& s = g2s[P[i]->gnode[n]];
            mon::ok(s == SIZE_MAX || s == nm[n], "manual.same_node");
            s = nm[n];
        }
        for (size_t e = 0; e < em.size(); ++e) {
            bool good = em[e] == (i ? A.c.size() : 0) + e;
            for (size_t k = 0; good && k < P[i]->c[e].size(); ++k) {
                good &= C[em[e]][k] == nm[P[i]->c[e][k]];
            }
            mon::ok(good, "manual.conn", fmt("mesh %zu element %zu", i, e));
        }
        auto ns = tou1(r.subset(nm.size(), r.range(1, nm.size())));
        auto ns2 = S.nodeset(ns, i);
        auto es2 = tou1(r.subset(em.size(), r.range(1, em.size())));
        auto es3 = S.elemset(es2, i);
        for (size_t k = 0; k < ns.size(); ++k) {
            mon::ok(ns2(k) == nm[ns(k)], "manual.nodeset");
        }
        for (size_t k = 0; k < es2.size(); ++k) {
            mon::ok(es3(k) == em[es2(k)], "manual.elemset");
        }
    }
    // nodes that do not coincide are refused (unless asked not to check)
    {
        auto Y = todx(B.x);
        size_t k = r.range(0, ob.size() - 1);
        Y(ob[k], r.range(0, x[0].size() - 1)) += h * r.uni(0.05, 0.3);
        mon::throws([&]() { GF::Mesh::ManualStitch T(todx(A.x), toux(A.c), tou1(oa), Y, toux(B.c), tou1(ob)); }, "manual.reject_mismatch");
        GF::Mesh::ManualStitch T(todx(A.x), toux(A.c), tou1(oa), Y, toux(B.c), tou1(ob), false);
        mon::ok(umat(T.conn()) == C, "manual.no_check");
    }
    mon::cover("manual");
}

static void vstack(mon::Rng& r)
{
    double h = r.coin(0.5) ? 1.0 : r.logu(1e-2, 1e2);
    size_t n = r.range(1, 5), nx = r.coin(0.5) ? 3 * r.range(1, 3) : r.range(1, 8);
    bool check = r.coin(0.7), hex = r.coin(0.25);
    size_t nz = r.range(1, 3);
    if (hex) {
        nx = std::min<size_t>(nx, 4);
    }
    GF::Mesh::Vstack V(check);
    bool rev = r.coin(0.3);
    vvu conns;
    std::vector<vvd> xs;
    std::vector<vvu> cs;
    double H = 0;
    vd shift;
    std::string desc;
    std::vector<vu> bots, tops;
    bool fine = false;
    for (size_t i = 0; i < n; ++i) {
        size_t ny = r.range(1, 5);
        D2 x;
        U2 c;
        U1 b, t;
        if (hex) {
            GF::Mesh::Hex8::Regular m(nx, ny, nz, h);
            x = m.coor(), c = m.conn(), b = m.nodesBottom(), t = m.nodesTop();
        }
        else if (r.coin(0.3)) {
            GF::Mesh::Quad4::FineLayer m(nx, ny, h);
            ny = m.nely();
            x = m.coor(), c = m.conn(), b = m.nodesBottomEdge(), t = m.nodesTopEdge();
            fine = true;
            if (i && b.size() != tops.back().size()) {
                continue;
            }
        }
        else {
            GF::Mesh::Quad4::Regular m(nx, ny, h);
            x = m.coor(), c = m.conn(), b = m.nodesBottomEdge(), t = m.nodesTopEdge();
            if (i && b.size() != tops.back().size()) {
                continue;
            }
        }
        if (r.coin(0.3)) {
            // other node numbering
            auto p = r.perm(x.shape(0));
            D2 y = x;
            for (size_t k = 0; k < p.size(); ++k) {
                for (size_t d = 0; d < x.shape(1); ++d) {
                    y(p[k], d) = x(k, d);
                }
            }
            x = y;
            for (auto& k : c) {
                k = p[k];
            }
            for (auto& k : b) {
                k = p[k];
            }
            for (auto& k : t) {
                k = p[k];
            }
        }
        if (rev) {
            std::reverse(b.begin(), b.end());
            std::reverse(t.begin(), t.end());
        }
        // nodes that do not lie on top of the last mesh are refused (unless asked not to check)
        if (!xs.empty() && r.coin(0.25)) {
            D2 y = x;
            double d = h * r.uni(0.05, 0.3);
            y(b(r.range(0, b.size() - 1)), r.coin() ? 0 : (hex ? 2 : 0)) += r.coin() ? d : -d;
            GF::Mesh::Vstack W = V;
            if (check) {
                mon::throws([&]() { W.push_back(y, c, b, t); }, "vstack.reject_mismatch", fmt("mesh %zu", xs.size()));
            }
            else {
                W.push_back(y, c, b, t);
                mon::ok(W.nmesh() == xs.size() + 1, "vstack.no_check");
            }
            mon::cover("vstack_mismatch");
        }
        V.push_back(x, c, b, t);
        shift.push_back(H);
        xs.push_back(mat(x));
        cs.push_back(umat(c));
        bots.push_back(uvec(b));
        tops.push_back(uvec(t));
        H += ny * h;
        desc += fmt(" %zu", ny);
    }
    mon::context() = fmt("Vstack nx=%zu h=%.17g ny:%s", nx, h, desc.c_str());
    mon::nontrivial(mon::hash({3, nx, n, r.s}));
    auto X = mat(V.coor());
    auto C = umat(V.conn());
    n = xs.size();
    mon::ok(V.nmesh() == n && V.nodemap().size() == n && V.elemmap().size() == n, "vstack.nmesh");
    size_t nn = 0, nel = 0;
    for (size_t i = 0; i < n; ++i) {
        nn += xs[i].size() - (i ? tops[i - 1].size() : 0);
        nel += cs[i].size();
    }
    if (!mon::ok(X.size() == nn && C.size() == nel, "vstack.size", fmt("%zu nodes (%zu) %zu elements (%zu)", X.size(), nn, C.size(), nel))) {
        return;
    }
    if (!hex && !fine) {
        check_tiling2d(X, C, {nx * h, H}, h, "vstack");
    }
    mon::cover(hex ? "vstack_3d" : fine ? "vstack_refined" : "vstack_regular");
    size_t off = 0;
    std::vector<U1> nsets, esets;
    std::set<size_t> nexp, eexp;
    for (size_t i = 0; i < n; ++i) {
        auto nm = uvec(V.nodemap(i)), em = uvec(V.elemmap(i));
        if (!mon::ok(nm.size() == xs[i].size() && em.size() == cs[i].size(), "vstack.map_size")) {
            return;
        }
        for (size_t k = 0; k < nm.size(); ++k) {
            if (!mon::ok(nm[k] < X.size(), "vstack.map_range")) {
                return;
            }
            vd p = xs[i][k];
            p[1] += shift[i];
            mon::close_seq(X[nm[k]], p, 1e-7 * h, "vstack.position");
        }
        for (size_t e = 0; e < em.size(); ++e) {
            bool good = em[e] == off + e;
            for (size_t k = 0; good && k < cs[i][e].size(); ++k) {
                good &= C[em[e]][k] == nm[cs[i][e][k]];
            }
            mon::ok(good, "vstack.conn");
        }
        off += em.size();
        // nodes of the interface are those of both meshes
        if (i) {
            auto prev = uvec(V.nodemap(i - 1));
            bool same = true;
            for (size_t k = 0; k < bots[i].size(); ++k) {
                same &= nm[bots[i][k]] == prev[tops[i - 1][k]];
            }
            mon::ok(same, "vstack.interface", fmt("mesh %zu", i));
        }
        auto ns = tou1(r.subset(nm.size(), r.range(1, nm.size())));
        auto es = tou1(r.subset(em.size(), r.range(1, em.size())));
        auto ns2 = V.nodeset(ns, i);
        auto es2 = V.elemset(es, i);
        for (size_t k = 0; k < ns.size(); ++k) {
            mon::ok(ns2(k) == nm[ns(k)], "vstack.nodeset");
            nexp.insert(nm[ns(k)]);
        }
        for (size_t k = 0; k < es.size(); ++k) {
            mon::ok(es2(k) == em[es(k)], "vstack.elemset");
            eexp.insert(em[es(k)]);
        }
        nsets.push_back(ns);
        esets.push_back(es);
    }
    mon::ok(uvec(V.nodeset(nsets)) == vu(nexp.begin(), nexp.end()), "vstack.nodeset_all");
    auto all_e = uvec(V.elemset(esets));
    mon::ok(std::set<size_t>(all_e.begin(), all_e.end()) == eexp && all_e.size() == eexp.size(), "vstack.elemset_all");
    mon::cover("vstack_layers", n);
}

void run_case(mon::Rng& r)
{
    size_t k = r.range(0, 2);
    if (k == 0) {
        stitch(r);
    }
    else if (k == 1) {
        manual(r);
    }
    else {
        vstack(r);
    }
    mon::sample(mon::context());
}
