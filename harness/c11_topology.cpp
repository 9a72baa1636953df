// C11: topology queries (coordination, elements per node, nodes per DOF, nodal tyings).
#include "ref.h"
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
using namespace ref;
namespace GF = GooseFEM;
typedef GF::array_type::tensor<size_t, 2> U2;

void run_case(mon::Rng& r)
{
    size_t k = r.range(0, 4);
    U2 conn, dofs, dofsP;
    size_t nx = r.range(1, 7), ny = r.range(1, 7), nz = r.range(1, 3);
    auto get = [&](const auto& m) {
        conn = m.conn();
        dofs = m.dofs();
        dofsP = m.dofsPeriodic();
    };
    if (k == 0) {
        get(GF::Mesh::Quad4::Regular(nx, ny));
    }
    else if (k == 1) {
        get(GF::Mesh::Tri3::Regular(nx, ny));
    }
    else if (k == 2) {
        ny = r.range(1, 30);
        nx = 3 * r.range(1, 4);
        get(GF::Mesh::Quad4::FineLayer(nx, ny));
    }
    else if (k == 3) {
        get(GF::Mesh::Hex8::Regular(std::min<size_t>(nx, 3), std::min<size_t>(ny, 3), nz));
    }
    else {
        get(GF::Mesh::Hex8::FineLayer(3, ny, 3));
    }
    // arbitrary numbering of elements and nodes; sometimes irregular subsets of elements
    size_t nn = dofs.shape(0), nd = dofs.shape(1);
    bool regular = true;
    if (r.coin(0.6)) {
        auto p = r.perm(nn), q = r.perm(conn.shape(0));
        U2 c = conn, d = dofs, dp = dofsP;
        for (size_t e = 0; e < conn.shape(0); ++e) {
            for (size_t m = 0; m < conn.shape(1); ++m) {
                c(q[e], m) = p[conn(e, m)];
            }
        }
        for (size_t n = 0; n < nn; ++n) {
            for (size_t i = 0; i < nd; ++i) {
                d(p[n], i) = dofs(n, i);
                dp(p[n], i) = dofsP(n, i);
            }
        }
        conn = c;
        dofs = d;
        dofsP = dp;
        regular = false;
        mon::cover("permuted");
    }
    mon::context() = fmt("kind=%zu nx=%zu ny=%zu nz=%zu permuted=%d", k, nx, ny, nz, !regular);
    mon::sample(mon::context());
    mon::nontrivial(mon::hash({k, nx, ny, nz, regular ? 0 : r.s}));
    // --- elements per node
    std::vector<vu> ref(nn);
    for (size_t e = 0; e < conn.shape(0); ++e) {
        for (size_t m = 0; m < conn.shape(1); ++m) {
            ref[conn(e, m)].push_back(e);
        }
    }
    auto N = GF::Mesh::coordination(conn);
    mon::ok(N.size() == nn, "coordination.size");
    size_t sum = 0;
    for (size_t n = 0; n < nn; ++n) {
        mon::ok(N(n) == ref[n].size(), "coordination.count", fmt("node %zu: %zu", n, (size_t)N(n)));
        sum += N(n);
    }
    mon::ok(sum == conn.size(), "coordination.sum");
    auto E = GF::Mesh::elem2node(conn);
    auto Eu = GF::Mesh::elem2node(conn, false);
    mon::ok(E == ref, "elem2node.exact");
    mon::ok(Eu.size() == nn, "elem2node.size");
    for (auto& i : Eu) {
        std::sort(i.begin(), i.end());
    }
    mon::ok(Eu == ref, "elem2node.unsorted");
    mon::cover("nodes", nn);
    // --- nodes per DOF, tyings, elements per node across periodic boundaries
    for (size_t periodic = 0; periodic < 2; ++periodic) {
        auto& D = periodic ? dofsP : dofs;
        size_t ndof = (size_t)xt::amax(D)() + 1;
        std::vector<vu> rd(ndof);
        for (size_t n = 0; n < nn; ++n) {
            for (size_t i = 0; i < nd; ++i) {
                rd[D(n, i)].push_back(n);
            }
        }
        auto G = GF::Mesh::node2dof(D);
        mon::ok(G == rd, "node2dof.exact", fmt("periodic=%zu", periodic));
        auto Gu = GF::Mesh::node2dof(D, false);
        for (auto& i : Gu) {
            std::sort(i.begin(), i.end());
        }
        mon::ok(Gu == rd, "node2dof.unsorted");
        auto T = GF::Mesh::nodaltyings(D);
        if (!mon::ok(T.size() == nn, "nodaltyings.size")) {
            return;
        }
        for (size_t n = 0; n < nn; ++n) {
            mon::ok(T[n] == rd[D(n, 0)], "nodaltyings.exact", fmt("periodic=%zu node %zu", periodic, n));
            mon::ok(std::find(T[n].begin(), T[n].end(), n) != T[n].end(), "nodaltyings.self");
            if (T[n].size() > 1) {
                mon::cover("tied_nodes");
            }
            if (T[n].size() > 2) {
                mon::cover("tied_corners");
            }
        }
        for (int sorted = 0; sorted < 2; ++sorted) {
            auto P = GF::Mesh::elem2node(conn, D, (bool)sorted);
            if (!mon::ok(P.size() == nn, "elem2node_periodic.size")) {
                return;
            }
            for (size_t n = 0; n < nn; ++n) {
                vu expect;
                for (auto t : rd[D(n, 0)]) {
                    expect.insert(expect.end(), ref[t].begin(), ref[t].end());
                }
                std::sort(expect.begin(), expect.end());
                if (sorted) {
                    mon::ok(std::is_sorted(P[n].begin(), P[n].end()), "elem2node_periodic.sorted");
                }
                vu got = P[n];
                std::sort(got.begin(), got.end());
                // an element that touches several images of one node: listed, whatever the multiplicity
                bool multi = std::adjacent_find(expect.begin(), expect.end()) != expect.end();
                if (multi) {
                    expect.erase(std::unique(expect.begin(), expect.end()), expect.end());
                    got.erase(std::unique(got.begin(), got.end()), got.end());
                    mon::cover("element_touches_itself");
                }
                mon::ok(got == expect, "elem2node_periodic.exact", fmt("periodic=%zu node %zu: %zu elements expected %zu", periodic, n, got.size(), expect.size()));
                for (auto t : rd[D(n, 0)]) {
                    mon::ok(P[t] == P[n], "elem2node_periodic.images_agree");
                }
            }
        }
    }
    // --- nodes without elements: control nodes, and nodes that are tied to others
    {
        size_t extra = r.range(1, 3), next = (size_t)xt::amax(dofsP)() + 1;
        U2 D = xt::empty<size_t>({nn + extra, nd});
        std::vector<vu> owner(next + extra * nd);
        for (size_t n = 0; n < nn + extra; ++n) {
            bool tied = n >= nn && r.coin();
            size_t to = r.range(0, nn - 1);
            for (size_t i = 0; i < nd; ++i) {
                D(n, i) = n < nn ? dofsP(n, i) : (tied ? dofsP(to, i) : next + i);
            }
            if (n >= nn && !tied) next += nd;
            owner[D(n, 0)].push_back(n);
            if (tied) mon::cover("tied_without_elements");
        }
        auto P = GF::Mesh::elem2node(conn, D);
        if (!mon::ok(P.size() == nn + extra, "elem2node_extra.size")) return;
        for (size_t n = 0; n < nn + extra; ++n) {
            vu expect;
            for (auto t : owner[D(n, 0)])
                if (t < nn) expect.insert(expect.end(), ref[t].begin(), ref[t].end());
            std::sort(expect.begin(), expect.end());
            mon::ok(P[n] == expect, "elem2node_extra.exact", fmt("node %zu", n));
        }
        mon::cover("nodes_without_elements", extra);
    }
}
