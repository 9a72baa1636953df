// C03: hexahedral meshes (regular and fine-layer) tile their box.
#include "ref.h"
#include <GooseFEM/MeshHex8.h>
using namespace ref;
namespace GF = GooseFEM;

void run_case(mon::Rng& r)
{
    double h = r.coin(0.2) ? 1.0 : r.logu(1e-4, 1e4);
    if (r.coin(0.35)) {
        size_t b = mon::thorough() ? 12 : 6;
        size_t nx = r.range(1, b), ny = r.range(1, b), nz = r.range(1, b);
        mon::context() = fmt("Hex8::Regular nelx=%zu nely=%zu nelz=%zu h=%.17g", nx, ny, nz, h);
        mon::sample(mon::context());
        GF::Mesh::Hex8::Regular m(nx, ny, nz, h);
        auto xx = m.coor();
        auto cc = m.conn();
        mon::ok(m.ndim() == 3 && m.nne() == 8 && m.h() == h && m.elementType() == GF::Mesh::ElementType::Hex8, "hex8.echo");
        mon::ok(GF::Mesh::defaultElementType(xx, cc) == GF::Mesh::ElementType::Hex8, "hex8.defaultElementType");
        mon::ok(m.nelx() == nx && m.nely() == ny && m.nelz() == nz, "hex8.input_echo");
        mon::ok(m.nelem() == nx * ny * nz && cc.shape(0) == m.nelem() && cc.shape(1) == 8, "hex8.nelem");
        mon::ok(m.nnode() == (nx + 1) * (ny + 1) * (nz + 1) && xx.shape(0) == m.nnode() && xx.shape(1) == 3, "hex8.nnode");
        auto x = mat(xx);
        auto c = umat(cc);
        if (check_tiling3d(x, c, {nx * h, ny * h, nz * h}, h, "hex8")) {
            for (auto& e : c) {
                bool cube = true;
                for (size_t k = 0; k < 8; ++k) {
                    for (size_t d = 0; d < 3; ++d) {
                        cube &= std::abs(x[e[k]][d] - x[e[0]][d] - (hexsign()[k][d] > 0) * h) < 1e-9 * h * (nx + ny + nz);
                    }
                }
                mon::ok(cube, "hex8.cube");
            }
            mon::cover("regular_elements", c.size());
        }
        mon::nontrivial(mon::hash({nx, ny, nz, mon::hashd(h)}));
        auto d = m.dofs();
        size_t i = 0;
        bool seq = d.shape(0) == m.nnode() && d.shape(1) == 3;
        for (auto& v : d) {
            seq &= v == i++;
        }
        mon::ok(seq, "hex8.dofs_sequential");
        return;
    }
    std::vector<size_t> n = {1, 2, 3, 4, 5, 6, 9, 3, 9, 6};
    if (r.coin(mon::thorough() ? 0.3 : 0.12)) {
        n = {9, 18, 27, 12};
    }
    size_t nx = r.pick(n), nz = r.pick(n);
    size_t ny = r.coin(0.1) ? 1 : r.range(1, r.coin(0.3) ? 70 : 30);
    size_t nfine = r.coin(0.6) ? 1 : r.range(0, 7);
    mon::context() = fmt("Hex8::FineLayer nelx=%zu nely=%zu nelz=%zu h=%.17g nfine=%zu", nx, ny, nz, h, nfine);
    mon::sample(mon::context());
    GF::Mesh::Hex8::FineLayer m(nx, ny, nz, h, nfine);
    auto xx = m.coor();
    auto cc = m.conn();
    mon::ok(m.ndim() == 3 && m.nne() == 8 && m.h() == h && m.elementType() == GF::Mesh::ElementType::Hex8, "hexfine.echo");
    mon::ok(m.nelx() == nx && m.nelz() == nz, "hexfine.nelx_nelz_match_input", fmt("%zu %zu", m.nelx(), m.nelz()));
    mon::ok(m.nelem() == cc.shape(0) && cc.shape(1) == 8, "hexfine.nelem", fmt("%zu %zu", m.nelem(), cc.shape(0)));
    mon::ok(m.nnode() == xx.shape(0) && xx.shape(1) == 3, "hexfine.nnode");
    auto x = mat(xx);
    auto c = umat(cc);
    double Ly = m.nely() * h;
    if (!check_tiling3d(x, c, {nx * h, Ly, nz * h}, h, "hexfine")) {
        return;
    }
    mon::cover("finelayer_elements", c.size());
    // middle layer: cubes of size h, x fastest
    auto ml = m.elementsMiddleLayer();
    if (mon::ok(ml.size() == nx * nz, "hexfine.middle_count", fmt("%zu", ml.size()))) {
        double ym = 0.5 * (Ly - h);
        for (size_t iz = 0; iz < nz; ++iz) {
            for (size_t ix = 0; ix < nx; ++ix) {
                for (size_t k = 0; k < 8; ++k) {
                    auto& p = x[c[ml(ix + iz * nx)][k]];
                    double q[3] = {(ix + (hexsign()[k][0] > 0)) * h, ym + (hexsign()[k][1] > 0) * h, (iz + (hexsign()[k][2] > 0)) * h};
                    bool g = true;
                    for (int d = 0; d < 3; ++d) {
                        g &= std::abs(p[d] - q[d]) < 1e-8 * h;
                    }
                    mon::ok(g, "hexfine.middle_cube", fmt("%zu %zu", ix, iz));
                }
            }
        }
    }
    // mirror symmetric about the middle; coarse elements away from it
    std::map<std::array<long long, 3>, int> set;
    for (auto& p : x) {
        set[{llround(p[0] / h * 4), llround(p[1] / h * 4), llround(p[2] / h * 4)}]++;
    }
    bool sym = true;
    for (auto& p : x) {
        sym &= set.count({llround(p[0] / h * 4), llround((Ly - p[1]) / h * 4), llround(p[2] / h * 4)}) == 1;
    }
    mon::ok(sym, "hexfine.symmetric");
    // sizes never decrease outwards, are never larger than the distance to the centre, and are the
    // requested one in (at least) the requested number of rows
    {
        struct Box {
            double in, out, size[3];
            bool block;
        };
        std::vector<Box> box;
        double half = 0.5 * std::min<double>(nfine, m.nely()) * h;
        for (auto& e : c) {
            double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
            for (auto k : e)
                for (int d = 0; d < 3; ++d) lo[d] = std::min(lo[d], x[k][d]), hi[d] = std::max(hi[d], x[k][d]);
            double a = lo[1] - 0.5 * Ly, b = hi[1] - 0.5 * Ly;
            Box q{a * b < 0 ? 0.0 : std::min(std::abs(a), std::abs(b)), std::max(std::abs(a), std::abs(b)), {hi[0] - lo[0], hi[1] - lo[1], hi[2] - lo[2]}, true};
            for (auto k : e)
                for (int d = 0; d < 3; ++d) q.block = q.block && std::min(std::abs(x[k][d] - lo[d]), std::abs(x[k][d] - hi[d])) < 1e-8 * h;
            box.push_back(q);
            for (int d = 0; d < 3; ++d) {
                if (q.in < half - 1e-8 * h) mon::close(q.size[d], h, 1e-8 * h, "hexfine.fine_rows");
                mon::ok(q.size[d] <= q.in + 0.5 * h + 1e-8 * h || q.size[d] < h * (1 + 1e-8), "hexfine.size_within_distance", fmt("size %g at %g h", q.size[d] / h, q.in / h));
            }
        }
        auto outer = box;
        std::sort(box.begin(), box.end(), [](const Box& a, const Box& b) { return a.out < b.out; });
        std::sort(outer.begin(), outer.end(), [](const Box& a, const Box& b) { return a.in < b.in; });
        double most[3] = {0, 0, 0};
        size_t i = 0;
        bool mono = true;
        for (auto& b : outer) {
            while (i < box.size() && box[i].out < b.in + 1e-8 * h) {
                // (the height of the wedges that connect coarse and fine elements is that of two elements)
                for (int d = 0; d < 3; ++d)
                    if (d != 1 || box[i].block) most[d] = std::max(most[d], box[i].size[d]);
                ++i;
            }
            for (int d = 0; d < 3; ++d) mono = mono && (b.size[d] > most[d] - 1e-8 * h || (d == 1 && !b.block));
        }
        mon::ok(mono, "hexfine.coarsens_outwards");
    }
    size_t coarse = 0;
    for (auto& e : c) {
        double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
        for (auto k : e) {
            for (int d = 0; d < 3; ++d) {
                lo[d] = std::min(lo[d], x[k][d]);
                hi[d] = std::max(hi[d], x[k][d]);
            }
        }
        double far = std::max(std::abs(lo[1] - 0.5 * (Ly - h)), std::abs(hi[1] - 0.5 * (Ly - h))) + h;
        for (int d = 0; d < 3; d += 2) {
            if (hi[d] - lo[d] > 1.5 * h) {
                ++coarse;
            }
            mon::ok(hi[d] - lo[d] <= far + 1e-8 * h, "hexfine.size_below_distance");
        }
    }
    mon::ok(m.nely() + 1 >= ny, "hexfine.height_reaches_target", fmt("%zu", m.nely()));
    if (coarse) {
        mon::cover("meshes_refined");
        mon::nontrivial(mon::hash({nx, ny, nz, nfine, mon::hashd(h)}));
    }
    auto d = m.dofs();
    size_t i = 0;
    bool seq = d.shape(0) == m.nnode() && d.shape(1) == 3;
    for (auto& v : d) {
        seq &= v == i++;
    }
    mon::ok(seq, "hexfine.dofs_sequential");
}
