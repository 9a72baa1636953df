// C02: Quad4 fine-layer meshes: conforming, fine in the middle, row bookkeeping is geometric.
#include "ref.h"
#include <GooseFEM/MeshQuad4.h>
using namespace ref;
namespace GF = GooseFEM;

void run_case(mon::Rng& r)
{
    size_t nx;
    switch (r.range(0, 4)) {
    case 0:
        nx = r.range(1, 12);
        break;
    case 1:
        nx = 3 * r.range(1, 12);
        break;
    case 2:
        nx = 9 * r.range(1, 6);
        break;
    case 3:
        nx = 27 * r.range(1, 3);
        break;
    default:
        nx = r.pick<size_t>({81, 54, 162, 18, 36});
    }
    size_t ny = r.coin(0.1) ? 1 : (r.coin(0.3) ? r.range(1, 12) : r.range(1, mon::thorough() ? 240 : 110));
    if (r.coin(0.08)) { // three levels of refinement, sometimes four
        nx = 27 * r.range(1, 3);
        ny = nx == 81 ? r.range(320, 345) : r.range(104, 150);
    }
    size_t nfine = r.coin(0.5) ? 1 : (r.coin(0.1) ? 0 : r.range(1, r.coin() ? 9 : ny + 4));
    double h = r.coin(0.2) ? 1.0 : r.logu(1e-4, 1e4);
    mon::context() = fmt("nelx=%zu nely=%zu h=%.17g nfine=%zu", nx, ny, h, nfine);
    mon::sample(mon::context());
    GF::Mesh::Quad4::FineLayer m(nx, ny, h, nfine);
    {
        size_t levels = 0;
        for (size_t n = xt::amax(m.elemrow_nhx())(); n >= 3; n /= 3) ++levels;
        mon::cover(fmt("levels.%zu", levels));
    }
    auto xx = m.coor();
    auto cc = m.conn();
    mon::ok(m.ndim() == 2 && m.nne() == 4 && m.h() == h && m.elementType() == GF::Mesh::ElementType::Quad4, "finelayer.echo");
    mon::ok(m.nelx() == nx, "finelayer.nelx_matches_input", fmt("%zu", m.nelx()));
    mon::ok(m.nelem() == cc.shape(0) && cc.shape(1) == 4, "finelayer.nelem", fmt("%zu %zu", m.nelem(), cc.shape(0)));
    mon::ok(m.nnode() == xx.shape(0) && xx.shape(1) == 2, "finelayer.nnode", fmt("%zu %zu", m.nnode(), xx.shape(0)));
    auto x = mat(xx);
    auto c = umat(cc);
    double Lx = nx * h, Ly = m.nely() * h;
    if (!check_tiling2d(x, c, {Lx, Ly}, h, "finelayer")) {
        return;
    }
    // rows
    auto nhx = uvec(m.elemrow_nhx()), nhy = uvec(m.elemrow_nhy()), ne = uvec(m.elemrow_nelem());
    auto type = m.elemrow_type();
    size_t nrow = nhx.size();
    if (!mon::ok(nhy.size() == nrow && ne.size() == nrow && type.size() == nrow && nrow % 2 == 1, "finelayer.row_sizes")) {
        return;
    }
    size_t mid = (nrow - 1) / 2;
    double eps = 1e-8 * h;
    std::vector<char> seen(c.size(), 0);
    double y0 = 0;
    size_t nref = 0;
    for (size_t i = 0; i < nrow; ++i) {
        auto el = m.elementsLayer(i);
        double y1 = y0 + nhy[i] * h;
        double area = 0;
        mon::ok(el.size() == ne[i] * (type(i) == -1 ? 1 : 4), "finelayer.row_count", fmt("row %zu: %zu elements, %zu blocks, type %d", i, el.size(), ne[i], type(i)));
        mon::ok(ne[i] * nhx[i] == nx, "finelayer.row_blocks_fit");
        for (auto e : el) {
            if (!mon::ok(e < c.size() && !seen[e], "finelayer.rows_partition", fmt("row %zu element %zu", i, (size_t)e))) {
                return;
            }
            seen[e] = 1;
            area += polyarea(x, c[e]);
            double ex0 = 1e300, ex1 = -1e300;
            for (auto n : c[e]) {
                mon::ok(x[n][1] >= y0 - eps && x[n][1] <= y1 + eps, "finelayer.row_extent", fmt("row %zu element %zu", i, (size_t)e));
                ex0 = std::min(ex0, x[n][0]);
                ex1 = std::max(ex1, x[n][0]);
            }
            if (type(i) == -1) {
                mon::ok(std::abs(ex1 - ex0 - nhx[i] * h) <= eps * nx, "finelayer.row_width", fmt("row %zu", i));
            }
        }
        mon::close(area, Lx * nhy[i] * h, 1e-8 * Lx * nhy[i] * h, "finelayer.row_area", fmt("row %zu", i));
        if (type(i) != -1) {
            ++nref;
        }
        // mirror symmetric
        size_t j = nrow - 1 - i;
        mon::ok(nhx[i] == nhx[j] && nhy[i] == nhy[j] && type(i) == type(j) && ne[i] == ne[j], "finelayer.symmetric", fmt("row %zu", i));
        y0 = y1;
    }
    mon::close(y0, Ly, 1e-8 * Ly, "finelayer.rows_height");
    // middle layer: squares of size h, from left to right
    auto ml = m.elementsMiddleLayer();
    if (mon::ok(ml.size() == nx, "finelayer.middle_count", fmt("%zu", ml.size()))) {
        double ym = 0.5 * (Ly - h);
        for (size_t i = 0; i < nx; ++i) {
            for (size_t k = 0; k < 4; ++k) {
                auto& p = x[c[ml(i)][k]];
                double px = (i + (quadsign()[k][0] > 0)) * h, py = ym + (quadsign()[k][1] > 0) * h;
                mon::ok(std::abs(p[0] - px) <= eps * nx && std::abs(p[1] - py) <= eps * (m.nely() + 1), "finelayer.middle_square", fmt("%zu", i));
            }
        }
    }
    // element size never decreases away from the middle; it stays below the distance to the middle
    size_t dist = 1;
    for (size_t i = mid + 1; i < nrow; ++i) {
        mon::ok(nhx[i] >= nhx[i - 1], "finelayer.coarsens_outwards", fmt("row %zu", i));
        mon::ok(nhx[i] <= dist, "finelayer.size_below_distance", fmt("row %zu size %zu distance %zu", i, nhx[i], dist));
        if (type(i) != -1) {
            mon::ok(nhx[i] == 3 * nhx[i - 1], "finelayer.coarsening_factor");
        }
        else {
            mon::ok(nhx[i] == nhx[i - 1], "finelayer.no_hidden_coarsening");
        }
        dist += nhy[i];
    }
    // requested number of fine layers (if it fits)
    size_t nmin = (ny + 1) / 2;
    size_t want = std::min(nmin, std::max<size_t>(1, nfine % 2 == 0 ? nfine / 2 + 1 : (nfine + 1) / 2));
    for (size_t i = 0; i < want; ++i) {
        mon::ok(mid + i < nrow && nhx[mid + i] == 1 && nhy[mid + i] == 1 && type(mid + i) == -1, "finelayer.nfine", fmt("layer %zu of %zu", i, want));
    }
    mon::ok(m.nely() + 1 >= ny, "finelayer.height_reaches_target", fmt("%zu", m.nely()));
    mon::cover("rows", nrow);
    mon::cover("coarsening_rows", nref);
    mon::cover("elements", c.size());
    if (nref >= 2) {
        mon::cover("meshes_refined");
    }
    if (nref >= 4) {
        mon::cover("meshes_refined_twice");
    }
    if (nref > 0) {
        mon::nontrivial(mon::hash({nx, ny, nfine, mon::hashd(h)}));
    }
}
