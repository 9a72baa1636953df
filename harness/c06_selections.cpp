// C06: selections of elements on the refined quad mesh are geometrically exact.
#include "ref.h"
#include <GooseFEM/MeshQuad4.h>
using namespace ref;
namespace GF = GooseFEM;

void run_case(mon::Rng& r)
{
    bool th = mon::thorough();
    size_t nx = r.coin(0.7) ? 3 * r.range(1, th ? 27 : 9) : r.range(1, 20);
    size_t ny = r.coin(0.2) ? r.range(1, 5) : r.range(1, th ? 90 : 40);
    if (r.coin(0.05)) { // three levels of refinement
        nx = 27 * r.range(1, 2);
        ny = r.range(104, 140);
    }
    size_t nfine = r.coin(0.7) ? 1 : r.range(1, 9);
    double h = r.coin(0.6) ? 1.0 : r.logu(1e-2, 1e2);
    mon::context() = fmt("FineLayer(%zu, %zu, %.17g, %zu)", nx, ny, h, nfine);
    mon::sample(mon::context());
    mon::nontrivial(mon::hash({nx, ny, nfine}));
    GF::Mesh::Quad4::FineLayer m(nx, ny, h, nfine);
    {
        size_t levels = 0;
        for (size_t n = xt::amax(m.elemrow_nhx())(); n >= 3; n /= 3) ++levels;
        mon::cover(fmt("levels.%zu", levels));
    }
    auto x = mat(m.coor());
    auto c = umat(m.conn());
    size_t ne = c.size();
    nx = m.nelx();
    ny = m.nely();
    // bounding boxes of the elements and their centre, in units h
    std::vector<std::array<double, 6>> b(ne);
    for (size_t e = 0; e < ne; ++e) {
        b[e] = {1e99, -1e99, 1e99, -1e99, 0, 0};
        for (auto n : c[e]) {
            b[e][0] = std::min(b[e][0], x[n][0] / h);
            b[e][1] = std::max(b[e][1], x[n][0] / h);
            b[e][2] = std::min(b[e][2], x[n][1] / h);
            b[e][3] = std::max(b[e][3], x[n][1] / h);
            b[e][4] += x[n][0] / h / 4;
            b[e][5] += x[n][1] / h / 4;
        }
    }
    auto nhx = uvec(m.elemrow_nhx()), nhy = uvec(m.elemrow_nhy()), nel = uvec(m.elemrow_nelem());
    size_t nl = nhy.size();
    vu H(nl + 1, 0);
    for (size_t i = 0; i < nl; ++i) {
        H[i + 1] = H[i] + nhy[i];
    }
    const double eps = 1e-6;
    // --- layers: partition of the elements, each within its row
    {
        std::vector<int> owner(ne, -1);
        for (size_t l = 0; l < nl; ++l) {
            auto s = uvec(m.elementsLayer(l));
            for (auto e : s) {
                if (!mon::ok(e < ne && owner[e] == -1, "layer.partition", fmt("layer %zu element %zu", l, e))) {
                    return;
                }
                owner[e] = (int)l;
                mon::ok(b[e][2] > H[l] - eps && b[e][3] < H[l + 1] + eps, "layer.geometry", fmt("layer %zu element %zu", l, e));
            }
            mon::ok(s.size() == nel[l] || s.size() == 4 * nel[l], "layer.size");
        }
        mon::ok(std::count(owner.begin(), owner.end(), -1) == 0, "layer.complete");
        mon::cover("layers", nl);
    }
    auto mid = uvec(m.elementsMiddleLayer());
    {
        size_t l = (nl - 1) / 2;
        mon::ok(mid == uvec(m.elementsLayer(l)), "middle.is_layer");
        mon::ok(mid.size() == nx, "middle.is_fine");
        for (size_t i = 0; i < mid.size(); ++i) {
            mon::ok(std::abs(b[mid[i]][0] - i) < eps && std::abs(b[mid[i]][1] - i - 1) < eps, "middle.left_to_right");
        }
    }
    // --- rectangular regions, aligned with the layers and with the coarsest blocks they contain
    for (size_t k = 0; k < 10; ++k) {
        size_t l0 = r.range(0, nl - 1), l1 = r.range(l0, nl - 1);
        size_t hx = 1;
        for (size_t l = l0; l <= l1; ++l) {
            hx = std::max(hx, nhx[l]);
        }
        size_t x0 = r.range(0, nx / hx), x1 = r.range(x0, nx / hx);
        std::vector<size_t> rows = {H[l0], H[l1 + 1]}, cols = {x0 * hx, x1 * hx};
        double c0 = x0 * hx, c1 = x1 * hx, r0 = H[l0], r1 = H[l1 + 1];
        if (r.coin(0.1)) {
            rows.clear();
            r0 = 0;
            r1 = ny;
            hx = *std::max_element(nhx.begin(), nhx.end());
            c0 -= std::fmod(c0, hx);
            c1 -= std::fmod(c1, hx);
            cols = {(size_t)c0, (size_t)c1};
        }
        if (r.coin(0.15)) {
            cols.clear();
            c0 = 0;
            c1 = nx;
        }
        auto s = uvec(m.elementgrid_ravel(rows, cols));
        auto srt = s;
        std::sort(srt.begin(), srt.end());
        vu expect;
        for (size_t e = 0; e < ne; ++e) {
            if (b[e][4] > c0 && b[e][4] < c1 && b[e][5] > r0 && b[e][5] < r1) {
                expect.push_back(e);
            }
        }
        mon::cover(expect.empty() ? "region_empty" : "region_nonempty");
        mon::ok(srt == expect, "region.exact", fmt("rows [%g %g) cols [%g %g): %zu elements, expected %zu", r0, r1, c0, c1, srt.size(), expect.size()));
    }
    // unaligned regions: rows are rounded outwards to layers, columns to blocks of the coarsest layer; whatever the
    // direction of that rounding, it is the same in all layers: the elements tile a rectangle
    for (size_t k = 0; k < 6; ++k) {
        size_t r0 = r.range(0, ny - 1), r1 = r.range(r0, ny), c0 = r.range(0, nx), c1 = r.range(c0, nx);
        auto s = uvec(m.elementgrid_ravel({r0, r1}, {c0, c1}));
        std::set<size_t> u(s.begin(), s.end());
        std::string d = fmt("rows [%zu %zu) cols [%zu %zu)", r0, r1, c0, c1);
        if (!mon::ok(u.size() == s.size() && (u.empty() || *u.rbegin() < ne), "region.valid", d)) {
            continue;
        }
        mon::cover("region_unaligned");
        size_t hx = 1, lo = ny, hi = 0;
        for (size_t l = 0; l < nl; ++l) {
            if (H[l] < r1 && H[l + 1] > r0) {
                hx = std::max(hx, nhx[l]);
                lo = std::min(lo, H[l]);
                hi = std::max(hi, H[l + 1]);
            }
        }
        if (u.empty()) {
            mon::ok(r0 == r1 || c1 - c0 < hx, "region.not_empty", d);
            continue;
        }
        double B[4] = {1e99, -1e99, 1e99, -1e99}, A = 0;
        for (auto e : s) {
            B[0] = std::min(B[0], b[e][0]), B[1] = std::max(B[1], b[e][1]);
            B[2] = std::min(B[2], b[e][2]), B[3] = std::max(B[3], b[e][3]);
            for (size_t i = 0; i < 4; ++i) {
                auto &p = x[c[e][i]], &q = x[c[e][(i + 1) % 4]];
                A += 0.5 * (p[0] * q[1] - p[1] * q[0]) / h / h;
            }
        }
        mon::ok(std::abs(A - (B[1] - B[0]) * (B[3] - B[2])) < 1e-6 * (1 + A), "region.tiles_rectangle", d + fmt(" area %g box %g x %g", A, B[1] - B[0], B[3] - B[2]));
        mon::ok(std::abs(B[0] - c0) < hx - eps && std::abs(B[1] - c1) < hx - eps, "region.columns", d + fmt(" [%g %g] hx=%zu", B[0], B[1], hx));
        mon::ok(std::abs(B[2] - lo) < eps && std::abs(B[3] - hi) < eps, "region.rows", d + fmt(" [%g %g]", B[2], B[3]));
        mon::cover("region_unaligned_nonempty");
    }
    // periodic distance helper: does [a0, a1] overlap the periodic image of [w0, w1]
    auto overlap = [&](double a0, double a1, double w0, double w1) {
        if (w1 - w0 >= nx) {
            return true;
        }
        for (int k = -2; k <= 2; ++k) {
            if (std::min(a1, w1 + k * (double)nx) - std::max(a0, w0 + k * (double)nx) > eps) {
                return true;
            }
        }
        return false;
    };
    // --- box around / window left and right of an element in the middle layer
    for (size_t k = 0; k < 8; ++k) {
        size_t i = r.range(0, mid.size() - 1), e = mid[i];
        size_t size = r.coin(0.5) ? r.range(0, 3) : r.range(0, std::max(nx, ny));
        auto s = uvec(m.elementgrid_around_ravel(e, size));
        std::set<size_t> u(s.begin(), s.end());
        mon::ok(u.size() == s.size() && *u.rbegin() < ne, "around.valid", fmt("e=%zu size=%zu", e, size));
        double y0 = H[(nl - 1) / 2] - (double)size, y1 = H[(nl - 1) / 2] + 1.0 + size;
        double w0 = (double)i - size, w1 = (double)i + size + 1.0;
        // coarsest block in the rows that the box touches
        size_t hx = 1;
        double ry0 = 1e99, ry1 = -1e99;
        for (size_t l = 0; l < nl; ++l) {
            if (std::min((double)H[l + 1], y1) - std::max((double)H[l], y0) > eps) {
                hx = std::max(hx, nhx[l]);
                ry0 = std::min(ry0, (double)H[l]);
                ry1 = std::max(ry1, (double)H[l + 1]);
            }
        }
        bool uniform = hx == 1;
        double a0 = std::floor(w0 / hx) * hx, a1 = std::ceil(w1 / hx) * hx;
        for (size_t j = 0; j < ne; ++j) {
            bool in = overlap(b[j][0], b[j][1], w0, w1) && std::min(b[j][3], y1) - std::max(b[j][2], y0) > eps;
            bool may = overlap(b[j][0], b[j][1], a0, a1) && b[j][5] > ry0 && b[j][5] < ry1;
            if (in && !u.count(j)) {
                mon::ok(false, "around.covers_box", fmt("e=%zu (column %zu) size=%zu: element %zu is missing", e, i, size, j));
                break;
            }
            if (!may && u.count(j)) {
                mon::ok(false, "around.nothing_outside", fmt("e=%zu (column %zu) size=%zu: element %zu is outside", e, i, size, j));
                break;
            }
        }
        if (uniform && 2 * size + 1 <= nx && 2 * size + 1 <= ny) {
            mon::ok(s.size() == (2 * size + 1) * (2 * size + 1), "around.count", fmt("e=%zu size=%zu: %zu", e, size, s.size()));
            mon::cover("around_uniform");
        }
        else {
            mon::cover("around_other");
        }
        size_t left = r.coin() ? r.range(0, 3) : r.range(0, nx), right = r.coin() ? r.range(0, 3) : r.range(0, nx);
        auto q = uvec(m.elementgrid_leftright(e, left, right));
        std::set<size_t> v(q.begin(), q.end()), expect;
        for (size_t d = 0; d <= left + right; ++d) {
            expect.insert(mid[((i + 3 * nx) - left + d) % nx]);
        }
        mon::ok(v.size() == q.size() && v == expect, "leftright.exact", fmt("e=%zu (column %zu) left=%zu right=%zu: %zu elements, expected %zu", e, i, left, right, q.size(), expect.size()));
        if (left + right + 1 > nx) {
            mon::cover("leftright_saturated");
        }
        else if (i < left || i + right >= nx) {
            mon::cover("leftright_wraps");
        }
    }
    // --- roll: shift by whole blocks of the coarsest layer
    for (size_t k = 0; k < 3; ++k) {
        size_t n = r.range(0, 2 * nel[0]);
        auto s = uvec(m.roll(n));
        double w = (double)nx / nel[0];
        std::vector<char> seen(ne, 0);
        bool good = s.size() == ne;
        for (size_t e = 0; good && e < ne; ++e) {
            good &= s[e] < ne && !seen[s[e]];
            if (!good) {
                break;
            }
            seen[s[e]] = 1;
            double d = (b[e][4] - b[s[e]][4] - n * w) / nx;
            good &= std::abs(d - std::round(d)) < 1e-6 && std::abs(b[e][5] - b[s[e]][5]) < eps && std::abs((b[e][1] - b[e][0]) - (b[s[e]][1] - b[s[e]][0])) < eps;
        }
        mon::ok(good, "roll.shift", fmt("n=%zu", n));
        mon::cover("roll");
    }
}
