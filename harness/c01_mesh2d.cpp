// C01: regular 2-d meshes (Quad4, Tri3) tile their rectangle.
#include "ref.h"
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
using namespace ref;
namespace GF = GooseFEM;

template <class M>
static void sizes(const M& m, size_t nx, size_t ny, double h, size_t nne, size_t nelem, GF::Mesh::ElementType t, const std::string& k)
{
    auto x = m.coor();
    auto c = m.conn();
    mon::ok(m.ndim() == 2 && m.nne() == nne, k + ".ndim_nne");
    mon::ok(m.nelx() == nx && m.nely() == ny && m.h() == h, k + ".input_echo", fmt("%zu %zu %g", m.nelx(), m.nely(), m.h()));
    mon::ok(m.nelem() == nelem && c.shape(0) == nelem && c.shape(1) == nne, k + ".nelem", fmt("%zu conn %zu expected %zu", m.nelem(), c.shape(0), nelem));
    mon::ok(m.nnode() == (nx + 1) * (ny + 1) && x.shape(0) == m.nnode() && x.shape(1) == 2, k + ".nnode");
    mon::ok(m.elementType() == t, k + ".elementType");
    mon::ok(GF::Mesh::defaultElementType(x, c) == t, k + ".defaultElementType");
}

void run_case(mon::Rng& r)
{
    size_t big = mon::thorough() ? 60 : 14;
    size_t nx = r.coin(0.15) ? 1 : r.range(1, big), ny = r.coin(0.15) ? 1 : r.range(1, big);
    if (r.coin(0.05)) {
        nx = r.range(40, 120);
    }
    double h = r.coin(0.2) ? 1.0 : r.logu(1e-4, 1e4);
    mon::context() = fmt("nelx=%zu nely=%zu h=%.17g", nx, ny, h);
    mon::sample(mon::context());
    mon::nontrivial(mon::hash({nx, ny, mon::hashd(h)}));
    if (nx == 1 || ny == 1) {
        mon::cover("single_row_or_column");
    }
    {
        GF::Mesh::Quad4::Regular m(nx, ny, h);
        sizes(m, nx, ny, h, 4, nx * ny, GF::Mesh::ElementType::Quad4, "quad4");
        auto x = mat(m.coor());
        auto c = umat(m.conn());
        if (check_tiling2d(x, c, {nx * h, ny * h}, h, "quad4")) {
            mon::cover("quad4_elements", c.size());
            // every element is a square of size h on the position in the element grid, numbered
            // counter-clockwise from its lower-left corner
            auto g = m.elementgrid();
            mon::ok(g.dimension() == 2 && g.shape(0) == ny && g.shape(1) == nx, "quad4.elementgrid_shape");
            std::vector<char> seen(c.size(), 0);
            for (size_t iy = 0; iy < ny; ++iy) {
                for (size_t ix = 0; ix < nx; ++ix) {
                    size_t e = g(iy, ix);
                    if (!mon::ok(e < c.size() && !seen[e], "quad4.elementgrid_permutation", fmt("%zu", e))) {
                        return;
                    }
                    seen[e] = 1;
                    for (size_t k = 0; k < 4; ++k) {
                        double px = (ix + (quadsign()[k][0] > 0)) * h, py = (iy + (quadsign()[k][1] > 0)) * h;
                        double tol = 1e-10 * h * (nx + ny);
                        mon::ok(std::abs(x[c[e][k]][0] - px) <= tol && std::abs(x[c[e][k]][1] - py) <= tol, "quad4.elementgrid_position", fmt("element %zu (%zu, %zu) node %zu", e, iy, ix, k));
                    }
                }
            }
        }
        // dofs: sequential
        auto d = m.dofs();
        mon::ok(d.shape(0) == m.nnode() && d.shape(1) == 2, "quad4.dofs_shape");
        size_t i = 0;
        bool seq = true;
        for (auto& v : d) {
            seq &= v == i++;
        }
        mon::ok(seq, "quad4.dofs_sequential");
    }
    {
        GF::Mesh::Tri3::Regular m(nx, ny, h);
        sizes(m, nx, ny, h, 3, 2 * nx * ny, GF::Mesh::ElementType::Tri3, "tri3");
        auto x = mat(m.coor());
        auto c = umat(m.conn());
        if (check_tiling2d(x, c, {nx * h, ny * h}, h, "tri3")) {
            mon::cover("tri3_elements", c.size());
            for (auto& e : c) {
                mon::ok(std::abs(polyarea(x, e) - 0.5 * h * h) <= 1e-10 * h * h * (nx + ny), "tri3.half_square");
            }
        }
    }
}
