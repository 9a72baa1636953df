// Discretisations from the library's own mesh generators, optionally distorted and renumbered.
#ifndef FE_MESH_H
#define FE_MESH_H
#include "fe.h"
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
namespace fe {
template <class M>
inline void take(mon::Rng& r, Prob& p, const M& m, int periodic)
{
    p.conn = m.conn();
    p.coor = m.coor();
    p.dofs = (periodic == 1) ? U2(m.dofsPeriodic()) : U2(m.dofs());
}
// kind: 0 quad, 1 hex, 2 tri; -1 any
inline Prob random_mesh(mon::Rng& r, int kind = -1, bool allow_periodic = true, size_t nmax = 4)
{
    Prob p;
    if (kind < 0) kind = (int)r.range(0, 2);
    int per = allow_periodic && r.coin(0.35);
    bool renum = r.coin(0.4);
    double h = r.logu(0.2, 4.0);
    if (kind == 0) {
        if (r.coin(0.3)) {
            size_t nx = 3 * r.range(1, 2), ny = r.pick(std::vector<size_t>{1, 3, 5, 7, 9, 11});
            GooseFEM::Mesh::Quad4::FineLayer m(nx, ny, h);
            take(r, p, m, per);
            p.what = fmt("Quad4::FineLayer(%zu,%zu)", nx, ny);
        }
        else {
            size_t nx = r.range(1, nmax), ny = r.range(1, nmax);
            GooseFEM::Mesh::Quad4::Regular m(nx, ny, h);
            take(r, p, m, per);
            p.what = fmt("Quad4::Regular(%zu,%zu)", nx, ny);
        }
    }
    else if (kind == 1) {
        size_t nx = r.range(1, std::min<size_t>(nmax, 3)), ny = r.range(1, std::min<size_t>(nmax, 3)), nz = r.range(1, 2);
        GooseFEM::Mesh::Hex8::Regular m(nx, ny, nz, h);
        take(r, p, m, per);
        p.what = fmt("Hex8::Regular(%zu,%zu,%zu)", nx, ny, nz);
    }
    else {
        size_t nx = r.range(1, nmax), ny = r.range(1, nmax);
        GooseFEM::Mesh::Tri3::Regular m(nx, ny, h);
        take(r, p, m, per);
        p.what = fmt("Tri3::Regular(%zu,%zu)", nx, ny);
    }
    if (per) p.what += " periodic";
    if (renum) {
        // renumber the nodes: p.coor, p.dofs, p.conn
        size_t n = p.coor.shape(0), nd = p.coor.shape(1);
        auto q = r.perm(n);
        D2 x = p.coor;
        U2 d = p.dofs;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < nd; ++j) {
                x(q[i], j) = p.coor(i, j);
                d(q[i], j) = p.dofs(i, j);
            }
        for (auto& c : p.conn) c = q[c];
        p.coor = x;
        p.dofs = d;
        // and the elements
        auto qe = r.perm(p.conn.shape(0));
        U2 c = p.conn;
        for (size_t e = 0; e < c.shape(0); ++e)
            for (size_t m = 0; m < c.shape(1); ++m) c(qe[e], m) = p.conn(e, m);
        p.conn = c;
        p.what += " renumbered";
    }
    p.finish();
    return p;
}
// move all nodes randomly by at most `frac` of the smallest element edge
inline void distort(mon::Rng& r, Prob& p, double frac)
{
    double h = 1e300;
    for (auto& e : p.c)
        for (size_t a = 0; a < p.nne; ++a)
            for (size_t b = a + 1; b < p.nne; ++b) {
                double s = 0;
                for (size_t i = 0; i < p.ndim; ++i) s += std::pow(p.coor(e[a], i) - p.coor(e[b], i), 2.0);
                h = std::min(h, std::sqrt(s));
            }
    for (auto& x : p.coor) x += frac * h * r.uni(-1, 1);
}
inline Prob random_problem(mon::Rng& r)
{
    return r.coin(0.45) ? random_topology(r) : random_mesh(r);
}
} // namespace fe
#endif
