// Independent reference code used by the oracles: plain std::vector, no xtensor arithmetic, no
// GooseFEM code.
#ifndef REF_H
#define REF_H
#include "mon.h"
#include <array>
#include <GooseFEM/config.h>

namespace ref {
using mon::fmt;
typedef std::vector<double> vd;
typedef std::vector<size_t> vu;
typedef std::vector<vd> vvd;
typedef std::vector<vu> vvu;

template <class T>
inline vvd mat(const T& a)
{
    vvd r(a.shape(0), vd(a.shape(1)));
    for (size_t i = 0; i < a.shape(0); ++i) {
        for (size_t j = 0; j < a.shape(1); ++j) {
            r[i][j] = a(i, j);
        }
    }
    return r;
}
template <class T>
inline vvu umat(const T& a)
{
    vvu r(a.shape(0), vu(a.shape(1)));
    for (size_t i = 0; i < a.shape(0); ++i) {
        for (size_t j = 0; j < a.shape(1); ++j) {
            r[i][j] = a(i, j);
        }
    }
    return r;
}
template <class T>
inline vu uvec(const T& a)
{
    return vu(a.begin(), a.end());
}
template <class T>
inline vd dvec(const T& a)
{
    return vd(a.begin(), a.end());
}
inline double amax(const vd& v)
{
    double m = 0;
    for (auto i : v) {
        m = std::max(m, std::abs(i));
    }
    return m;
}
template <class T>
inline double maxabs(const T& a)
{
    double m = 0;
    for (auto& i : a) {
        m = std::max(m, std::abs(static_cast<double>(i)));
    }
    return m;
}

// --- dense linear algebra -----------------------------------------------------------------------
inline vd matvec(const vvd& A, const vd& x)
{
    vd b(A.size(), 0.0);
    for (size_t i = 0; i < A.size(); ++i) {
        for (size_t j = 0; j < x.size(); ++j) {
            b[i] += A[i][j] * x[j];
        }
    }
    return b;
}

// Gaussian elimination with partial pivoting; returns false if (nearly) singular
inline bool solve(vvd A, vd b, vd& x)
{
    size_t n = b.size();
    double scale = 0;
    for (auto& r : A) {
        scale = std::max(scale, amax(r));
    }
    for (size_t k = 0; k < n; ++k) {
        size_t p = k;
        for (size_t i = k + 1; i < n; ++i) {
            if (std::abs(A[i][k]) > std::abs(A[p][k])) {
                p = i;
            }
        }
        if (!(std::abs(A[p][k]) > 1e-9 * scale)) {
            return false;
        }
        std::swap(A[p], A[k]);
        std::swap(b[p], b[k]);
        for (size_t i = k + 1; i < n; ++i) {
            double f = A[i][k] / A[k][k];
            if (f == 0) {
                continue;
            }
            for (size_t j = k; j < n; ++j) {
                A[i][j] -= f * A[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0.0);
    for (size_t k = n; k-- > 0;) {
        double s = b[k];
        for (size_t j = k + 1; j < n; ++j) {
            s -= A[k][j] * x[j];
        }
        x[k] = s / A[k][k];
    }
    return true;
}

// --- 2-d geometry -------------------------------------------------------------------------------
inline double polyarea(const vvd& x, const vu& c)
{
    double a = 0;
    size_t n = c.size();
    for (size_t i = 0; i < n; ++i) {
        auto& p = x[c[i]];
        auto& q = x[c[(i + 1) % n]];
        a += p[0] * q[1] - q[0] * p[1];
    }
    return 0.5 * a;
}

typedef std::array<double, 2> P2;

// area of the intersection of a convex polygon with an axis-aligned box
inline double clip_area(std::vector<P2> p, double x0, double x1, double y0, double y1)
{
    auto cut = [&](int d, double v, bool keep_less) {
        std::vector<P2> o;
        for (size_t i = 0; i < p.size(); ++i) {
            P2 a = p[i], b = p[(i + 1) % p.size()];
            double da = keep_less ? v - a[d] : a[d] - v, db = keep_less ? v - b[d] : b[d] - v;
            if (da >= 0) {
                o.push_back(a);
            }
            if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
                double t = da / (da - db);
                o.push_back(P2{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
            }
        }
        p = o;
    };
    cut(0, x0, false);
    cut(0, x1, true);
    cut(1, y0, false);
    cut(1, y1, true);
    double a = 0;
    for (size_t i = 0; i < p.size(); ++i) {
        auto& s = p[i];
        auto& t = p[(i + 1) % p.size()];
        a += s[0] * t[1] - t[0] * s[1];
    }
    return 0.5 * a;
}

// Valid conforming tiling of [0, L[0]] x [0, L[1]] by positively oriented convex polygons.
inline bool check_tiling2d(const vvd& x, const vvu& conn, const vd& L, double h, const std::string& key)
{
    size_t nn = x.size();
    double eps = 1e-8 * h;
    std::vector<char> used(nn, 0);
    double area = 0;
    std::map<std::pair<size_t, size_t>, int> edges;
    for (auto& c : conn) {
        for (auto n : c) {
            if (!mon::ok(n < nn, key + ".conn_range", fmt("node %zu of %zu", n, nn))) {
                return false;
            }
            used[n] = 1;
        }
        for (size_t i = 0; i < c.size(); ++i) {
            auto& p = x[c[i]];
            auto& q = x[c[(i + 1) % c.size()]];
            auto& r = x[c[(i + 2) % c.size()]];
            double cr = (q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0]);
            if (!mon::ok(cr > 1e-6 * h * h, key + ".orientation", fmt("corner %zu cross %g h %g", i, cr, h))) {
                return false;
            }
            if (!mon::ok(++edges[{c[i], c[(i + 1) % c.size()]}] == 1, key + ".edge_once", fmt("edge %zu-%zu", c[i], c[(i + 1) % c.size()]))) {
                return false;
            }
        }
        area += polyarea(x, c);
    }
    for (size_t i = 0; i < nn; ++i) {
        if (!mon::ok(used[i], key + ".node_used", fmt("node %zu of %zu is in no element", i, nn))) {
            return false;
        }
        for (size_t d = 0; d < 2; ++d) {
            if (!mon::ok(x[i][d] >= -eps && x[i][d] <= L[d] + eps, key + ".in_box", fmt("node %zu coor %g L %g", i, x[i][d], L[d]))) {
                return false;
            }
        }
    }
    // duplicates
    vu ix(nn);
    for (size_t i = 0; i < nn; ++i) {
        ix[i] = i;
    }
    std::set<std::pair<long long, long long>> grid;
    for (size_t i = 0; i < nn; ++i) {
        std::pair<long long, long long> g = {llround(x[i][0] / h * 64.0), llround(x[i][1] / h * 64.0)};
        if (!mon::ok(grid.insert(g).second, key + ".node_unique", fmt("node %zu duplicates a position", i))) {
            return false;
        }
    }
    double bl[4] = {0, 0, 0, 0};
    for (auto& e : edges) {
        if (edges.count({e.first.second, e.first.first})) {
            continue;
        }
        auto& p = x[e.first.first];
        auto& q = x[e.first.second];
        double len = std::hypot(p[0] - q[0], p[1] - q[1]);
        int side = -1;
        if (std::abs(p[0]) < eps && std::abs(q[0]) < eps) {
            side = 0;
        }
        else if (std::abs(p[0] - L[0]) < eps && std::abs(q[0] - L[0]) < eps) {
            side = 1;
        }
        else if (std::abs(p[1]) < eps && std::abs(q[1]) < eps) {
            side = 2;
        }
        else if (std::abs(p[1] - L[1]) < eps && std::abs(q[1] - L[1]) < eps) {
            side = 3;
        }
        if (!mon::ok(side >= 0, key + ".conforming", fmt("edge %zu-%zu (%g %g)-(%g %g) is unmatched inside the domain", e.first.first, e.first.second, p[0], p[1], q[0], q[1]))) {
            return false;
        }
        bl[side] += len;
    }
    bool r = true;
    for (int s = 0; s < 4; ++s) {
        double l = s < 2 ? L[1] : L[0];
        r &= mon::close(bl[s], l, 1e-8 * l, key + ".boundary_covered");
    }
    r &= mon::close(area, L[0] * L[1], 1e-8 * L[0] * L[1], key + ".area");
    return r;
}

// --- hexahedra ----------------------------------------------------------------------------------
inline const int (*hexsign())[3]
{
    static const int s[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
    return s;
}
inline const int (*quadsign())[2]
{
    static const int s[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
    return s;
}

// shape functions and local gradients of the (bi/tri)linear element
inline void shape(size_t ndim, const vd& xi, vd& N, vvd& dN)
{
    size_t nne = ndim == 2 ? 4 : 8;
    N.assign(nne, 1.0);
    dN.assign(nne, vd(ndim, 1.0));
    for (size_t m = 0; m < nne; ++m) {
        for (size_t d = 0; d < ndim; ++d) {
            double s = ndim == 2 ? quadsign()[m][d] : hexsign()[m][d];
            double f = 0.5 * (1.0 + s * xi[d]);
            N[m] *= f;
            for (size_t k = 0; k < ndim; ++k) {
                dN[m][k] *= (k == d) ? 0.5 * s : f;
            }
        }
    }
}

inline double det(const vvd& J)
{
    if (J.size() == 2) {
        return J[0][0] * J[1][1] - J[0][1] * J[1][0];
    }
    return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) +
           J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
}

// Jacobian J[i][j] = d x_j / d xi_i
inline vvd jac(size_t ndim, const vvd& xe, const vvd& dN)
{
    vvd J(ndim, vd(ndim, 0.0));
    for (size_t m = 0; m < xe.size(); ++m) {
        for (size_t i = 0; i < ndim; ++i) {
            for (size_t j = 0; j < ndim; ++j) {
                J[i][j] += dN[m][i] * xe[m][j];
            }
        }
    }
    return J;
}

// global gradients at xi: dNdx[m][j], returns det(J); solves J dNdx = dN by elimination
inline double gradients(size_t ndim, const vvd& xe, const vd& xi, vd& N, vvd& dNdx)
{
    vvd dN;
    shape(ndim, xi, N, dN);
    vvd J = jac(ndim, xe, dN);
    dNdx.assign(xe.size(), vd(ndim, 0.0));
    for (size_t m = 0; m < xe.size(); ++m) {
        vd s;
        solve(J, dN[m], s);
        if (s.size() == ndim) {
            dNdx[m] = s;
        }
    }
    return det(J);
}

inline void gauss(size_t ndim, vvd& xi, vd& w)
{
    double a = 1.0 / std::sqrt(3.0);
    xi.clear();
    w.clear();
    size_t n = ndim == 2 ? 4 : 8;
    for (size_t m = 0; m < n; ++m) {
        vd p(ndim);
        for (size_t d = 0; d < ndim; ++d) {
            p[d] = a * (ndim == 2 ? quadsign()[m][d] : hexsign()[m][d]);
        }
        xi.push_back(p);
        w.push_back(1.0);
    }
}

// exact volume (area) of the (bi/tri)linear element: 2-point Gauss is exact for det(J)
inline double volume(size_t ndim, const vvd& xe)
{
    vvd xi;
    vd w;
    gauss(ndim, xi, w);
    double v = 0;
    for (size_t q = 0; q < xi.size(); ++q) {
        vd N;
        vvd dN;
        shape(ndim, xi[q], N, dN);
        v += w[q] * det(jac(ndim, xe, dN));
    }
    return v;
}

inline vvd elem_coor(const vvd& x, const vu& c)
{
    vvd r;
    for (auto n : c) {
        r.push_back(x[n]);
    }
    return r;
}

// faces of the hexahedron, outward oriented for a positively oriented element
inline const int (*hexfaces())[4]
{
    static const int f[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {3, 7, 6, 2}, {0, 4, 7, 3}, {1, 2, 6, 5}};
    return f;
}

inline bool check_tiling3d(const vvd& x, const vvu& conn, const vd& L, double h, const std::string& key)
{
    size_t nn = x.size();
    double eps = 1e-8 * h;
    std::vector<char> used(nn, 0);
    std::map<vu, std::pair<int, vu>> faces; // sorted nodes -> (count, first oriented cycle)
    double vol = 0;
    auto canon = [](vu f) {
        auto it = std::min_element(f.begin(), f.end());
        std::rotate(f.begin(), it, f.end());
        return f;
    };
    for (auto& c : conn) {
        for (auto n : c) {
            if (!mon::ok(n < nn, key + ".conn_range", fmt("node %zu of %zu", n, nn))) {
                return false;
            }
            used[n] = 1;
        }
        vvd xe = elem_coor(x, c);
        for (size_t m = 0; m < 8; ++m) {
            vd xi(3), N;
            for (size_t d = 0; d < 3; ++d) {
                xi[d] = hexsign()[m][d];
            }
            vvd dN;
            shape(3, xi, N, dN);
            double J = det(jac(3, xe, dN));
            if (!mon::ok(J > 1e-6 * h * h * h, key + ".orientation", fmt("corner %zu det %g h %g", m, J, h))) {
                return false;
            }
        }
        vol += volume(3, xe);
        for (int k = 0; k < 6; ++k) {
            vu f(4);
            for (int j = 0; j < 4; ++j) {
                f[j] = c[hexfaces()[k][j]];
            }
            vu s = f;
            std::sort(s.begin(), s.end());
            auto& rec = faces[s];
            ++rec.first;
            if (rec.first == 1) {
                rec.second = canon(f);
            }
            else {
                vu g(f.rbegin(), f.rend());
                if (!mon::ok(rec.first == 2 && canon(g) == rec.second, key + ".face_shared", fmt("face of nodes %zu %zu %zu %zu: count %d", f[0], f[1], f[2], f[3], rec.first))) {
                    return false;
                }
            }
        }
    }
    std::set<std::array<long long, 3>> grid;
    for (size_t i = 0; i < nn; ++i) {
        if (!mon::ok(used[i], key + ".node_used", fmt("node %zu of %zu is in no element", i, nn))) {
            return false;
        }
        std::array<long long, 3> g;
        for (size_t d = 0; d < 3; ++d) {
            g[d] = llround(x[i][d] / h * 64.0);
            if (!mon::ok(x[i][d] >= -eps && x[i][d] <= L[d] + eps, key + ".in_box", fmt("node %zu", i))) {
                return false;
            }
        }
        if (!mon::ok(grid.insert(g).second, key + ".node_unique", fmt("node %zu duplicates a position", i))) {
            return false;
        }
    }
    double ba[6] = {0, 0, 0, 0, 0, 0};
    for (auto& f : faces) {
        if (f.second.first == 2) {
            continue;
        }
        auto& c = f.second.second;
        int side = -1;
        for (int d = 0; d < 3 && side < 0; ++d) {
            bool lo = true, hi = true;
            for (auto n : c) {
                lo &= std::abs(x[n][d]) < eps;
                hi &= std::abs(x[n][d] - L[d]) < eps;
            }
            if (lo) {
                side = 2 * d;
            }
            if (hi) {
                side = 2 * d + 1;
            }
        }
        if (!mon::ok(side >= 0, key + ".conforming", fmt("face %zu %zu %zu %zu is unmatched inside the domain", c[0], c[1], c[2], c[3]))) {
            return false;
        }
        int d0 = (side / 2 + 1) % 3, d1 = (side / 2 + 2) % 3;
        double a = 0;
        for (int i = 0; i < 4; ++i) {
            a += x[c[i]][d0] * x[c[(i + 1) % 4]][d1] - x[c[(i + 1) % 4]][d0] * x[c[i]][d1];
        }
        ba[side] += std::abs(0.5 * a);
    }
    bool r = true;
    for (int s = 0; s < 6; ++s) {
        double a = L[(s / 2 + 1) % 3] * L[(s / 2 + 2) % 3];
        r &= mon::close(ba[s], a, 1e-8 * a, key + ".boundary_covered");
    }
    double V = L[0] * L[1] * L[2];
    r &= mon::close(vol, V, 1e-8 * V, key + ".volume");
    return r;
}

} // namespace ref
#endif
