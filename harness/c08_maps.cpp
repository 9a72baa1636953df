// C08: mesh-to-mesh maps (refinement of a regular mesh; refined layers to a regular mesh).
#include "ref.h"
#include <GooseFEM/MeshQuad4.h>
using namespace ref;
namespace GF = GooseFEM;

static void refine(mon::Rng& r)
{
    size_t cx = r.range(1, 7), cy = r.range(1, 7), nx = r.range(1, 5), ny = r.coin(0.4) ? nx : r.range(1, 5);
    double h = r.coin(0.5) ? 1.0 : r.logu(1e-2, 1e2);
    mon::context() = fmt("RefineRegular(Regular(%zu, %zu, %.17g), %zu, %zu)", cx, cy, h, nx, ny);
    mon::nontrivial(mon::hash({1, cx, cy, nx, ny}));
    GF::Mesh::Quad4::Regular coarse(cx, cy, h);
    GF::Mesh::Quad4::Map::RefineRegular m(coarse, nx, ny);
    auto fine = m.fineMesh();
    auto back = m.coarseMesh();
    mon::ok(m.nx() == nx && m.ny() == ny, "refine.echo");
    mon::ok(back.nelx() == cx && back.nely() == cy && back.h() == h, "refine.coarse_mesh");
    mon::ok(fine.nelx() == cx * nx && fine.nely() == cy * ny && fine.nelem() == cx * cy * nx * ny, "refine.fine_mesh");
    auto M = umat(m.map());
    mon::ok(umat(m.getMap()) == M && umat(m.getFineMesh().conn()) == umat(fine.conn()) && m.getFineMesh().coor() == fine.coor() && umat(m.getCoarseMesh().conn()) == umat(back.conn()) && m.getCoarseMesh().coor() == back.coor(), "refine.old_names");
    if (!mon::ok(M.size() == cx * cy && M[0].size() == nx * ny, "refine.map_shape")) {
        return;
    }
    auto xc = mat(coarse.coor()), xf = mat(fine.coor());
    auto cc = umat(coarse.conn()), cf = umat(fine.conn());
    size_t nf = cf.size();
    // geometry of both meshes on the unit square
    auto bound = [](const vvd& x) {
        double a = 0, b = 0;
        for (auto& p : x) {
            a = std::max(a, p[0]);
            b = std::max(b, p[1]);
        }
        return std::make_pair(a, b);
    };
    auto bc = bound(xc), bf = bound(xf);
    mon::ok(std::abs(bf.first - bc.first) < 1e-8 * bc.first && std::abs(bf.second - bc.second) < 1e-8 * bc.second, nx * ny == 1 ? "refine.domain_size_identity" : "refine.domain_size", fmt("fine mesh spans %g x %g, coarse %g x %g", bf.first, bf.second, bc.first, bc.second));
    std::vector<int> parent(nf, -1);
    for (size_t e = 0; e < M.size(); ++e) {
        double x0 = xc[cc[e][0]][0] / bc.first, x1 = xc[cc[e][2]][0] / bc.first;
        double y0 = xc[cc[e][0]][1] / bc.second, y1 = xc[cc[e][2]][1] / bc.second;
        for (auto f : M[e]) {
            if (!mon::ok(f < nf && parent[f] == -1, "refine.partition", fmt("fine element %zu", f))) {
                return;
            }
            parent[f] = (int)e;
            for (auto n : cf[f]) {
                double x = xf[n][0] / bf.first, y = xf[n][1] / bf.second;
                mon::ok(x > x0 - 1e-9 && x < x1 + 1e-9 && y > y0 - 1e-9 && y < y1 + 1e-9, "refine.inside_parent", fmt("fine element %zu coarse %zu", f, e));
            }
        }
    }
    mon::cover("refine");
    // data transfer, for fields of rank 1, 2, 3
    size_t d1 = r.range(1, 4), d2 = r.range(1, 3);
    GF::array_type::tensor<double, 3> a = xt::empty<double>({M.size(), d1, d2});
    GF::array_type::tensor<double, 3> f = xt::empty<double>({nf, d1, d2}), w = xt::empty<double>({nf, d1, d2});
    for (auto& i : a) {
        i = r.uni(-1, 1);
    }
    for (auto& i : f) {
        i = r.uni(-1, 1);
    }
    for (auto& i : w) {
        i = r.uni(0.1, 2);
    }
    auto toF = m.mapToFine(a);
    auto mean = m.meanToCoarse(f);
    auto avg = m.averageToCoarse(f, w);
    auto rt = m.meanToCoarse(toF);
    auto rtw = m.averageToCoarse(toF, w);
    mon::ok(toF.shape(0) == nf && mean.shape(0) == M.size() && avg.shape(0) == M.size(), "refine.data_shape");
    double tf = 0, tm = 0;
    for (size_t i = 0; i < d1; ++i) {
        for (size_t j = 0; j < d2; ++j) {
            for (size_t e = 0; e < nf; ++e) {
                mon::ok(toF(e, i, j) == a(parent[e], i, j), "refine.map_to_fine");
                tf += f(e, i, j);
            }
            for (size_t e = 0; e < M.size(); ++e) {
                double s = 0, sw = 0, swf = 0;
                for (auto k : M[e]) {
                    s += f(k, i, j);
                    sw += w(k, i, j);
                    swf += w(k, i, j) * f(k, i, j);
                }
                mon::close(mean(e, i, j), s / (nx * ny), 1e-12, "refine.mean");
                mon::close(avg(e, i, j), swf / sw, 1e-11, "refine.average");
                mon::close(rt(e, i, j), a(e, i, j), 1e-12, "refine.round_trip");
                mon::close(rtw(e, i, j), a(e, i, j), 1e-11, "refine.round_trip_weighted");
                tm += mean(e, i, j) * nx * ny;
            }
        }
    }
    mon::close(tm, tf, 1e-10 * nf, "refine.conservation");
    // rank 1, and integer
    GF::array_type::tensor<double, 1> a1 = xt::view(a, xt::all(), 0, 0);
    auto t1 = m.mapToFine(a1);
    auto m1 = m.meanToCoarse(t1);
    mon::close_seq(m1, a1, 1e-12, "refine.rank1");
    GF::array_type::tensor<size_t, 1> id = xt::arange<size_t>(M.size());
    auto tid = m.mapToFine(id);
    for (size_t e = 0; e < nf; ++e) {
        mon::ok(tid(e) == (size_t)parent[e], "refine.rank1_int");
    }
    // equal to averaging with uniform weights
    GF::array_type::tensor<double, 1> one = xt::ones<double>({nf});
    GF::array_type::tensor<double, 1> f1 = xt::view(f, xt::all(), 0, 0);
    auto u = m.averageToCoarse(f1, one);
    auto v = m.meanToCoarse(f1);
    mon::close_seq(u, v, 1e-12, "refine.uniform_weights");
}

static void fine2regular(mon::Rng& r)
{
    bool th = mon::thorough();
    size_t nx = r.coin(0.75) ? 3 * r.range(1, th ? 18 : 9) : r.range(1, 12);
    size_t ny = r.range(1, th ? 70 : 40), nfine = r.coin(0.7) ? 1 : r.range(1, 7);
    if (r.coin(0.05)) { // three levels of refinement
        nx = 27 * r.range(1, 2);
        ny = r.range(104, 140);
    }
    double h = r.coin(0.5) ? 1.0 : r.logu(1e-2, 1e2);
    mon::context() = fmt("FineLayer2Regular(FineLayer(%zu, %zu, %.17g, %zu))", nx, ny, h, nfine);
    mon::nontrivial(mon::hash({2, nx, ny, nfine}));
    GF::Mesh::Quad4::FineLayer m(nx, ny, h, nfine);
    {
        size_t levels = 0;
        for (size_t n = xt::amax(m.elemrow_nhx())(); n >= 3; n /= 3) ++levels;
        mon::cover(fmt("levels.%zu", levels));
    }
    GF::Mesh::Quad4::Map::FineLayer2Regular map(m);
    auto reg = map.regularMesh();
    mon::ok(reg.nelx() == m.nelx() && reg.nely() == m.nely(), "layer2regular.size");
    mon::close(reg.h(), h, 1e-12 * h, "layer2regular.h");
    auto xl = mat(map.fineLayerMesh().coor()), xr = mat(reg.coor());
    auto cl = umat(map.fineLayerMesh().conn()), cr = umat(reg.conn());
    mon::ok(cl == umat(m.conn()), "layer2regular.input");
    auto E = map.map();
    mon::ok(map.getMap() == E && map.getMapFraction() == map.mapFraction() && map.getRegularMesh().coor() == reg.coor() && map.getFineLayerMesh().coor() == map.fineLayerMesh().coor(), "regular.old_names");
    auto F = map.mapFraction();
    if (!mon::ok(E.size() == cl.size() && F.size() == cl.size(), "layer2regular.map_size")) {
        return;
    }
    vd total(cr.size(), 0.0);
    for (size_t e = 0; e < E.size(); ++e) {
        if (!mon::ok(E[e].size() == F[e].size(), "layer2regular.map_fraction_size")) {
            return;
        }
        std::vector<P2> p;
        for (auto n : cl[e]) {
            p.push_back({xl[n][0], xl[n][1]});
        }
        double area = 0;
        std::set<size_t> uniq;
        for (size_t i = 0; i < E[e].size(); ++i) {
            size_t q = E[e][i];
            if (!mon::ok(q < cr.size() && uniq.insert(q).second, "layer2regular.element_valid")) {
                return;
            }
            double o = clip_area(p, xr[cr[q][0]][0], xr[cr[q][2]][0], xr[cr[q][0]][1], xr[cr[q][2]][1]);
            mon::close(F[e][i], o / (h * h), 1e-8, "layer2regular.fraction_is_overlap", fmt("element %zu regular %zu", e, q));
            area += o;
            total[q] += F[e][i];
        }
        mon::close(area, polyarea(xl, cl[e]), 1e-7 * h * h, "layer2regular.covers_element", fmt("element %zu", e));
        mon::cover(F[e].size() == 1 ? "element_1to1" : "element_1toN");
    }
    mon::close_seq(total, vd(cr.size(), 1.0), 1e-9, "layer2regular.regular_is_covered");
    // transfer: area weighted; conserves the integral, preserves constants
    size_t d = r.range(1, 3);
    GF::array_type::tensor<double, 2> a = xt::empty<double>({cl.size(), d});
    for (auto& i : a) {
        i = r.uni(-1, 1);
    }
    auto b = map.mapToRegular(a);
    mon::ok(b.shape(0) == cr.size() && b.shape(1) == d, "layer2regular.data_shape");
    for (size_t j = 0; j < d; ++j) {
        double ia = 0, ib = 0;
        for (size_t e = 0; e < cl.size(); ++e) {
            ia += a(e, j) * polyarea(xl, cl[e]);
        }
        for (size_t e = 0; e < cr.size(); ++e) {
            ib += b(e, j) * h * h;
        }
        mon::close(ib, ia, 1e-10 * h * h * cr.size(), "layer2regular.conservation");
    }
    vd expect(cr.size() * d, 0.0);
    for (size_t e = 0; e < E.size(); ++e) {
        for (size_t i = 0; i < E[e].size(); ++i) {
            for (size_t j = 0; j < d; ++j) {
                expect[E[e][i] * d + j] += F[e][i] * a(e, j);
            }
        }
    }
    mon::close_seq(b, expect, 1e-11, "layer2regular.data");
    GF::array_type::tensor<double, 1> one = 3.5 * xt::ones<double>({cl.size()});
    auto c = map.mapToRegular(one);
    mon::close_seq(c, vd(cr.size(), 3.5), 1e-11, "layer2regular.constant");
    mon::cover("layer2regular");
}

void run_case(mon::Rng& r)
{
    if (r.coin(0.5)) {
        refine(r);
    }
    else {
        fine2regular(r);
    }
    mon::sample(mon::context());
}
