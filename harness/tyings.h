// Random periodic tyings with control degrees-of-freedom, with plain copies for the oracles.
#ifndef TYINGS_H
#define TYINGS_H
#include "fe_mesh.h"
#include <GooseFEM/TyingsPeriodic.h>
namespace fe {
struct Tied {
    Prob p; // before Control is added
    D2 coor; // with the virtual control nodes
    U2 dofs; // idem
    U2 control; // control DOFs [ndim, ndim]
    U2 ties; // (independent, dependent)
    vu iip;
    GooseFEM::Tyings::Control ctl;
    GooseFEM::Tyings::Periodic per;
    vvd C; // dense [nnd, nni], by hand
    size_t nd = 0, nnode = 0, ndof = 0, nu = 0, np = 0, nni = 0, nnd = 0;
    std::vector<long> relabel; // original DOF -> new DOF
    std::string what;
};
inline Tied random_tied(mon::Rng& r, bool all_control_prescribed = false)
{
    Tied t;
    bool hand = !all_control_prescribed && r.coin(0.4);
    if (hand) {
        // arbitrary points, arbitrary ties: dependents are distinct, and are never independent
        do {
            t.p = random_topology(r, 6);
        } while (t.p.nnode < 2);
        size_t n = t.p.nnode, nd = t.p.ndim;
        t.p.coor = xt::empty<double>({n, nd});
        fill(r, t.p.coor, -2, 2);
        t.p.dofs = xt::arange<size_t>(n * nd).reshape({n, nd});
        if (r.coin()) {
            auto q = r.perm(n * nd);
            for (auto& d : t.p.dofs) d = q[d];
        }
        t.p.finish();
        auto q = r.perm(n);
        size_t nt = r.range(1, n - 1);
        t.ties = xt::empty<size_t>({nt, size_t(2)});
        for (size_t i = 0; i < nt; ++i) {
            t.ties(i, 1) = q[i];
            t.ties(i, 0) = q[r.range(nt, n - 1)];
        }
        t.what = "tied points";
    }
    else {
        double h = r.logu(0.3, 3);
        if (r.coin(0.6)) {
            size_t nx = r.range(1, 4), ny = r.range(1, 4);
            GooseFEM::Mesh::Quad4::Regular m(nx, ny, h);
            take(r, t.p, m, 0);
            t.ties = m.nodesPeriodic();
            t.what = fmt("quad %zux%zu", nx, ny);
        }
        else {
            size_t nx = r.range(1, 2), ny = r.range(1, 3), nz = r.range(1, 2);
            GooseFEM::Mesh::Hex8::Regular m(nx, ny, nz, h);
            take(r, t.p, m, 0);
            t.ties = m.nodesPeriodic();
            t.what = fmt("hex %zux%zux%zu", nx, ny, nz);
        }
        t.p.finish();
        if (r.coin()) {
            auto q = r.perm(t.ties.shape(0));
            U2 c = t.ties;
            for (size_t i = 0; i < q.size(); ++i)
                for (size_t j = 0; j < 2; ++j) t.ties(i, j) = c(q[i], j);
        }
        // move the interior and all pairs of periodic nodes together
        if (r.coin()) {
            D2 dx = xt::zeros<double>(t.p.coor.shape());
            for (auto& x : dx) x = 0.15 * h * r.uni(-1, 1);
            for (size_t i = 0; i < t.ties.shape(0); ++i)
                for (size_t j = 0; j < t.p.ndim; ++j) dx(t.ties(i, 1), j) = dx(t.ties(i, 0), j);
            t.p.coor += dx;
        }
    }
    t.ctl = GooseFEM::Tyings::Control(t.p.coor, t.p.dofs);
    t.coor = t.ctl.coor();
    t.dofs = t.ctl.dofs();
    t.control = t.ctl.controlDofs();
    t.nd = t.p.ndim;
    size_t nd = t.nd;
    t.nnode = t.coor.shape(0);
    t.ndof = t.p.ndof + nd * nd;
    t.nnd = t.ties.shape(0) * nd;
    t.nni = t.ndof - t.nnd;
    std::set<size_t> dep;
    for (size_t i = 0; i < t.ties.shape(0); ++i)
        for (size_t j = 0; j < nd; ++j) dep.insert(t.dofs(t.ties(i, 1), j));
    // prescribed: subset of the independent ones
    vu ind;
    for (size_t d = 0; d < t.ndof; ++d)
        if (!dep.count(d)) ind.push_back(d);
    bool ctlp = all_control_prescribed || r.coin(0.7);
    std::set<size_t> P;
    if (ctlp)
        for (auto d : t.control) P.insert(d);
    if (all_control_prescribed) {
        // remove the rigid translation
        size_t o = t.ties(0, 0);
        for (size_t j = 0; j < nd; ++j) P.insert(t.dofs(o, j));
    }
    if (r.coin(0.6)) {
        size_t k = r.range(0, ind.size() / 2);
        for (auto i : r.subset(ind.size(), k)) P.insert(ind[i]);
    }
    if (P.size() == ind.size() && r.coin(0.8)) P.erase(P.begin());
    t.iip = vu(P.begin(), P.end());
    if (r.coin()) r.shuffle(t.iip);
    t.np = t.iip.size();
    t.nu = t.nni - t.np;
    // new numbers: unknown (sorted), prescribed (as given), dependent (order of the ties)
    t.relabel.assign(t.ndof, -1);
    size_t k = 0;
    for (auto d : ind)
        if (!P.count(d)) t.relabel[d] = (long)k++;
    for (auto d : t.iip) t.relabel[d] = (long)k++;
    for (size_t i = 0; i < t.ties.shape(0); ++i)
        for (size_t j = 0; j < nd; ++j) t.relabel[t.dofs(t.ties(i, 1), j)] = (long)k++;
    // u_dep = u_ind + F (x_dep - x_ind)
    t.C.assign(t.nnd, vd(t.nni, 0.0));
    for (size_t i = 0; i < t.ties.shape(0); ++i) {
        size_t a = t.ties(i, 0), b = t.ties(i, 1);
        for (size_t j = 0; j < nd; ++j) {
            auto& row = t.C[i * nd + j];
            row[t.relabel[t.dofs(a, j)]] += 1.0;
            for (size_t l = 0; l < nd; ++l) row[t.relabel[t.control(j, l)]] += t.coor(b, l) - t.coor(a, l);
        }
    }
    if (t.np == 0 && r.coin())
        t.per = GooseFEM::Tyings::Periodic(t.coor, t.dofs, t.control, t.ties);
    else
        t.per = GooseFEM::Tyings::Periodic(t.coor, t.dofs, t.control, t.ties, to_u1(t.iip));
    t.what += fmt(" ndof=%zu nu=%zu np=%zu nd=%zu", t.ndof, t.nu, t.np, t.nnd);
    return t;
}
} // namespace fe
#endif
