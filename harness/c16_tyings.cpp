// C16: periodic tyings express every dependent DOF in the independent ones, and condense loads.
#include "mon.h"
#include "tyings.h"
#include <GooseFEM/VectorPartitionedTyings.h>
using namespace fe;

static vvd dense(const Eigen::SparseMatrix<double>& A)
{
    vvd r(A.rows(), vd(A.cols(), 0.0));
    for (int k = 0; k < A.outerSize(); ++k)
        for (Eigen::SparseMatrix<double>::InnerIterator it(A, k); it; ++it) r[it.row()][it.col()] += it.value();
    return r;
}
static bool same(const vvd& A, const vvd& B, size_t c0, size_t c1, double tol)
{
    for (size_t i = 0; i < B.size(); ++i)
        for (size_t j = c0; j < c1; ++j)
            if (!(std::abs(A[i][j - c0] - B[i][j]) <= tol)) return false;
    return true;
}

void run_case(mon::Rng& r)
{
    Tied t = random_tied(r);
    mon::context() = t.what;
    size_t nd = t.nd, n0 = t.p.nnode;
    // Control: nodes are appended, existing ones are kept, control DOFs are new
    bool good = t.nnode == n0 + nd && t.dofs.shape(0) == t.nnode;
    for (size_t m = 0; good && m < n0; ++m)
        for (size_t i = 0; i < nd; ++i) good = good && t.coor(m, i) == t.p.coor(m, i) && t.dofs(m, i) == t.p.dofs(m, i);
    mon::ok(good, "control.kept");
    bool num = t.ctl.controlNodes().size() == nd;
    for (size_t i = 0; num && i < nd; ++i) {
        num = num && t.ctl.controlNodes()(i) == n0 + i;
        for (size_t j = 0; j < nd; ++j) num = num && t.control(i, j) == t.p.ndof + i * nd + j && t.dofs(n0 + i, j) == t.control(i, j) && t.coor(n0 + i, j) == 0.0;
    }
    mon::ok(num, "control.numbers");

    // numbering
    auto& q = t.per;
    mon::ok(q.nnu() == t.nu && q.nnp() == t.np && q.nni() == t.nni && q.nnd() == t.nnd, "sizes",
        fmt("%zu %zu %zu %zu", q.nnu(), q.nnp(), q.nni(), q.nnd()));
    vu nodes, ctl;
    for (auto d : t.dofs) nodes.push_back(t.relabel[d]);
    for (auto d : t.control) ctl.push_back(t.relabel[d]);
    mon::same_seq(q.dofs(), nodes, "dofs");
    mon::same_seq(q.control(), ctl, "control");
    mon::same_seq(q.nodal_tyings(), t.ties, "nodal_tyings");
    auto rng = [](size_t a, size_t b) {
        vu v;
        for (size_t i = a; i < b; ++i) v.push_back(i);
        return v;
    };
    mon::same_seq(q.iiu(), rng(0, t.nu), "iiu");
    mon::same_seq(q.iip(), rng(t.nu, t.nni), "iip");
    mon::same_seq(q.iii(), rng(0, t.nni), "iii");
    mon::same_seq(q.iid(), rng(t.nni, t.ndof), "iid");

    // tying matrices
    double tol = 1e-12 * (1 + maxabs(t.coor));
    auto Cdi = q.Cdi(), Cdu = q.Cdu(), Cdp = q.Cdp();
    bool shp = (size_t)Cdi.rows() == t.nnd && (size_t)Cdi.cols() == t.nni && (size_t)Cdu.rows() == t.nnd && (size_t)Cdu.cols() == t.nu && (size_t)Cdp.rows() == t.nnd && (size_t)Cdp.cols() == t.np;
    if (!mon::ok(shp, "C.shape")) return;
    mon::ok(same(dense(Cdi), t.C, 0, t.nni, tol), "Cdi");
    mon::ok(same(dense(Cdu), t.C, 0, t.nu, tol), "Cdu");
    mon::ok(same(dense(Cdp), t.C, t.nu, t.nni, tol), "Cdp");

    // an affine field whose gradient sits in the control DOFs satisfies the tyings
    {
        vvd F(nd, vd(nd));
        for (auto& i : F)
            for (auto& j : i) j = r.uni(-1, 1);
        vd c(nd);
        for (auto& i : c) i = r.uni(-1, 1);
        Eigen::VectorXd u = Eigen::VectorXd::Zero(t.ndof);
        for (size_t m = 0; m < n0; ++m)
            for (size_t i = 0; i < nd; ++i) {
                double v = c[i];
                for (size_t j = 0; j < nd; ++j) v += F[i][j] * t.coor(m, j);
                u(q.dofs()(m, i)) = v;
            }
        for (size_t i = 0; i < nd; ++i)
            for (size_t j = 0; j < nd; ++j) u(q.control()(i, j)) = F[i][j];
        Eigen::VectorXd ud = Cdi * u.head(t.nni);
        mon::close((ud - u.tail(t.nnd)).cwiseAbs().maxCoeff(), 0, 1e-11 * (1 + maxabs(t.coor)), "affine");
        Eigen::VectorXd us = Cdu * u.head(t.nu);
        if (t.np) us += Cdp * u.segment(t.nu, t.np);
        mon::close((us - ud).cwiseAbs().maxCoeff(), 0, 1e-12 * (1 + maxabs(t.coor)), "split_sum");
    }

    // the vector class on the tied system; elements only refer to real nodes
    GooseFEM::VectorPartitionedTyings v(t.p.conn, q.dofs(), Cdu, Cdp, Cdi);
    mon::ok(v.nnu() == t.nu && v.nnp() == t.np && v.nni() == t.nni && v.nnd() == t.nnd && v.ndof() == t.ndof, "vector.sizes");
    mon::same_seq(v.iiu(), rng(0, t.nu), "vector.iiu");
    mon::same_seq(v.iip(), rng(t.nu, t.nni), "vector.iip");
    mon::same_seq(v.iii(), rng(0, t.nni), "vector.iii");
    mon::same_seq(v.iid(), rng(t.nni, t.ndof), "vector.iid");
    D2 f = xt::empty<double>({t.nnode, nd});
    fill(r, f);
    vd fd(t.ndof), fi;
    for (size_t m = 0; m < t.nnode; ++m)
        for (size_t i = 0; i < nd; ++i) fd[nodes[m * nd + i]] = f(m, i);
    fi.assign(fd.begin(), fd.begin() + t.nni);
    vd plain = fi;
    for (size_t d = 0; d < t.nnd; ++d)
        for (size_t i = 0; i < t.nni; ++i) fi[i] += t.C[d][i] * fd[t.nni + d];
    double ft = 1e-12 * (1 + t.nnd) * (1 + maxabs(t.coor));
    mon::close_seq(v.AsDofs_i(f), fi, ft, "condense");
    D1 o = xt::empty<double>({t.nni});
    poison(o);
    v.asDofs_i(f, o);
    mon::close_seq(o, fi, ft, "condense.inplace");
    poison(o);
    v.asDofs_i(f, o, false);
    mon::same_seq(o, plain, "independent_part");
    // virtual work of the condensed load equals that of the full load
    {
        D1 ui = xt::empty<double>({t.nni});
        fill(r, ui);
        double w = 0, wi = 0;
        D1 c = v.AsDofs_i(f);
        for (size_t i = 0; i < t.nni; ++i) w += fd[i] * ui(i), wi += c(i) * ui(i);
        for (size_t d = 0; d < t.nnd; ++d) {
            double u = 0;
            for (size_t i = 0; i < t.nni; ++i) u += t.C[d][i] * ui(i);
            w += fd[t.nni + d] * u;
        }
        mon::close(wi, w, 1e-11 * (1 + t.ndof) * (1 + maxabs(t.coor)), "virtual_work");
    }
    // copy_p
    for (size_t n : {t.ndof, t.nni}) {
        D1 a = xt::empty<double>({n}), b = a;
        fill(r, a), fill(r, b);
        vd w(b.begin(), b.end());
        for (size_t i = t.nu; i < t.nni; ++i) w[i] = a(i);
        v.copy_p(a, b);
        mon::same_seq(b, w, "copy_p");
    }
    mon::cover("iip.empty", t.np == 0);
    mon::cover("iip.unsorted", !std::is_sorted(t.iip.begin(), t.iip.end()));
    mon::cover(fmt("ndim.%zu", nd));
    mon::cover("ties", t.ties.shape(0));
    bool ctlp = std::find(t.iip.begin(), t.iip.end(), t.control(0, 0)) != t.iip.end();
    mon::cover(ctlp ? "control.prescribed" : "control.free");
    uint64_t h = t.p.h;
    for (auto i : t.iip) h = mon::mix(h, i);
    for (auto i : t.ties) h = mon::mix(h, i);
    if (t.nnd) mon::nontrivial(h);
    mon::sample(t.what);
}
