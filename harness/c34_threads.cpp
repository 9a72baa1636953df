// C34: threads that only read share objects without races and get the serial results; threads that
// work on objects of their own do not affect each other (no hidden state is shared).
// The operations (and objects) are those of c31_pure.cpp.
#define C31_OPERATIONS_ONLY
#include "c31_pure.cpp"
#include <GooseFEM/Iterate.h>
#include <atomic>
#include <thread>

// A complete small simulation on objects of its own: no shared data whatsoever.
static vd simulation(uint64_t seed)
{
    mon::Rng r(seed);
    vd ret;
    auto add = [&](const auto& a) {
        for (auto v : a) ret.push_back((double)v);
    };
    size_t nx = 3 * r.range(1, 2), ny = r.range(1, 7);
    GF::Mesh::Quad4::FineLayer mesh(nx, ny, 1.0);
    D2 x = mesh.coor();
    U2 conn = mesh.conn(), dofs = mesh.dofs();
    auto left = mesh.nodesLeftEdge(), right = mesh.nodesRightEdge();
    U1 iip = xt::empty<size_t>({left.size() + right.size()});
    for (size_t i = 0; i < left.size(); ++i) iip(i) = dofs(left(i), 0);
    for (size_t i = 0; i < right.size(); ++i) iip(left.size() + i) = dofs(right(i), 1);
    for (size_t i = 0; i < left.size(); ++i) iip(i) = dofs(left(i), 0);
    GF::VectorPartitioned vec(conn, dofs, iip);
    GF::Element::Quad4::Quadrature q(vec.AsElement(x));
    D4 sig = xt::empty<double>(q.shape_qtensor<2>());
    for (auto& v : sig) v = r.uni(-1, 1);
    auto qs = q.allocate_qscalar(1.3);
    auto eye = q.AsTensor<4>(qs);
    for (size_t e = 0; e < eye.shape(0); ++e)
        for (size_t k = 0; k < eye.shape(1); ++k)
            for (size_t i = 0; i < 2; ++i)
                for (size_t j = 0; j < 2; ++j)
                    for (size_t m = 0; m < 2; ++m)
                        for (size_t l = 0; l < 2; ++l) eye(e, k, i, j, m, l) = (i == l && j == m) + 0.1 * (i == m && j == l);
    GF::MatrixPartitioned K(conn, dofs, iip);
    GF::MatrixPartitionedSolver<> S;
    GF::MatrixDiagonal M(conn, dofs);
    GF::Element::Quad4::Quadrature qn(vec.AsElement(x), GF::Element::Quad4::Nodal::xi(), GF::Element::Quad4::Nodal::w());
    M.assemble(qn.Int_N_scalar_NT_dV(qn.allocate_qscalar(2.0)));
    D2 u = xt::zeros<double>(x.shape());
    GF::Iterate::StopList stop(3);
    for (int t = 0; t < 3; ++t) {
        K.assemble(q.Int_gradN_dot_tensor4_dot_gradNT_dV(eye));
        auto f = vec.AssembleNode(q.Int_gradN_dot_tensor2_dV(sig));
        S.solve(K, f, u);
        add(u);
        add(M.Solve(f));
        D2 y = x + 0.01 * u / (1 + xt::amax(xt::abs(u))());
        q.update_x(vec.AsElement(y));
        add(q.dV());
        stop.roll_insert(1.0 / (t + 1));
        ret.push_back(stop.all_less(0.4));
    }
    GF::Mesh::Stitch st;
    st.push_back(x, conn);
    D2 x2 = x;
    for (size_t i = 0; i < x.shape(0); ++i) x2(i, 0) += (double)nx;
    st.push_back(x2, conn);
    add(st.coor());
    add(st.conn());
    add(GF::Mesh::renumber(st.conn()));
    GF::Mesh::Quad4::Map::FineLayer2Regular map(mesh);
    add(map.regularMesh().conn());
    add(GF::Mesh::edgesize(x, conn));
    GF::Tyings::Control ctl(x, dofs);
    GF::Tyings::Periodic per(ctl.coor(), ctl.dofs(), ctl.controlDofs(), mesh.nodesPeriodic());
    add(per.dofs());
    return ret;
}

void run_case(mon::Rng& r)
{
    guards.clear();
    size_t nthread = r.range(2, 5), nobj = r.range(1, 3);
    std::string what;
    std::vector<long> owner; // -1: shared by all threads
    auto build = [&](mon::Rng r) {
        Ops ops;
        owner.clear(), what.clear();
        for (size_t i = 0; i < nobj; ++i) {
            size_t before = ops.size();
            switch (r.range(0, 3)) {
            case 0: vec_objects(r, ops, ""); break;
            case 1: quad_objects(r, ops, ""); break;
            case 2: mat_objects(r, ops, ""); break;
            default: mesh_objects(r, ops, "");
            }
            if (ops.size() == before) continue;
            what += ops[before].name + " ";
            // solving is not a read-only operation: such an object is used by one thread, or not solved
            bool solve = false;
            for (size_t k = before; k < ops.size(); ++k) solve = solve || ops[k].name.find("Solve") != std::string::npos;
            long own = -1;
            if (solve && r.coin()) own = (long)r.range(0, nthread - 1);
            Ops keep(ops.begin(), ops.begin() + before);
            for (size_t k = before; k < ops.size(); ++k)
                if (own >= 0 || ops[k].name.find("Solve") == std::string::npos) keep.push_back(ops[k]);
            ops = keep;
            owner.resize(ops.size(), own);
            mon::cover(own < 0 ? "objects.shared" : "objects.private");
        }
        return ops;
    };
    // the same objects twice: for the serial reference, and for the threads (of which no operation
    // was called before, so that anything that is prepared upon the first call is prepared there)
    mon::Rng fork(r.range(0, 1u << 30));
    Ops ref = build(fork), ops = build(fork);
    if (!mon::ok(ref.size() == ops.size(), "harness.rebuild")) return;
    mon::context() = what;
    for (size_t i = 0; i < ops.size(); ++i) ops[i].want = ref[i].alloc();
    static const double fills[] = {std::numeric_limits<double>::quiet_NaN(), 1e30, -7.0, 0.0};
    struct Rec {
        size_t op;
        bool into;
        vd got;
    };
    struct Plan {
        std::vector<std::pair<size_t, int>> steps; // operation, buffer
        std::vector<Rec> rec;
        uint64_t seed = 0;
        size_t at = 0;
        vd sim;
        std::string err;
    };
    std::vector<Plan> plan(nthread);
    bool sims = r.coin(0.5), same_seed = r.coin(0.3);
    uint64_t s0 = r.range(0, 1000000);
    for (size_t t = 0; t < nthread; ++t) {
        // all threads in the same order (the same operation at the same moment), or each in another
        for (int round = 0; round < 2; ++round) {
            auto order = r.perm(ops.size());
            if (t && r.coin()) {
                plan[t].steps = plan[0].steps;
                plan[t].steps.erase(std::remove_if(plan[t].steps.begin(), plan[t].steps.end(), [&](auto& s) { return owner[s.first] >= 0; }), plan[t].steps.end());
                break;
            }
            for (auto i : order)
                if (owner[i] < 0 || owner[i] == (long)t) plan[t].steps.push_back({i, r.coin() && ops[i].into ? (int)r.range(0, 3) : -1});
        }
        plan[t].seed = same_seed ? s0 : s0 + t;
        plan[t].at = r.range(0, plan[t].steps.size());
    }
    std::vector<vd> wsim(nthread);
    if (sims)
        for (size_t t = 0; t < nthread; ++t) wsim[t] = simulation(plan[t].seed);
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nthread; ++t)
        th.emplace_back([&, t]() {
            auto& p = plan[t];
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nthread) std::this_thread::yield();
            try {
                for (size_t k = 0; k <= p.steps.size(); ++k) {
                    if (k == p.at && sims) p.sim = simulation(p.seed);
                    if (k == p.steps.size()) break;
                    const Op& o = ops[p.steps[k].first];
                    int f = p.steps[k].second;
                    p.rec.push_back({p.steps[k].first, f >= 0, f >= 0 ? o.into(fills[f]) : o.alloc()});
                }
            }
            catch (const std::exception& e) {
                p.err = e.what();
            }
        });
    for (auto& t : th) t.join();
    uint64_t h = mon::hash({nthread, (uint64_t)sims});
    for (size_t t = 0; t < nthread; ++t) {
        mon::ok(plan[t].err.empty(), "exception", plan[t].err);
        for (auto& i : plan[t].rec) {
            mon::ok(agree(ops[i.op], i.got, ops[i.op].want), (i.into ? "into." : "call.") + ops[i.op].name, fmt("thread %zu of %zu", t, nthread));
            h = mon::mix(h, i.op * 2 + i.into);
        }
        if (sims) {
            bool eq = plan[t].sim.size() == wsim[t].size();
            for (size_t i = 0; eq && i < wsim[t].size(); ++i) eq = std::abs(plan[t].sim[i] - wsim[t][i]) <= 1e-9 * (1 + std::abs(wsim[t][i]));
            mon::ok(eq, "simulation");
            mon::cover("simulations");
        }
        mon::cover("calls", plan[t].rec.size());
        mon::cover("threads");
    }
    bool same = true;
    for (auto& g : guards) same = same && g();
    mon::ok(same, "input_modified");
    mon::nontrivial(h);
    mon::sample(what);
    guards.clear();
}
