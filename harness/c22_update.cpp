// C22: after any history of position updates an element object answers as one that was freshly
// created on the current positions; copies are independent.
#include "mon.h"
#include "quadx.h"
using namespace fe;

template <class T>
static void compare(mon::Rng& r, const T& quad, const QC& c, const std::string& key)
{
    std::string k = kindname(c.kind);
    auto fresh = Make<T>::make(c);
    size_t t = c.tdim;
    double tg = gtol(c) * c.gs, tv = gtol(c) * c.vs;
    vd vol;
    for (auto& e : c.vol)
        for (auto v : e) vol.push_back(v);
    mon::close_seq(quad.dV(), vol, tv, key + ".dV." + k);
    mon::close_seq(quad.dV(), fresh.dV(), 1e-14 * c.vs, key + ".dV_fresh." + k);
    if constexpr (!is_axi<T>) {
        mon::close_seq(quad.GradN(), fresh.GradN(), 1e-14 * c.gs, key + ".gradN_fresh." + k);
    }
    else {
        mon::close_seq(quad.B(), fresh.B(), 1e-14 * c.gs, key + ".B_fresh." + k);
    }
    D3 u = xt::empty<double>({c.nelem, c.nne, c.ndim});
    fill(r, u);
    mon::close_seq(quad.SymGradN_vector(u), ref_grad(c, u, 2), tg, key + ".sym." + k);
    mon::close_seq(quad.GradN_vector(u), ref_grad(c, u, 0), tg, key + ".grad." + k);
    D3 x = c.X();
    mon::close_seq(quad.InterpQuad_vector(x), ref_interp(c, x), 1e-13 * c.size, key + ".interp." + k);
    D4 s = xt::empty<double>({c.nelem, c.nip, t, t});
    fill(r, s);
    mon::close_seq(quad.Int_gradN_dot_tensor2_dV(s), ref_force(c, s), tg * c.vs * (double)(c.nip * t), key + ".force." + k);
    D2 rho = xt::empty<double>({c.nelem, c.nip});
    fill(r, rho);
    mon::close_seq(quad.Int_N_scalar_NT_dV(rho), ref_mass(c, rho), tv * (double)c.nip, key + ".mass." + k);
}

void run_case(mon::Rng& r)
{
    QC c0 = random_quad(r);
    with_quad(c0, [&](auto& first) {
        typedef std::decay_t<decltype(first)> T;
        T quad; // default constructed, then assigned
        quad = first;
        QC c = c0;
        auto& dV = quad.dV(); // references stay valid and follow the object
        size_t nstep = r.range(2, mon::thorough() ? 16 : 8);
        uint64_t h = c0.h;
        std::vector<std::pair<T, QC>> copies;
        for (size_t step = 0; step < nstep; ++step) {
            int op = (int)r.range(0, 5);
            mon::context() = c0.what + fmt(" step %zu op %d", step, op);
            if (op <= 2) {
                QC n = c;
                random_coor(r, n, c.nelem); // unrelated positions
                n.reference();
                if (r.coin(0.3)) {
                    xt::xarray<double> x = n.X();
                    quad.update_x(x);
                }
                else if (r.coin(0.3)) {
                    // an expression, and one that refers to the old positions
                    D3 x = n.X();
                    quad.update_x(x * 1.0);
                }
                else quad.update_x(n.X());
                c = n;
                h = mon::mix(h, n.h);
                mon::cover("update");
            }
            else if (op == 3) {
                // small motion
                QC n = c;
                double a = r.uni(0.9, 1.1);
                for (auto& e : n.x)
                    for (auto& m : e)
                        for (auto& v : m) v *= a;
                n.reference();
                quad.update_x(n.X());
                c = n;
                mon::cover("small_update");
            }
            else if (op == 4) {
                c = [&] { QC n = c0; return n; }();
                quad.update_x(c0.X());
                mon::cover("back_to_start");
            }
            else {
                copies.push_back({quad, c});
                if (r.coin()) quad.update_x(quad.InterpQuad_vector(c.X()).size() ? c.X() : c.X());
                mon::cover("copy");
            }
            compare(r, quad, c, "history");
            vd vol;
            for (auto& e : c.vol)
                for (auto v : e) vol.push_back(v);
            mon::close_seq(dV, vol, gtol(c) * c.vs, std::string("reference_follows.") + kindname(c.kind));
        }
        for (auto& i : copies) compare(r, i.first, i.second, "copy");
        // the object the copy was made from did not move
        compare(r, first, c0, "source");
        mon::nontrivial(h);
        mon::sample(c0.what + fmt(" %zu steps %zu copies", nstep, copies.size()));
    });
}
