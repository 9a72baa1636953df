// C28: convergence monitor: the last n residuals, in order; convergence is only reported if each of
// them really is below the tolerance.
#include "mon.h"
#include <cstring>
#include <deque>
#include <GooseFEM/Iterate.h>

void run_case(mon::Rng& r)
{
    size_t n = r.range(1, 8);
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    GooseFEM::Iterate::StopList def;
    mon::ok(def.data().size() == 1 && def.data()[0] == inf, "default");
    GooseFEM::Iterate::StopList s(n);
    std::deque<double> m(n, inf);
    int style = (int)r.range(0, 5);
    bool with_nan = r.coin(0.3);
    size_t len = r.range(0, 40);
    double prev = r.uni(0, 10);
    uint64_t h = mon::hash({n, len, (uint64_t)style});
    auto check = [&]() {
        std::vector<double> tols = {0.0, 1.0, r.uni(0, 10), inf, 1e-300, m[r.range(0, m.size() - 1)]};
        auto& d = s.data();
        bool same = d.size() == m.size();
        for (size_t i = 0; same && i < m.size(); ++i) same &= d[i] == m[i] || (std::isnan(d[i]) && std::isnan(m[i]));
        mon::ok(same, "data", mon::fmt("n=%zu", n));
        mon::ok(&s.get() == &d || std::memcmp(s.get().data(), d.data(), d.size() * sizeof(double)) == 0, "get");
        bool anynan = false;
        for (auto i : m) anynan |= std::isnan(i);
        for (auto tol : tols) {
            if (std::isnan(tol)) continue;
            bool want = true;
            for (auto i : m) want = want && i < tol;
            mon::ok(s.all_less(tol) == want, anynan ? "all_less.nan" : "all_less", mon::fmt("tol %g last %g n=%zu", tol, m.back(), n));
            mon::cover(want ? "converged" : "not_converged");
        }
        bool desc = true;
        for (size_t i = 0; i + 1 < m.size(); ++i) desc = desc && m[i] >= m[i + 1];
        mon::ok(s.descending() == desc, anynan ? "descending.nan" : "descending", mon::fmt("n=%zu", n));
        mon::cover(desc ? "descending" : "not_descending");
        if (anynan) mon::cover("with_nan");
    };
    check();
    for (size_t t = 0; t < len; ++t) {
        if (r.coin(0.06)) {
            if (r.coin()) s.reset();
            else {
                n = r.range(1, 8);
                s.reset(n);
            }
            m.assign(n, inf);
            mon::cover("reset");
        }
        double v = r.uni(0, 10);
        if (style == 0) v = prev * 0.8; // strictly descending
        if (style == 1) v = prev * (r.coin(0.85) ? 0.7 : 1.1); // mostly
        if (style == 2) v = (double)r.range(0, 3); // ties
        if (style == 3) v = r.coin(0.8) ? r.uni(0, 1) : r.uni(1, 2);
        if (style == 4 && r.coin(0.2)) v = r.coin() ? inf : 0.0;
        prev = v;
        if (with_nan && r.coin(0.2)) v = nan;
        s.roll_insert(v);
        m.pop_front();
        m.push_back(v);
        h = mon::mix(h, mon::hashd(v));
        check();
    }
    GooseFEM::Iterate::StopList c = s;
    s.roll_insert(-1.0);
    mon::ok(c.data().back() == m.back() || std::isnan(m.back()), "copy_independent");
    if (len) mon::nontrivial(h);
    mon::sample(mon::fmt("n=%zu %zu residuals style %d nan=%d", n, len, style, (int)with_nan));
}
