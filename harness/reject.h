// Malformed calls: each operation is executed as it should be, and with one argument of the wrong
// shape. In a build with assertions the latter must throw, before anything is written.
#ifndef REJECT_H
#define REJECT_H
#include "fe.h"
#include "mon.h"
#include <cstring>
namespace rej {
using namespace fe;

// a shape that differs from `s` in one entry (or that swaps two different entries)
template <size_t N>
inline std::array<size_t, N> wrong(mon::Rng& r, std::array<size_t, N> s)
{
    size_t k = r.range(0, N - 1);
    switch (r.range(0, 5)) {
    case 0:
    case 1: s[k] += r.range(1, 3); return s;
    case 2:
        if (s[k] > 0) {
            s[k] -= 1;
            return s;
        }
        break;
    case 3:
        if (s[k] > 0) {
            s[k] = 0;
            return s;
        }
        break;
    default:
        for (size_t i = 0; i + 1 < N; ++i)
            if (s[i] != s[i + 1]) {
                std::swap(s[i], s[i + 1]);
                return s;
            }
    }
    s[k] += 1;
    return s;
}
template <size_t N>
inline std::array<size_t, N> arr(const std::array<size_t, N>& s)
{
    return s;
}
template <size_t N>
inline xt::xtensor<double, N> make(mon::Rng& r, std::array<size_t, N> s, bool bad)
{
    if (bad) s = wrong<N>(r, s);
    xt::xtensor<double, N> a = xt::empty<double>(s);
    for (auto& v : a) v = r.uni(-1, 1);
    return a;
}
template <class F>
inline bool threw(F&& f, std::string* what = nullptr)
{
    try {
        f();
    }
    catch (const std::exception& e) {
        if (what) *what = e.what();
        return true;
    }
    return false;
}
// valid call: must not throw
template <class F>
inline void valid(const std::string& name, F&& f)
{
    std::string what;
    bool t = threw(f, &what);
    mon::cover("valid_calls");
    mon::ok(!t, "valid.rejected." + name, what);
}
template <class F>
inline void invalid(const std::string& name, F&& f, const std::string& d = "")
{
    bool t = threw(f);
    mon::cover("malformed_calls");
    mon::ok(t, "malformed.accepted." + name, d);
}
template <class T>
inline bool same(const T& a, const T& b)
{
    return a.shape() == b.shape() && (a.size() == 0 || std::memcmp(a.data(), b.data(), a.size() * sizeof(*a.data())) == 0);
}
template <class S>
inline std::string shp(const S& s)
{
    std::string r = "{";
    for (auto i : s) r += std::to_string(i) + ",";
    return r + "}";
}
// f(in): allocates its result
template <size_t N, class F>
inline void one(mon::Rng& r, const std::string& name, std::array<size_t, N> s, F&& f)
{
    auto a = make<N>(r, s, false);
    valid(name, [&]() { f(a); });
    auto b = make<N>(r, s, true);
    invalid(name, [&]() { f(b); }, "shape " + shp(b.shape()) + " for " + shp(s));
}
// f(in, out): writes in the buffer
template <size_t N, size_t M, class F>
inline void two(mon::Rng& r, const std::string& name, std::array<size_t, N> s, std::array<size_t, M> t, F&& f)
{
    auto a = make<N>(r, s, false);
    auto o = make<M>(r, t, false);
    valid(name, [&]() { f(a, o); });
    auto b = make<N>(r, s, true);
    auto q = o;
    invalid(name + ".in", [&]() { f(b, o); }, "shape " + shp(b.shape()) + " for " + shp(s));
    mon::ok(same(o, q), "malformed.wrote." + name + ".in");
    auto p = make<M>(r, t, true);
    q.resize(p.shape());
    auto p0 = p;
    invalid(name + ".out", [&]() { f(a, p); }, "shape " + shp(p.shape()) + " for " + shp(t));
    mon::ok(same(p, p0), "malformed.wrote." + name + ".out");
}
// f(in1, in2, out)
template <size_t N, size_t K, size_t M, class F>
inline void three(mon::Rng& r, const std::string& name, std::array<size_t, N> s, std::array<size_t, K> u, std::array<size_t, M> t, F&& f)
{
    auto a = make<N>(r, s, false);
    auto c = make<K>(r, u, false);
    auto o = make<M>(r, t, false);
    valid(name, [&]() { f(a, c, o); });
    auto q = o;
    auto b = make<N>(r, s, true);
    invalid(name + ".first", [&]() { f(b, c, o); }, "shape " + shp(b.shape()) + " for " + shp(s));
    auto d = make<K>(r, u, true);
    invalid(name + ".second", [&]() { f(a, d, o); }, "shape " + shp(d.shape()) + " for " + shp(u));
    mon::ok(same(o, q), "malformed.wrote." + name);
    auto p = make<M>(r, t, true);
    auto p0 = p;
    invalid(name + ".out", [&]() { f(a, c, p); }, "shape " + shp(p.shape()) + " for " + shp(t));
    mon::ok(same(p, p0), "malformed.wrote." + name + ".out");
}
} // namespace rej
#endif
