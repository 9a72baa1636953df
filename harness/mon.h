// Monitoring core shared by all drivers: seeded workload generation, online oracles,
// coverage counters, per-case CPU watchdog and a machine-readable report.
//
// A driver implements `void run_case(mon::Rng& r)`; `main` lives here.
// Report (JSON) is written to --out; the case being executed is kept in <out>.cur so that the
// runner can attribute a crash, an abort or a sanitizer report to one replayable case.
#ifndef MON_H
#define MON_H
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // inclusive
    size_t range(size_t lo, size_t hi)
    {
        return lo + static_cast<size_t>(next() % (hi - lo + 1));
    }
    double uni(double a = 0.0, double b = 1.0)
    {
        return a + (b - a) * (static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0));
    }
    bool coin(double p = 0.5)
    {
        return uni() < p;
    }
    double logu(double a, double b)
    {
        return std::exp(uni(std::log(a), std::log(b)));
    }
    template <class T>
    T pick(const std::vector<T>& v)
    {
        return v[range(0, v.size() - 1)];
    }
    template <class V>
    void shuffle(V& v)
    {
        for (size_t i = v.size(); i > 1; --i) {
            std::swap(v[i - 1], v[range(0, i - 1)]);
        }
    }
    std::vector<size_t> perm(size_t n)
    {
        std::vector<size_t> p(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = i;
        }
        shuffle(p);
        return p;
    }
    // random subset of {0 ... n - 1} of size k
    std::vector<size_t> subset(size_t n, size_t k)
    {
        auto p = perm(n);
        p.resize(k);
        return p;
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x100000001B3ull ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2)));
    return r.next();
}
inline uint64_t hash(std::initializer_list<uint64_t> v)
{
    uint64_t h = 1469598103934665603ull;
    for (auto i : v) {
        h = mix(h, i);
    }
    return h;
}
inline uint64_t hashd(double d)
{
    uint64_t u;
    std::memcpy(&u, &d, 8);
    return u;
}

struct Viol {
    std::string key;
    uint64_t cas;
    std::string detail;
};

struct State {
    uint64_t seed = 1, shard = 0, nshard = 1, cases = 10;
    long only = -1;
    uint64_t from = 0;
    bool thorough = false;
    std::string out;
    int curfd = -1;
    uint64_t cur = 0;
    uint64_t ncase = 0;
    uint64_t oracle = 0;
    std::map<std::string, uint64_t> cover;
    std::map<std::string, uint64_t> per_key; // violations per key
    std::map<std::string, uint64_t> oracles; // evaluations per oracle key
    std::vector<Viol> viol;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    double worst = 0.0; // largest (error / tolerance) over all passing float oracles
    std::string worst_key;
    uint64_t digest = 1469598103934665603ull;
};
inline State& S()
{
    static State s;
    return s;
}

inline std::string fmt(const char* f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    return b;
}

inline void violation(const std::string& key, const std::string& detail)
{
    auto& s = S();
    if (++s.per_key[key] <= 3) {
        s.viol.push_back({key, s.cur, detail});
    }
}

inline std::string& context()
{
    static std::string c;
    return c;
}

// one oracle evaluation
inline bool ok(bool cond, const std::string& key, const std::string& detail = "")
{
    auto& s = S();
    ++s.oracle;
    ++s.oracles[key];
    if (!cond) {
        violation(key, detail + (context().empty() ? "" : " [" + context() + "]"));
    }
    return cond;
}

inline bool close(double a, double b, double tol, const std::string& key, const std::string& d = "")
{
    double err = std::abs(a - b);
    auto& s = S();
    bool good = err <= tol; // false for NaN
    if (good && tol > 0 && err / tol > s.worst) {
        s.worst = err / tol;
        s.worst_key = key;
    }
    return ok(good, key, good ? "" : d + fmt(" got %.17g expected %.17g tol %.3g", a, b, tol));
}

// compare two sequences as one oracle evaluation; `tol` absolute
template <class A, class B>
inline bool close_seq(const A& a, const B& b, double tol, const std::string& key, const std::string& d = "")
{
    size_t n = a.size();
    auto& s = S();
    if (n != static_cast<size_t>(b.size())) {
        return ok(false, key, d + fmt(" size %zu expected %zu", n, static_cast<size_t>(b.size())));
    }
    auto ia = a.begin();
    auto ib = b.begin();
    double worst = 0.0;
    for (size_t i = 0; i < n; ++i, ++ia, ++ib) {
        double x = static_cast<double>(*ia), y = static_cast<double>(*ib);
        double err = std::abs(x - y);
        if (!(err <= tol)) {
            return ok(false, key, d + fmt(" [%zu of %zu] got %.17g expected %.17g tol %.3g", i, n, x, y, tol));
        }
        worst = std::max(worst, err);
    }
    if (tol > 0 && worst / tol > s.worst) {
        s.worst = worst / tol;
        s.worst_key = key;
    }
    return ok(true, key);
}

template <class A, class B>
inline bool same_seq(const A& a, const B& b, const std::string& key, const std::string& d = "")
{
    size_t n = a.size();
    if (n != static_cast<size_t>(b.size())) {
        return ok(false, key, d + fmt(" size %zu expected %zu", n, static_cast<size_t>(b.size())));
    }
    auto ia = a.begin();
    auto ib = b.begin();
    for (size_t i = 0; i < n; ++i, ++ia, ++ib) {
        if (!(*ia == *ib)) {
            return ok(
                false,
                key,
                d + fmt(" [%zu of %zu] got %.17g expected %.17g", i, n, (double)*ia, (double)*ib)
            );
        }
    }
    return ok(true, key);
}

// an expression that must throw
template <class F>
inline bool throws(F&& f, const std::string& key, const std::string& d = "")
{
    bool t = false;
    try {
        f();
    }
    catch (const std::exception&) {
        t = true;
    }
    return ok(t, key, d + " no exception");
}

inline void cover(const std::string& name, uint64_t n = 1)
{
    S().cover[name] += n;
}
inline void nontrivial(uint64_t h)
{
    S().distinct.insert(h);
}
inline void sample(const std::string& s)
{
    if (S().samples.size() < 3) {
        S().samples.push_back(s);
    }
}
inline void digest(uint64_t h)
{
    S().digest = mix(S().digest, h);
}
inline bool thorough()
{
    return S().thorough;
}

inline std::string esc(const std::string& in)
{
    std::string o;
    for (char c : in) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        }
        else if (static_cast<unsigned char>(c) < 0x20) {
            o += ' ';
        }
        else {
            o += c;
        }
    }
    return o;
}

inline void report(bool complete)
{
    auto& s = S();
    FILE* f = fopen(s.out.c_str(), "w");
    if (!f) {
        _exit(90);
    }
    fprintf(f, "{\"complete\":%s,\"cases\":%llu,\"oracle\":%llu,\"last\":%llu,\"digest\":\"%016llx\",",
        complete ? "true" : "false", (unsigned long long)s.ncase, (unsigned long long)s.oracle,
        (unsigned long long)s.cur, (unsigned long long)s.digest);
    fprintf(f, "\"worst\":%.6g,\"worst_key\":\"%s\",", s.worst, esc(s.worst_key).c_str());
    auto dump = [&](const char* name, const std::map<std::string, uint64_t>& m) {
        fprintf(f, "\"%s\":{", name);
        bool first = true;
        for (auto& i : m) {
            fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(i.first).c_str(), (unsigned long long)i.second);
            first = false;
        }
        fprintf(f, "},");
    };
    dump("cover", s.cover);
    dump("oracles", s.oracles);
    dump("per_key", s.per_key);
    fprintf(f, "\"violations\":[");
    for (size_t i = 0; i < s.viol.size(); ++i) {
        fprintf(f, "%s{\"key\":\"%s\",\"case\":%llu,\"detail\":\"%s\"}", i ? "," : "",
            esc(s.viol[i].key).c_str(), (unsigned long long)s.viol[i].cas, esc(s.viol[i].detail).c_str());
    }
    fprintf(f, "],\"distinct\":[");
    bool first = true;
    for (auto h : s.distinct) {
        fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < s.samples.size(); ++i) {
        fprintf(f, "%s\"%s\"", i ? "," : "", esc(s.samples[i]).c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
}

inline void on_watchdog(int)
{
    const char m[] = "MON-WATCHDOG: one case exceeded its CPU budget\n";
    ssize_t n = write(2, m, sizeof(m) - 1);
    (void)n;
    _exit(88);
}

inline void arm(int seconds)
{
    struct itimerval t;
    std::memset(&t, 0, sizeof(t));
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

} // namespace mon

void run_case(mon::Rng& r);

#ifndef MON_NO_MAIN
#ifndef MON_CASE_CPU_S
#define MON_CASE_CPU_S 120
#endif

int main(int argc, char** argv)
{
    auto& s = mon::S();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") {
            s.seed = std::stoull(val());
        }
        else if (a == "--shard") {
            s.shard = std::stoull(val());
        }
        else if (a == "--nshard") {
            s.nshard = std::stoull(val());
        }
        else if (a == "--cases") {
            s.cases = std::stoull(val());
        }
        else if (a == "--only") {
            s.only = std::stol(val());
        }
        else if (a == "--from") {
            s.from = std::stoull(val());
        }
        else if (a == "--out") {
            s.out = val();
        }
        else if (a == "--thorough") {
            s.thorough = true;
        }
    }
    if (s.out.empty()) {
        s.out = "/dev/stdout";
    }
    else {
        s.curfd = open((s.out + ".cur").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    }
    signal(SIGPROF, mon::on_watchdog);
    for (uint64_t c = s.shard; c < s.cases; c += s.nshard) {
        if (s.only >= 0 && c != static_cast<uint64_t>(s.only)) {
            continue;
        }
        if (c < s.from) {
            continue;
        }
        s.cur = c;
        if (s.curfd >= 0) {
            char b[32];
            int n = snprintf(b, sizeof(b), "%-20llu\n", (unsigned long long)c);
            if (pwrite(s.curfd, b, n, 0) != n) {
                return 91;
            }
        }
        mon::arm(MON_CASE_CPU_S);
        mon::Rng r(mon::mix(s.seed * 1000003ull + 17, c));
        mon::context().clear();
        try {
            run_case(r);
        }
        catch (const std::exception& e) {
            mon::violation(
                std::string("exception:") + typeid(e).name(),
                std::string(e.what()).substr(0, 600) + " [" + mon::context() + "]"
            );
        }
        catch (...) {
            mon::violation("exception:unknown", " [" + mon::context() + "]");
        }
        ++s.ncase;
    }
    mon::arm(0);
    mon::report(true);
    return 0;
}
#endif
#endif
