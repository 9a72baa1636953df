// C37 (part 1): the values of the arguments decide, not how they are stored. The library is compiled
// as for the Python module, whose arrays keep the strides of the NumPy arrays that come in (transposed,
// Fortran-ordered, slices of bigger arrays). Every operation of C31 is called on objects and arguments
// with ordinary storage and on objects and arguments with the same values and arbitrary strides, and with
// output buffers of both kinds: all results must be equal, and what lies between the items of a buffer
// must be left alone. The memory between the items is poisoned.
#include <xtensor-python/pytensor.hpp>
#define GOOSEFEM_USE_XTENSOR_PYTHON
#define FE_DYNAMIC_LAYOUT
#define C31_OPERATIONS_ONLY
#include "c31_pure.cpp"

static bool g_on = false; // relay anything?
static mon::Rng* g_rng = nullptr;

template <class T>
static T sentinel();
template <>
double sentinel<double>()
{
    double v;
    uint64_t bits = 0x7ff8deadbeef1234ull; // a NaN that no operation generates
    std::memcpy(&v, &bits, 8);
    return v;
}
template <>
size_t sentinel<size_t>()
{
    return 0xdeadbeefdeadbeefull;
}
template <class A>
static size_t poisoned(const A& a)
{
    auto p = sentinel<typename A::value_type>();
    size_t n = 0;
    for (auto& v : a.storage())
        if (std::memcmp(&v, &p, sizeof(p)) == 0) ++n;
    return n;
}

namespace fe {
template <class T, size_t N>
Tensor<T, N> relay(const Tensor<T, N>& a)
{
    if (!g_on || a.size() == 0) return a;
    typedef Tensor<T, N> A;
    mon::Rng& r = *g_rng;
    size_t kind = r.range(0, 4); // row-major, column-major, permuted, with gaps, both
    auto order = r.perm(N);
    if (kind == 1 || kind == 0 || kind == 3)
        for (size_t i = 0; i < N; ++i) order[i] = kind == 1 ? i : N - 1 - i;
    typename A::inner_shape_type sh;
    typename A::inner_strides_type st;
    std::copy(a.shape().begin(), a.shape().end(), sh.begin());
    ptrdiff_t s = kind >= 3 ? (ptrdiff_t)r.range(1, 3) : 1, extent = 1;
    for (size_t i = 0; i < N; ++i) {
        size_t n = sh[order[i]];
        st[order[i]] = n == 1 ? 0 : s;
        extent += (ptrdiff_t)(n - 1) * (n == 1 ? 0 : s);
        s *= (ptrdiff_t)(n + (kind >= 3 && r.coin() ? r.range(1, 2) : 0));
    }
    typename A::storage_type buf((size_t)extent);
    std::fill(buf.begin(), buf.end(), sentinel<T>());
    A ret(std::move(buf), std::move(sh), std::move(st));
    // item by item: with nothing but the definition of strides
    std::array<size_t, N> i{};
    for (auto& v : a) {
        ptrdiff_t k = 0;
        for (size_t d = 0; d < N; ++d) k += (ptrdiff_t)i[d] * ret.strides()[d];
        ret.storage()[(size_t)k] = v;
        for (size_t d = N; d-- > 0;) {
            if (++i[d] < a.shape(d)) break;
            i[d] = 0;
        }
    }
    static const char* names[] = {"row_major", "column_major", "permuted", "gaps", "permuted_gaps"};
    mon::cover(std::string("storage.") + names[kind]);
    return ret;
}
static const void* g_data;
static size_t g_poisoned;
template <class A>
void into_begin(const A& a)
{
    g_data = a.storage().data();
    g_poisoned = poisoned(a);
}
template <class A>
void into_end(const A& a, const std::string& name)
{
    // (asTensor takes any container: it assigns, and is not among the functions of the Python module)
    if (!g_on || name.find(".AsTensor") != std::string::npos) return;
    // the caller's buffer, not another one that takes its place
    mon::ok((const void*)a.storage().data() == g_data, "into.rebound." + name);
    mon::ok(poisoned(a) == g_poisoned, "into.outside." + name, fmt("%zu items between those of the buffer, were %zu", poisoned(a), g_poisoned));
    if (g_poisoned) mon::cover("buffers_with_gaps");
}
} // namespace fe

static void build(mon::Rng r, int kind, Ops& ops)
{
    if (kind == 0) vec_objects(r, ops, "");
    if (kind == 1) quad_objects(r, ops, "");
    if (kind == 2) mat_objects(r, ops, "");
    if (kind == 3) mesh_objects(r, ops, "");
    if (kind == 4) array_objects(r, ops, "");
}

void run_case(mon::Rng& r)
{
    guards.clear();
    mon::Rng seed(r.next()), how(r.next());
    g_rng = &how;
    int kind = (int)r.range(0, 4);
    Ops plain, other;
    g_on = false;
    build(seed, kind, plain);
    g_on = true;
    build(seed, kind, other);
    std::string what = plain.empty() ? "" : plain[0].name;
    mon::context() = what;
    if (!mon::ok(plain.size() == other.size(), "operations", fmt("%zu %zu", plain.size(), other.size()))) return;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < plain.size(); ++i) {
        plain[i].exact = other[i].exact = false;
        g_on = false;
        vd want = plain[i].alloc();
        g_on = true;
        mon::ok(agree(plain[i], other[i].alloc(), want), "layout." + plain[i].name, plain[i].name);
        mon::cover("calls.allocating");
        if (plain[i].into) {
            mon::ok(agree(plain[i], other[i].into(-7.0), want), "layout.into." + plain[i].name, plain[i].name);
            mon::ok(agree(plain[i], plain[i].into(-7.0), want), "layout.only_into." + plain[i].name, plain[i].name);
            mon::cover("calls.into", 2);
        }
        for (auto v : want) h = mon::mix(h, mon::hashd(v));
    }
    bool same = true;
    for (auto& g : guards) same = same && g();
    mon::ok(same, "input_modified");
    mon::cover("inputs", guards.size());
    mon::nontrivial(h);
    mon::sample(what);
    guards.clear();
    g_on = false;
}
