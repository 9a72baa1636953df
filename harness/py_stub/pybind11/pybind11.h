// Stand-in for pybind11 (which is not installed here): records every module, class, property and
// function that the bindings register, and calls them the way Python would: positional or keyword
// arguments, defaults, overloads tried in the order of registration, arrays handed over by
// reference (so that a function can write in them), base classes searched for inherited names.
#ifndef STUB_PYBIND11
#define STUB_PYBIND11
#include <Eigen/Eigen>
#include <array>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <utility>
#include <vector>
#include <xtensor-python/pyarray.hpp>
#include <xtensor-python/pytensor.hpp>

namespace pybind11 {

struct Value;
typedef std::vector<Value> List;
enum Kind { NONE, BOOL, INT, FLOAT, STR, LIST, ARRAY, OBJECT };

struct Value {
    Kind kind = NONE;
    bool b = false;
    long long i = 0;
    double d = 0.0;
    std::string s;
    std::shared_ptr<List> list;
    std::shared_ptr<void> p; // array: xt::xarray<T>; object: T
    std::type_index type = typeid(void);
    // compares two arrays or objects of this type (null: cannot be compared)
    bool (*same)(const void*, const void*) = nullptr;
};

struct type_error : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// ------------------------------------------------------------------------------------------------
// classes

typedef std::function<Value(std::vector<Value>&)> Callable; // throws `no_match` if not convertible
struct no_match {};

struct Overload {
    std::vector<std::string> names; // may be shorter than the number of arguments
    std::vector<std::pair<bool, Value>> defaults; // aligned with names
    size_t nargs = 0; // without self
    Callable f;
};
struct Function {
    std::vector<Overload> overloads;
};
struct Class {
    std::string name;
    std::type_index type = typeid(void);
    Class* base = nullptr;
    Function init;
    std::map<std::string, Function> methods;
    std::map<std::string, Callable> getters;
    std::map<std::string, Function> setters;
    // base type -> conversion of the pointer
    std::map<std::type_index, void* (*)(void*)> up;
};
struct Module {
    std::string name;
    std::map<std::string, Function> functions;
    std::map<std::string, std::shared_ptr<Class>> classes;
    std::map<std::string, std::shared_ptr<Module>> submodules;
    std::map<std::string, Value> values;
};
inline std::map<std::type_index, Class*>& registry()
{
    static std::map<std::type_index, Class*> r;
    return r;
}

// ------------------------------------------------------------------------------------------------
// conversion

template <class T>
bool equal_array(const void* a, const void* b)
{
    auto& x = *static_cast<const xt::xarray<T>*>(a);
    auto& y = *static_cast<const xt::xarray<T>*>(b);
    if (x.dimension() != y.dimension()) return false;
    for (size_t i = 0; i < x.dimension(); ++i)
        if (x.shape(i) != y.shape(i)) return false;
    for (size_t i = 0; i < x.size(); ++i) {
        const T u = x.flat(i), v = y.flat(i);
        if (!(u == v) && !(u != u && v != v)) return false;
    }
    return true;
}
template <class T>
bool equal_enum(const void* a, const void* b)
{
    return *static_cast<const T*>(a) == *static_cast<const T*>(b);
}
inline bool equal_sparse(const void* a, const void* b)
{
    typedef Eigen::SparseMatrix<double> S;
    auto& x = *static_cast<const S*>(a);
    auto& y = *static_cast<const S*>(b);
    if (x.rows() != y.rows() || x.cols() != y.cols()) return false;
    return Eigen::MatrixXd(x) == Eigen::MatrixXd(y);
}

template <class T, class = void>
struct conv { // instances of classes, enumerations
    std::shared_ptr<void> hold;
    T* ptr = nullptr;
    static Value cast(const T& v)
    {
        Value r;
        r.kind = OBJECT;
        r.type = typeid(T);
        r.p = std::make_shared<T>(v);
        if constexpr (std::is_enum_v<T>) r.same = equal_enum<T>;
        if constexpr (std::is_same_v<T, Eigen::SparseMatrix<double>>) r.same = equal_sparse;
        return r;
    }
    bool load(Value& v)
    {
        if (v.kind != OBJECT) return false;
        if (v.type == std::type_index(typeid(T))) {
            hold = v.p;
            ptr = static_cast<T*>(hold.get());
            return true;
        }
        auto c = registry().find(v.type);
        if (c == registry().end()) return false;
        auto u = c->second->up.find(typeid(T));
        if (u == c->second->up.end()) return false;
        hold = v.p;
        ptr = static_cast<T*>(u->second(hold.get()));
        return true;
    }
    T& get() { return *ptr; }
    void done() {}
};
template <class T>
struct conv<std::shared_ptr<T>> {
    static Value cast(const std::shared_ptr<T>& v)
    {
        Value r;
        r.kind = OBJECT;
        r.type = typeid(T);
        r.p = v;
        return r;
    }
};
template <>
struct conv<bool> {
    bool v = false;
    static Value cast(bool b)
    {
        Value r;
        r.kind = BOOL;
        r.b = b;
        return r;
    }
    bool load(Value& a)
    {
        v = a.b;
        return a.kind == BOOL;
    }
    bool& get() { return v; }
    void done() {}
};
template <class T>
struct conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    T v = 0;
    static Value cast(T i)
    {
        Value r;
        r.kind = INT;
        r.i = static_cast<long long>(i);
        return r;
    }
    bool load(Value& a)
    {
        if (a.kind == BOOL) {
            v = static_cast<T>(a.b);
            return true;
        }
        if (a.kind != INT || (std::is_unsigned_v<T> && a.i < 0)) return false;
        v = static_cast<T>(a.i);
        return true;
    }
    T& get() { return v; }
    void done() {}
};
template <class T>
struct conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    T v = 0;
    static Value cast(T d)
    {
        Value r;
        r.kind = FLOAT;
        r.d = d;
        return r;
    }
    bool load(Value& a)
    {
        if (a.kind == FLOAT) v = a.d;
        else if (a.kind == INT) v = static_cast<T>(a.i);
        else return false;
        return true;
    }
    T& get() { return v; }
    void done() {}
};
template <>
struct conv<std::string> {
    std::string v;
    static Value cast(const std::string& s)
    {
        Value r;
        r.kind = STR;
        r.s = s;
        return r;
    }
    bool load(Value& a)
    {
        v = a.s;
        return a.kind == STR;
    }
    std::string& get() { return v; }
    void done() {}
};
template <>
struct conv<const char*> {
    static Value cast(const char* s) { return conv<std::string>::cast(s); }
};
template <class T>
inline Value to_value(const T& v)
{
    return conv<std::decay_t<T>>::cast(v);
}
template <class C>
struct conv_seq {
    C v;
    static Value cast(const C& a)
    {
        Value r;
        r.kind = LIST;
        r.list = std::make_shared<List>();
        for (auto& i : a) r.list->push_back(to_value<typename C::value_type>(i));
        return r;
    }
    C& get() { return v; }
    void done() {}
};
template <class T, class A>
struct conv<std::vector<T, A>> : conv_seq<std::vector<T, A>> {
    bool load(Value& a)
    {
        if (a.kind != LIST) return false;
        for (auto& i : *a.list) {
            conv<T> c;
            if (!c.load(i)) return false;
            this->v.push_back(c.get());
        }
        return true;
    }
};
template <class T, size_t N>
struct conv<std::array<T, N>> : conv_seq<std::array<T, N>> {
    bool load(Value& a)
    {
        if (a.kind != LIST || a.list->size() != N) return false;
        for (size_t i = 0; i < N; ++i) {
            conv<T> c;
            if (!c.load((*a.list)[i])) return false;
            this->v[i] = c.get();
        }
        return true;
    }
};
template <class A, class T>
struct conv_array {
    A v;
    Value* from = nullptr;
    static Value cast(const A& a)
    {
        Value r;
        r.kind = ARRAY;
        r.type = typeid(T);
        xt::xarray<T> x = xt::empty<T>(std::vector<size_t>(a.shape().begin(), a.shape().end()));
        std::copy(a.begin(), a.end(), x.begin());
        r.p = std::make_shared<xt::xarray<T>>(std::move(x));
        r.same = equal_array<T>;
        return r;
    }
    bool load_impl(Value& a)
    {
        if (a.kind != ARRAY || a.type != std::type_index(typeid(T))) return false;
        from = &a;
        auto& x = *static_cast<xt::xarray<T>*>(a.p.get());
        return assign(v, x);
    }
    static bool assign(xt::xarray<T>& v, const xt::xarray<T>& x)
    {
        v = x;
        return true;
    }
    template <size_t N>
    static bool assign(xt::xtensor<T, N>& v, const xt::xarray<T>& x)
    {
        if (x.dimension() != N) return false;
        std::array<size_t, N> s;
        std::copy(x.shape().begin(), x.shape().end(), s.begin());
        v.resize(s);
        std::copy(x.begin(), x.end(), v.begin());
        return true;
    }
    bool load(Value& a) { return load_impl(a); }
    A& get() { return v; }
    // numpy arrays are passed by reference
    void done()
    {
        auto& x = *static_cast<xt::xarray<T>*>(from->p.get());
        if (x.size() == v.size()) std::copy(v.begin(), v.end(), x.begin());
    }
};
template <class T>
struct conv<xt::xarray<T>> : conv_array<xt::xarray<T>, T> {
};
template <class T, size_t N>
struct conv<xt::xtensor<T, N>> : conv_array<xt::xtensor<T, N>, T> {
};

// ------------------------------------------------------------------------------------------------
// arguments

struct arg_v {
    std::string name;
    Value value;
};
struct arg {
    std::string name;
    explicit arg(const char* n) : name(n) {}
    template <class T>
    arg_v operator=(T&& v) const
    {
        return arg_v{name, to_value(v)};
    }
    arg& noconvert(bool = true) { return *this; }
};
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <size_t, size_t>
struct keep_alive {
};
template <class... T>
struct call_guard {
};
struct gil_scoped_release {
};
// accepted and ignored
struct kw_only {
};
struct pos_only {
};
struct is_operator {
};
struct dynamic_attr {
};
struct module_local {
    explicit module_local(bool = true) {}
};
struct doc {
    explicit doc(const char*) {}
};
inline void process(Overload& o, const arg& a)
{
    o.names.push_back(a.name);
    o.defaults.push_back({false, Value()});
}
inline void process(Overload& o, const arg_v& a)
{
    o.names.push_back(a.name);
    o.defaults.push_back({true, a.value});
}
template <class T>
inline void process(Overload&, const T&)
{
}

template <class... Args>
struct overload_cast_impl {
    template <class R>
    constexpr auto operator()(R (*f)(Args...)) const
    {
        return f;
    }
    template <class R, class C>
    constexpr auto operator()(R (C::*f)(Args...), std::false_type = {}) const
    {
        return f;
    }
    template <class R, class C>
    constexpr auto operator()(R (C::*f)(Args...) const, std::true_type) const
    {
        return f;
    }
};
template <class... Args>
static constexpr overload_cast_impl<Args...> overload_cast{};
static constexpr auto const_ = std::true_type{};

// ------------------------------------------------------------------------------------------------
// wrapping

template <class R, class F, class... A, size_t... I>
inline Value apply(F& f, std::tuple<conv<std::decay_t<A>>...>& c, std::index_sequence<I...>)
{
    Value ret;
    if constexpr (std::is_void_v<R>)
        f(static_cast<A>(std::get<I>(c).get())...);
    else if constexpr (std::is_pointer_v<std::decay_t<R>> && !std::is_same_v<std::decay_t<R>, const char*>)
        ret = to_value(*f(static_cast<A>(std::get<I>(c).get())...));
    else
        ret = to_value<std::decay_t<R>>(f(static_cast<A>(std::get<I>(c).get())...));
    // only what the function may have changed
    (void)std::initializer_list<int>{(std::is_lvalue_reference_v<A> && !std::is_const_v<std::remove_reference_t<A>> ? (std::get<I>(c).done(), 0) : 0)...};
    return ret;
}
template <class R, class F, class... A>
inline Callable wrap(F f)
{
    return [f](std::vector<Value>& args) mutable -> Value {
        if (args.size() != sizeof...(A)) throw no_match();
        std::tuple<conv<std::decay_t<A>>...> c;
        bool good = true;
        std::apply([&](auto&... i) { size_t k = 0; (void)k; (void)std::initializer_list<int>{(good = good && i.load(args[k++]), 0)...}; }, c);
        if (!good) throw no_match();
        return apply<R, F, A...>(f, c, std::index_sequence_for<A...>());
    };
}
template <class F>
struct lambda_signature;
template <class R, class C, class... A>
struct lambda_signature<R (C::*)(A...) const> {
    template <class F>
    static Callable make(F f) { return wrap<R, F, A...>(f); }
    template <class T, class F>
    static Callable factory(F f)
    {
        auto g = [f](A... a) {
            if constexpr (std::is_same_v<std::decay_t<R>, T>) return std::make_shared<T>(f(std::forward<A>(a)...));
            else return std::shared_ptr<T>(f(std::forward<A>(a)...));
        };
        return wrap<std::shared_ptr<T>, decltype(g), A...>(g);
    }
    static constexpr size_t n = sizeof...(A);
};

template <class R, class... A>
inline std::pair<Callable, size_t> callable(R (*f)(A...))
{
    return {wrap<R, R (*)(A...), A...>(f), sizeof...(A)};
}
template <class F, class = decltype(&F::operator())>
inline std::pair<Callable, size_t> callable(F f)
{
    return {lambda_signature<decltype(&F::operator())>::make(f), lambda_signature<decltype(&F::operator())>::n};
}
template <class T, class R, class C, class... A>
inline std::pair<Callable, size_t> method(R (C::*f)(A...))
{
    auto g = [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    return {wrap<R, decltype(g), T&, A...>(g), sizeof...(A)};
}
template <class T, class R, class C, class... A>
inline std::pair<Callable, size_t> method(R (C::*f)(A...) const)
{
    auto g = [f](T& self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); };
    return {wrap<R, decltype(g), T&, A...>(g), sizeof...(A)};
}
template <class T, class F, class = decltype(&F::operator())>
inline std::pair<Callable, size_t> method(F f)
{
    auto c = callable(f);
    c.second -= 1;
    return c;
}
template <class T, class R, class... A>
inline std::pair<Callable, size_t> method(R (*f)(A...))
{
    auto c = callable(f);
    c.second -= 1;
    return c;
}

template <class... X>
inline Overload overload(std::pair<Callable, size_t> c, const X&... x)
{
    Overload o;
    o.f = c.first;
    o.nargs = c.second;
    (void)std::initializer_list<int>{(process(o, x), 0)...};
    return o;
}

template <class... A>
struct init_ctor {
};
template <class F>
struct init_factory {
    F f;
};
template <class... A>
inline init_ctor<A...> init()
{
    return {};
}
template <class F, class = decltype(&F::operator())>
inline init_factory<F> init(F f)
{
    return {f};
}
template <class R, class... A>
inline auto init(R (*f)(A...))
{
    auto g = [f](A... a) { return f(std::forward<A>(a)...); };
    return init_factory<decltype(g)>{g};
}

// ------------------------------------------------------------------------------------------------
// what the bindings use

struct object {
    std::string s;
};
struct accessor {
    std::string* s;
    operator object() const { return object{*s}; }
    void operator=(const std::string& v) { *s = v; }
    void operator=(const object& v) { *s = v.s; }
};
struct handle {
};
typedef handle scope;

class module_ {
public:
    std::shared_ptr<Module> m = std::make_shared<Module>();
    std::shared_ptr<std::string> docstring = std::make_shared<std::string>();
    module_ def_submodule(const char* name, const char* = "")
    {
        module_ r;
        if (m->submodules.count(name)) r.m = m->submodules[name];
        r.m->name = m->name + "." + name;
        m->submodules[name] = r.m;
        return r;
    }
    template <class F, class... X>
    module_& def(const char* name, F f, const X&... x)
    {
        m->functions[name].overloads.push_back(overload(callable(f), x...));
        return *this;
    }
    accessor attr(const char*) { return accessor{&m->name}; }
    std::string& doc() { return *docstring; }
};
typedef module_ module;

template <class T, class... Base>
class class_ {
public:
    std::shared_ptr<Class> c;
    template <class... X>
    class_(module_& m, const char* name, const X&...)
    {
        c = std::make_shared<Class>();
        c->name = name;
        c->type = typeid(T);
        (void)std::initializer_list<int>{(base<Base>(), 0)...};
        m.m->classes[name] = c;
        registry()[typeid(T)] = c.get();
    }
    template <class B>
    void base()
    {
        if constexpr (std::is_base_of_v<B, T> && !std::is_same_v<B, T>) {
            auto b = registry().find(typeid(B));
            if (b == registry().end()) throw type_error("base class is not registered (yet)");
            c->base = b->second;
            c->up[typeid(B)] = [](void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); };
        }
    }
    template <class... A, class... X>
    class_& def(init_ctor<A...>, const X&... x)
    {
        auto g = [](A... a) { return std::make_shared<T>(std::forward<A>(a)...); };
        c->init.overloads.push_back(overload({wrap<std::shared_ptr<T>, decltype(g), A...>(g), sizeof...(A)}, x...));
        return *this;
    }
    template <class F, class... X>
    class_& def(init_factory<F> f, const X&... x)
    {
        typedef lambda_signature<decltype(&F::operator())> S;
        c->init.overloads.push_back(overload({S::template factory<T>(f.f), S::n}, x...));
        return *this;
    }
    template <class F, class... X>
    class_& def(const char* name, F f, const X&... x)
    {
        c->methods[name].overloads.push_back(overload(method<T>(f), x...));
        return *this;
    }
    template <class V, class... X>
    class_& def_readonly(const char* name, V T::*v, const X&...)
    {
        return def_property_readonly(name, [v](const T& self) { return self.*v; });
    }
    template <class V, class... X>
    class_& def_readwrite(const char* name, V T::*v, const X&...)
    {
        return def_property(name, [v](const T& self) { return self.*v; }, [v](T& self, const V& x) { self.*v = x; });
    }
    template <class F, class... X>
    class_& def_static(const char* name, F f, const X&... x)
    {
        c->methods[name].overloads.push_back(overload(callable(f), x...));
        return *this;
    }
    template <class F, class... X>
    class_& def_property_readonly(const char* name, F f, const X&...)
    {
        c->getters[name] = method<T>(f).first;
        return *this;
    }
    template <class F, class G, class... X>
    class_& def_property(const char* name, F f, G g, const X&...)
    {
        c->getters[name] = method<T>(f).first;
        c->setters[name].overloads.push_back(overload(method<T>(g)));
        return *this;
    }
};

template <class T>
class enum_ {
public:
    std::shared_ptr<Module> m;
    std::shared_ptr<Module> inner = std::make_shared<Module>();
    template <class... X>
    enum_(module_& mod, const char* name, const X&...) : m(mod.m)
    {
        m->submodules[name] = inner;
    }
    enum_& value(const char* name, T v, const char* = "")
    {
        inner->values[name] = to_value(v);
        return *this;
    }
    enum_& export_values()
    {
        for (auto& i : inner->values) m->values[i.first] = i.second;
        return *this;
    }
};

// ------------------------------------------------------------------------------------------------
// Python's side

typedef std::vector<std::pair<std::string, Value>> Args; // name "" = positional

inline Value call(Function& fn, const Value* self, const Args& args, const std::string& what)
{
    for (auto& o : fn.overloads) {
        size_t off = self ? 1 : 0;
        if (args.size() > o.nargs) continue;
        std::vector<Value> a(o.nargs + off);
        std::vector<bool> set(o.nargs, false);
        if (self) a[0] = *self;
        bool good = true;
        size_t pos = 0;
        for (auto& i : args) {
            size_t k = 0;
            if (i.first.empty()) k = pos++;
            else {
                while (k < o.names.size() && o.names[k] != i.first) ++k;
                if (k == o.names.size()) good = false;
            }
            if (!good || k >= o.nargs || set[k]) {
                good = false;
                break;
            }
            a[k + off] = i.second;
            set[k] = true;
        }
        for (size_t k = 0; good && k < o.nargs; ++k)
            if (!set[k]) {
                if (k < o.defaults.size() && o.defaults[k].first) a[k + off] = o.defaults[k].second;
                else good = false;
            }
        if (!good) continue;
        try {
            return o.f(a);
        }
        catch (const no_match&) {
        }
    }
    throw type_error("TypeError: " + what + "(): incompatible arguments");
}

} // namespace pybind11

#define PYBIND11_MODULE(name, variable) void pybind11_init_##name(pybind11::module_& variable)
#endif
