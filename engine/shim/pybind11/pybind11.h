// Stand-in for <pybind11/pybind11.h>, used only when /repo is compiled to LLVM IR
// for symbolic execution.  Executing the PYBIND11_MODULE body of the real binding
// file registers, through the extern "C" hooks below, every bound function, data
// member and default argument; the Python side of the engine then calls the real
// bound C++ functions through `thunk`.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <tuple>
#include <utility>
#include <complex>
#include <functional>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <new>

typedef void (*__pyshim_thunk_t)(void *holder, void **args, void *ret);
extern "C" {
void *__pyshim_dict_new();
void __pyshim_type(const char *kind, long size, long aux, const void *tag);
void __pyshim_class(const char *name, long size, const void *tag, const void *base);
void __pyshim_method(const void *tag, const char *name, const char *kind, __pyshim_thunk_t thunk, void *holder, int nargs);
void __pyshim_arg(const char *name, const void *defval);
void __pyshim_attr(const char *name, const char *value);
}

namespace pybind11 {
struct handle { void *p = nullptr; };
class object : public handle { };
class dict : public object { public: dict() { p = __pyshim_dict_new(); } };
class none : public object { };
typedef ssize_t ssize_t_;

struct options { options &disable_function_signatures() { return *this; } options &enable_function_signatures() { return *this; }
  options &disable_user_defined_docstrings() { return *this; } };

template <class T> struct tagof { static char tag; };
template <class T> char tagof<T>::tag = 0;

template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;

template <class T, class E = void> struct TD {            // registered class
  static void emit() { __pyshim_type("cls", sizeof(T), 0, &tagof<T>::tag); }
};
template <> struct TD<void> { static void emit() { __pyshim_type("void", 0, 0, nullptr); } };
template <> struct TD<bool> { static void emit() { __pyshim_type("bool", 1, 0, nullptr); } };
template <> struct TD<double> { static void emit() { __pyshim_type("f64", 8, 0, nullptr); } };
template <> struct TD<float> { static void emit() { __pyshim_type("f32", 4, 0, nullptr); } };
template <class T> struct TD<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
  static void emit() { __pyshim_type("int", sizeof(T), std::is_signed<T>::value, nullptr); } };
template <> struct TD<std::complex<double>> { static void emit() { __pyshim_type("c64", 16, 0, nullptr); } };
template <> struct TD<std::string> { static void emit() { __pyshim_type("str", sizeof(std::string), 0, nullptr); } };
template <class T, class A> struct TD<std::vector<T, A>> { static void emit() { __pyshim_type("vec", sizeof(T), 0, nullptr); TD<T>::emit(); } };
template <class T, size_t N> struct TD<std::array<T, N>> { static void emit() { __pyshim_type("arr", sizeof(T), N, nullptr); TD<T>::emit(); } };
template <class T, class U> struct TD<std::pair<T, U>> { static void emit() {
  __pyshim_type("pair", sizeof(std::pair<T, U>), offsetof_second(), nullptr); TD<T>::emit(); TD<U>::emit(); }
  static long offsetof_second() { typedef std::pair<T, U> P; return (long)(size_t)&(((P *)0)->second); } };
template <> struct TD<dict> { static void emit() { __pyshim_type("pyobj", 8, 0, nullptr); } };
template <> struct TD<object> { static void emit() { __pyshim_type("pyobj", 8, 0, nullptr); } };

template <class T> struct TDX { static void emit() { TD<bare<T>>::emit(); } };
template <class T> struct TDX<T *> { static void emit() { __pyshim_type("ptr", 8, 0, nullptr); TD<bare<T>>::emit(); } };

struct arg {
  const char *name;
  explicit arg(const char *n = "") : name(n) {}
  arg &noconvert(bool = true) { return *this; }
  arg &none(bool = true) { return *this; }
  template <class T> struct with;
  template <class T> auto operator=(T &&v) const;
};
template <class T> struct arg_v { const char *name; T *value;
  arg_v &noconvert(bool = true) { return *this; } };
template <class T> auto arg::operator=(T &&v) const { typedef std::decay_t<T> D; return arg_v<D>{name, new D(std::forward<T>(v))}; }
inline namespace literals { inline arg operator"" _a(const char *n, size_t) { return arg(n); } }

inline void proc_extra(const arg &a) { __pyshim_arg(a.name, nullptr); }
template <class T> void proc_extra(const arg_v<T> &a) { __pyshim_arg(a.name, a.value); TD<bare<T>>::emit(); }
template <class T> void proc_extra(const T &) {}

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <class... T> struct call_guard {};
template <size_t, size_t> struct keep_alive {};
struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };

class error_already_set : public std::exception {};
class value_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class index_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class type_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class key_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };

// ---- calling --------------------------------------------------------------
template <class R> struct retstore {
  template <class F> static void go(void *ret, F &&f) { new (ret) bare<R>(f()); } };
template <> struct retstore<void> { template <class F> static void go(void *, F &&f) { f(); } };
template <class T> struct retstore<T *> { template <class F> static void go(void *ret, F &&f) { *(T **)ret = (T *)f(); } };

template <class A> struct argget { static bare<A> &get(void *p) { return *(bare<A> *)p; } };
template <class A> struct argget<A *> { static A *get(void *p) { return (A *)p; } };

template <class F, class R, class... A> struct freecaller {
  template <size_t... I> static void run(F &f, void **args, void *ret, std::index_sequence<I...>) {
    retstore<R>::go(ret, [&]() -> R { return f(argget<A>::get(args[I])...); }); }
  static void thunk(void *holder, void **args, void *ret) { run(*(F *)holder, args, ret, std::index_sequence_for<A...>{}); }
  static void reg(const void *cls, const char *name, const char *kind, F f) {
    __pyshim_method(cls, name, kind, &thunk, new F(f), sizeof...(A));
    TDX<R>::emit(); (void)std::initializer_list<int>{(TDX<A>::emit(), 0)...}; }
};
template <class C, class M, class R, class... A> struct memcaller {
  template <size_t... I> static void run(M &m, void **args, void *ret, std::index_sequence<I...>) {
    C *self = (C *)args[0];
    retstore<R>::go(ret, [&]() -> R { return (self->*m)(argget<A>::get(args[I + 1])...); }); }
  static void thunk(void *holder, void **args, void *ret) { run(*(M *)holder, args, ret, std::index_sequence_for<A...>{}); }
  static void reg(const void *cls, const char *name, const char *kind, M m) {
    __pyshim_method(cls, name, kind, &thunk, new M(m), 1 + sizeof...(A));
    TDX<R>::emit(); TD<C>::emit(); (void)std::initializer_list<int>{(TDX<A>::emit(), 0)...}; }
};

template <class L> struct lamsig : lamsig<decltype(&L::operator())> {};
template <class L, class R, class... A> struct lamsig<R (L::*)(A...) const> { template <class F> using caller = freecaller<F, R, A...>; };
template <class L, class R, class... A> struct lamsig<R (L::*)(A...)> { template <class F> using caller = freecaller<F, R, A...>; };

template <class C, class R, class... A> void regany(const void *cls, const char *name, const char *kind, R (*f)(A...)) {
  freecaller<R (*)(A...), R, A...>::reg(cls, name, kind, f); }
template <class C, class B, class R, class... A> void regany(const void *cls, const char *name, const char *kind, R (B::*m)(A...)) {
  memcaller<C, R (C::*)(A...), R, A...>::reg(cls, name, kind, static_cast<R (C::*)(A...)>(m)); }
template <class C, class B, class R, class... A> void regany(const void *cls, const char *name, const char *kind, R (B::*m)(A...) const) {
  memcaller<C, R (C::*)(A...) const, R, A...>::reg(cls, name, kind, static_cast<R (C::*)(A...) const>(m)); }
template <class C, class L, class = decltype(&L::operator())> void regany(const void *cls, const char *name, const char *kind, L l) {
  lamsig<L>::template caller<L>::reg(cls, name, kind, l); }

template <class... A> struct init_t {};
template <class L> struct init_factory { L l; };
template <class... A> init_t<A...> init() { return {}; }
template <class L> init_factory<L> init(L l) { return {l}; }

template <class C, class... A> struct ctorcaller {
  template <size_t... I> static void run(void **args, void *ret, std::index_sequence<I...>) { new (ret) C(argget<A>::get(args[I])...); }
  static void thunk(void *, void **args, void *ret) { run(args, ret, std::index_sequence_for<A...>{}); }
};

template <class T, class... Opt> class class_ {
  const void *tag() { return &tagof<T>::tag; }
public:
  template <class M, class... E> class_(M &, const char *name, const E &...) {
    __pyshim_class(name, sizeof(T), tag(), nullptr); }
  template <class... A, class... E> class_ &def(init_t<A...>, const E &...e) {
    __pyshim_method(tag(), "__init__", "init", &ctorcaller<T, A...>::thunk, nullptr, sizeof...(A));
    TD<void>::emit(); (void)std::initializer_list<int>{(TDX<A>::emit(), 0)...};
    (void)std::initializer_list<int>{(proc_extra(e), 0)...}; return *this; }
  template <class L, class... E> class_ &def(init_factory<L> f, const E &...e) {
    regany<T>(tag(), "__init__", "factory", f.l); (void)std::initializer_list<int>{(proc_extra(e), 0)...}; return *this; }
  template <class F, class... E> class_ &def(const char *name, F f, const E &...e) {
    regany<T>(tag(), name, "method", f); (void)std::initializer_list<int>{(proc_extra(e), 0)...}; return *this; }
  template <class F, class... E> class_ &def_static(const char *name, F f, const E &...e) {
    regany<T>(tag(), name, "static", f); (void)std::initializer_list<int>{(proc_extra(e), 0)...}; return *this; }
  template <class G, class S, class... E> class_ &def_property(const char *name, G g, S s, const E &...) {
    regget(name, g); regset(name, s); return *this; }
  template <class G, class... E> class_ &def_property_readonly(const char *name, G g, const E &...) { regget(name, g); return *this; }
  template <class B, class D, class... E> class_ &def_readwrite(const char *name, D B::*pm, const E &...) {
    regany<T>(tag(), name, "getter", [pm](const T &t) -> D { return t.*pm; });
    regany<T>(tag(), name, "setter", [pm](T &t, const D &d) { t.*pm = d; }); return *this; }
  template <class B, class D, class... E> class_ &def_readonly(const char *name, D B::*pm, const E &...) {
    regany<T>(tag(), name, "getter", [pm](const T &t) -> D { return t.*pm; }); return *this; }
private:
  template <class B, class D> std::enable_if_t<!std::is_function<D>::value> regget(const char *name, D B::*pm) {
    regany<T>(tag(), name, "getter", [pm](const T &t) -> D { return t.*pm; }); }
  template <class G> std::enable_if_t<!std::is_member_object_pointer<G>::value> regget(const char *name, G g) { regany<T>(tag(), name, "getter", g); }
  template <class S> std::enable_if_t<std::is_same<S, std::nullptr_t>::value> regset(const char *, S) {}
  template <class S> std::enable_if_t<!std::is_same<S, std::nullptr_t>::value> regset(const char *name, S s) { regany<T>(tag(), name, "setter", s); }
};

struct attr_shim { const char *name; template <class V> void operator=(V &&v) { set(v); }
  void set(const char *v) { __pyshim_attr(name, v); } template <class V> void set(const V &) {} };
class module_ { public:
  attr_shim attr(const char *n) { return attr_shim{n}; }
  attr_shim doc() { return attr_shim{"__doc__"}; }
  template <class F, class... E> module_ &def(const char *name, F f, const E &...e) {
    regany<void>(nullptr, name, "function", f); (void)std::initializer_list<int>{(proc_extra(e), 0)...}; return *this; }
};
using module = module_;
template <class... A, class R, class C> constexpr auto overload_cast_impl(R (C::*f)(A...)) { return f; }
template <class... A> struct overload_cast {
  template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const { return f; }
};
template <class... T> void print(T &&...) {}
}  // namespace pybind11

#define PYBIND11_MODULE(name, var)                                   \
  static void __pyshim_body_##name(::pybind11::module_ &);           \
  extern "C" void __pyshim_init_##name(::pybind11::module_ *m) { __pyshim_body_##name(*m); } \
  static void __pyshim_body_##name(::pybind11::module_ &var)
