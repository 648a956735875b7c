// Stand-in for pybind11: the same declarations make up a table of entry points with simple values, which the symbolic executor can run.
// What is modelled is the documented meaning of the interface: classes, functions, properties, named arguments and their defaults.
#pragma once
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <Eigen/Core>

namespace pybind11 {

// a Python value: None, int, bool, float, str, or an array of int or float with one or two dimensions
enum { NONE, INT, BOOL, FLOAT, STR, IARRAY, FARRAY };
struct Value {
  int kind, ndim, mark;
  long i; double d;
  std::string s;
  Eigen::ArrayXXi ia; Eigen::ArrayXXd da;
  Value() : kind(NONE), ndim(0), mark(0), i(0), d(0) {}
};

// conversion from Python (false: this argument does not fit) and to Python
template <class T, class E = void> struct Conv;
template <> struct Conv<bool> {
  static bool from(const Value& v, bool& x) { if (v.kind == BOOL || v.kind == INT) { x = v.i != 0; return true; } if (v.kind == FLOAT) { x = v.d != 0; return true; } return false; }
  static void to(Value& v, bool x) { v.kind = BOOL; v.i = x; }
};
template <class T> struct Conv<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
  static bool from(const Value& v, T& x) { if (v.kind != INT && v.kind != BOOL) return false; if (v.i != (long)(T) v.i) return false; x = (T) v.i; return true; }
  static void to(Value& v, T x) { v.kind = INT; v.i = (long) x; }
};
template <class T> struct Conv<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
  static bool from(const Value& v, T& x) { if (v.kind == FLOAT) x = v.d; else if (v.kind == INT || v.kind == BOOL) x = (T) v.i; else return false; return true; }
  static void to(Value& v, T x) { v.kind = FLOAT; v.d = x; }
};
template <> struct Conv<std::string> {
  static bool from(const Value& v, std::string& x) { if (v.kind != STR) return false; x = v.s; return true; }
  static void to(Value& v, const std::string& x) { v.kind = STR; v.s = x; }
};
template <> struct Conv<const char*> {
  static bool from(const Value& v, const char*& x) { if (v.kind != STR) return false; x = v.s.c_str(); return true; }
  static void to(Value& v, const char* x) { v.kind = STR; v.s = x; }
};
template <class T> struct Conv<T, typename std::enable_if<std::is_base_of<Eigen::DenseBase<T>, T>::value>::type> {
  typedef typename T::Scalar S;
  static const bool vec = T::ColsAtCompileTime == 1;
  static bool from(const Value& v, T& x) {
    if (v.kind != IARRAY && v.kind != FARRAY) return false;
    if (v.kind == FARRAY && std::is_integral<S>::value) return false;
    long r = v.kind == IARRAY ? v.ia.rows() : v.da.rows(), c = v.kind == IARRAY ? v.ia.cols() : v.da.cols();
    if (vec && v.ndim == 2 && c != 1) return false;
    x.resize(r, c);
    for (long j = 0; j < c; j++) for (long i = 0; i < r; i++) x(i, j) = v.kind == IARRAY ? (S) v.ia(i, j) : (S) v.da(i, j);
    return true;
  }
  static void to(Value& v, const T& x) {
    long r = x.rows(), c = x.cols();
    v.kind = std::is_integral<S>::value ? IARRAY : FARRAY;
    v.ndim = vec ? 1 : 2;
    if (std::is_integral<S>::value) { v.ia.resize(r, c); for (long j = 0; j < c; j++) for (long i = 0; i < r; i++) v.ia(i, j) = (int) x(i, j); }
    else { v.da.resize(r, c); for (long j = 0; j < c; j++) for (long i = 0; i < r; i++) v.da(i, j) = (double) x(i, j); }
  }
};

struct Entry;
typedef int (*Thunk)(Entry*, void* self, Value** args, Value* ret);
enum { FUNCTION, INIT, PROPERTY };
struct Entry {
  const char *cls, *name;
  int kind, nargs;
  Thunk call, get, set;
  void* make;                      // of a constructor: the new object
  const char* argname[40]; Value* def[40]; int nnamed;
  alignas(16) unsigned char f[64], g[64];
};
struct Table { Entry e[400]; int n; Value* attr[40]; const char* attrname[40]; int nattr; };
extern Table table;

// extras
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct arg_v { const char* name; Value* v; arg_v& noconvert(bool = true) { return *this; } };
struct arg {
  const char* name;
  explicit arg(const char* n = 0) : name(n) {}
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
  template <class T> arg_v operator=(const T& x) const { arg_v a; a.name = name; a.v = new Value; Conv<typename std::decay<const T>::type>::to(*a.v, x); return a; }
};
namespace literals { inline arg operator"" _a(const char* n, size_t) { return arg(n); } }
struct doc { const char* s; explicit doc(const char* x) : s(x) {} };
struct name { const char* s; explicit name(const char* x) : s(x) {} };
struct kw_only {}; struct pos_only {}; struct is_method {}; struct dynamic_attr {}; struct module_local { module_local(bool = true) {} };
struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <class... T> struct call_guard {};
template <int, int> struct keep_alive {};
inline void extra(Entry& e, const arg& a) { e.argname[e.nnamed++] = a.name; }
inline void extra(Entry& e, const arg_v& a) { e.def[e.nnamed] = a.v; e.argname[e.nnamed++] = a.name; }
template <class X> void extra(Entry&, const X&) {}
inline void extras(Entry&) {}
template <class X, class... R> void extras(Entry& e, const X& x, const R&... r) { extra(e, x); extras(e, r...); }

template <class F> F& stored(unsigned char* p) { return *(F*) p; }
template <class F> void store(unsigned char* p, const F& f) { static_assert(sizeof(F) <= 64, "size of a function object"); new (p) F(f); }
inline Entry& entry(const char* cls, const char* name, int kind) { Entry& e = table.e[table.n++]; e.cls = cls; e.name = name; e.kind = kind; return e; }

// what a callable takes and gives
template <class F> struct Sig : Sig<decltype(&F::operator())> { static const int form = 1; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...)> { typedef R ret(A...); typedef C cls; static const int form = 2; };
template <class R, class C, class... A> struct Sig<R (C::*)(A...) const> { typedef R ret(A...); typedef C cls; static const int form = 2; };
template <class R, class... A> struct Sig<R (*)(A...)> { typedef R ret(A...); static const int form = 1; };
template <class R, class... A> struct Sig<R (A...)> { typedef R ret(A...); static const int form = 1; };

template <class A> struct Arg { typename std::remove_cv<typename std::remove_reference<A>::type>::type x; bool load(const Value& v) { return Conv<decltype(x)>::from(v, x); } };
template <int... I> struct Seq {};
template <int N, int... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <int... I> struct Mk<0, I...> { typedef Seq<I...> t; };
template <class... A> struct Args;
template <> struct Args<> {};
template <class A, class... B> struct Args<A, B...> : Args<B...> { Arg<A> a; };
template <int I, class A, class... B> struct Get { static auto get(Args<A, B...>& s) -> decltype(Get<I - 1, B...>::get(s)) { return Get<I - 1, B...>::get(s); } };
template <class A, class... B> struct Get<0, A, B...> { static Arg<A>& get(Args<A, B...>& s) { return s.a; } };
inline bool loads(Args<>&, Value**) { return true; }
template <class A, class... B> bool loads(Args<A, B...>& s, Value** v) { return s.a.load(**v) && loads((Args<B...>&) s, v + 1); }

template <class R> struct Ret { template <class C> static void put(Value* r, C c) { Conv<typename std::decay<R>::type>::to(*r, c()); } };
template <> struct Ret<void> { template <class C> static void put(Value*, C c) { c(); } };

#define PYB_GUARD(...) try { __VA_ARGS__; return 0; } catch (const std::exception&) { return 1; } catch (...) { return 2; }
// member function of T (or a base)
template <class T, class F, class S, class I> struct Mem;
template <class T, class F, class R, class... A, int... I> struct Mem<T, F, R (A...), Seq<I...>> {
  static int call(Entry* e, void* self, Value** v, Value* ret) {
    Args<A...> s; (void) s;
    if (!loads(s, v)) return 3;
    F f = stored<F>(e->f); T* o = (T*) self;
    PYB_GUARD(Ret<R>::put(ret, [&]() -> R { return (o->*f)(static_cast<A>(Get<I, A...>::get(s).x)...); }))
  }
};
// free function or function object; with T: the first argument is the object
template <class T> struct Self { static T& of(void* p, T&) ; };
template <class T, class A0> struct AsSelf { static A0 of(void* p) { return static_cast<A0>(*(T*) p); } };
template <class T, class A0> struct AsSelf<T, A0*> { static A0* of(void* p) { return (T*) p; } };
template <class T, class F, class S, class I> struct Obj;
template <class T, class F, class R, class A0, class... A, int... I> struct Obj<T, F, R (A0, A...), Seq<I...>> {
  static int call(Entry* e, void* self, Value** v, Value* ret) {
    Args<A...> s; (void) s;
    if (!loads(s, v)) return 3;
    F& f = stored<F>(e->f);
    PYB_GUARD(Ret<R>::put(ret, [&]() -> R { return f(AsSelf<T, A0>::of(self), static_cast<A>(Get<I, A...>::get(s).x)...); }))
  }
};
template <class F, class S, class I> struct Fre;
template <class F, class R, class... A, int... I> struct Fre<F, R (A...), Seq<I...>> {
  static int call(Entry* e, void*, Value** v, Value* ret) {
    Args<A...> s; (void) s;
    if (!loads(s, v)) return 3;
    F& f = stored<F>(e->f);
    PYB_GUARD(Ret<R>::put(ret, [&]() -> R { return f(static_cast<A>(Get<I, A...>::get(s).x)...); }))
  }
};
template <class S> struct Count;
template <class R, class... A> struct Count<R (A...)> { static const int n = sizeof...(A); };
template <class T, int form, class F> struct Meth;
template <class T, class F> struct Meth<T, 2, F> { typedef typename Sig<F>::ret S; static const int n = Count<S>::n; typedef Mem<T, F, S, typename Mk<n>::t> t; };
template <class T, class F> struct Meth<T, 1, F> { typedef typename Sig<F>::ret S; static const int n = Count<S>::n - 1; typedef Obj<T, F, S, typename Mk<n>::t> t; };
template <class T, class F> struct Method : Meth<T, Sig<F>::form, F> {};

// properties
template <class T, class M, class C> struct Field {
  static int get(Entry* e, void* self, Value**, Value* r) { M C::*p = stored<M C::*>(e->g); Conv<typename std::remove_cv<M>::type>::to(*r, ((T*) self)->*p); return 0; }
  static int set(Entry* e, void* self, Value** v, Value*) { M C::*p = stored<M C::*>(e->g); M x; if (!Conv<M>::from(**v, x)) return 3; ((T*) self)->*p = x; return 0; }
};
template <class T, class F> struct Getter {
  static int get(Entry* e, void* self, Value** v, Value* r) { return call(e, self, v, r, e->g); }
  static int set(Entry* e, void* self, Value** v, Value* r) { return call(e, self, v, r, e->f); }
  static int call(Entry* e, void* self, Value** v, Value* r, unsigned char* p) {
    Entry* t = new Entry;
    memcpy(t->f, p, 64);
    int c = Method<T, F>::t::call(t, self, v, r);
    delete t;
    return c;
  }
};
template <class... A> struct InitT {};
template <class F> struct InitF { F f; };
template <class... A> InitT<A...> init() { return InitT<A...>(); }
template <class F> InitF<F> init(F f) { InitF<F> i = {f}; return i; }
template <class T, class I, class... A> struct New;
template <class T, class... A, int... I> struct New<T, Seq<I...>, A...> {
  static int call(Entry* e, void*, Value** v, Value*) {
    Args<A...> s; (void) s;
    if (!loads(s, v)) return 3;
    PYB_GUARD(e->make = new T(static_cast<A>(Get<I, A...>::get(s).x)...))
  }
};
template <class T> T* heap(T* p) { return p; }
template <class P> auto heap(P p) -> decltype(p.release()) { return p.release(); }
template <class T, class F, class S, class I> struct NewF;
template <class T, class F, class R, class... A, int... I> struct NewF<T, F, R (A...), Seq<I...>> {
  static void* obj(T* p) { return p; }
  static void* obj(const T& x) { return new T(x); }
  template <class P> static auto obj(P&& p) -> decltype((void*) p.release()) { return (void*) p.release(); }
  static int call(Entry* e, void*, Value** v, Value*) {
    Args<A...> s; (void) s;
    if (!loads(s, v)) return 3;
    F& f = stored<F>(e->f);
    PYB_GUARD(e->make = obj(f(static_cast<A>(Get<I, A...>::get(s).x)...)))
  }
};

template <class... A> struct overload_cast_t {
  template <class R> constexpr auto operator()(R (*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...)) const -> decltype(f) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> decltype(f) { return f; }
};
template <class... A> static constexpr overload_cast_t<A...> overload_cast{};
static constexpr std::true_type const_{};

struct Attr {
  const char* n;
  template <class X> void operator=(const X& x) { Value* v = new Value; Conv<typename std::decay<const X>::type>::to(*v, x); table.attrname[table.nattr] = n; table.attr[table.nattr++] = v; }
};
struct Doc { template <class X> void operator=(const X&) {} };
struct module_ {
  Doc doc() { return Doc(); }
  Attr attr(const char* n) { Attr a = {n}; return a; }
  template <class F, class... X> module_& def(const char* name, F f, const X&... x) {
    typedef typename std::decay<F>::type G; G g = f;
    typedef typename Sig<G>::ret S;
    Entry& e = entry("", name, FUNCTION);
    e.nargs = Count<S>::n; store(e.f, g); e.call = &Fre<G, S, typename Mk<Count<S>::n>::t>::call; extras(e, x...);
    return *this;
  }
};
typedef module_ module;

template <class T, class... O> struct class_ {
  const char* cls;
  template <class... X> class_(const module_&, const char* name, const X&...) : cls(name) {}
  template <class... A, class... X> class_& def(InitT<A...>, const X&... x) {
    Entry& e = entry(cls, "__init__", INIT);
    e.nargs = sizeof...(A); e.call = &New<T, typename Mk<sizeof...(A)>::t, A...>::call; extras(e, x...);
    return *this;
  }
  template <class F, class... X> class_& def(InitF<F> i, const X&... x) {
    typedef typename std::decay<F>::type G; typedef typename Sig<G>::ret S;
    Entry& e = entry(cls, "__init__", INIT);
    e.nargs = Count<S>::n; store(e.f, (G) i.f); e.call = &NewF<T, G, S, typename Mk<Count<S>::n>::t>::call; extras(e, x...);
    return *this;
  }
  template <class F, class... X> class_& def(const char* name, F f, const X&... x) {
    typedef typename std::decay<F>::type G; G g = f;
    Entry& e = entry(cls, name, FUNCTION);
    e.nargs = Method<T, G>::n; store(e.f, g); e.call = &Method<T, G>::t::call; extras(e, x...);
    return *this;
  }
  template <class M, class C, class... X> class_& def_readwrite(const char* name, M C::*p, const X&...) {
    Entry& e = entry(cls, name, PROPERTY);
    store(e.g, p); e.get = &Field<T, M, C>::get; e.set = &Field<T, M, C>::set;
    return *this;
  }
  template <class M, class C, class... X> class_& def_readonly(const char* name, M C::*p, const X&...) {
    Entry& e = entry(cls, name, PROPERTY);
    store(e.g, p); e.get = &Field<T, M, C>::get;
    return *this;
  }
  template <class G> void getter(Entry& e, G g) { store(e.g, g); e.get = &Getter<T, G>::get; }
  template <class M, class C> void getter_field(Entry& e, M C::*p) { store(e.g, p); e.get = &Field<T, M, C>::get; }
  template <class G, class... X> class_& def_property_readonly(const char* name, G g, const X&...) {
    Entry& e = entry(cls, name, PROPERTY); getter(e, (typename std::decay<G>::type) g);
    return *this;
  }
  template <class G, class F, class... X> class_& def_property(const char* name, G g, F f, const X&...) {
    typedef typename std::decay<F>::type H; H h = f;
    Entry& e = entry(cls, name, PROPERTY); getter(e, (typename std::decay<G>::type) g);
    store(e.f, h); e.set = &Getter<T, H>::set;
    return *this;
  }
  template <class... X> class_& def(const X&...) { return *this; }
};
}
#define PYBIND11_MODULE(name, var, ...) static void pyb_define(pybind11::module_&); extern "C" void pyb_init() { pybind11::module_ m; pyb_define(m); } static void pyb_define(pybind11::module_& var)
