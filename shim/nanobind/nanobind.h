// Minimal stand-in for nanobind (the real one is not installed in the offline
// sandbox).  It implements, on the plain Python C API, the subset of the
// nanobind surface that binding code of irspack uses (and a few neighbours),
// so that the *unmodified* C++ sources of /repo can be compiled and driven
// from the real Python package.  It contains no irspack logic.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace nanobind {

// ------------------------------------------------------------------ errors
struct python_error : std::exception {  // Python error indicator is set
  const char *what() const noexcept override { return "python error"; }
};
struct cast_error : std::runtime_error {
  cast_error() : std::runtime_error("std::bad_cast") {}
};
struct builtin_exception : std::runtime_error {
  PyObject *type;
  builtin_exception(PyObject *t, const char *w)
      : std::runtime_error(w ? w : ""), type(t) {}
};
#define NBSHIM_EXC(cls, py)                                                    \
  struct cls : builtin_exception {                                             \
    explicit cls(const char *w = nullptr) : builtin_exception(py, w) {}        \
  };
NBSHIM_EXC(value_error, PyExc_ValueError)
NBSHIM_EXC(type_error, PyExc_TypeError)
NBSHIM_EXC(index_error, PyExc_IndexError)
NBSHIM_EXC(key_error, PyExc_KeyError)
NBSHIM_EXC(attribute_error, PyExc_AttributeError)
#undef NBSHIM_EXC

namespace detail {
inline void translate_current_exception() {
  try {
    throw;
  } catch (const python_error &) {
  } catch (const builtin_exception &e) {
    PyErr_SetString(e.type, e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
  }
}
}  // namespace detail

// ---------------------------------------------------------------- policies
enum class rv_policy {
  automatic, automatic_reference, take_ownership, copy, move, reference,
  reference_internal, none, _clif_automatic
};
template <typename... Ts> struct call_guard {};
template <size_t A, size_t B> struct keep_alive {};
struct gil_scoped_acquire {
  PyGILState_STATE s;
  gil_scoped_acquire() : s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s); }
};
struct gil_scoped_release {
  PyThreadState *s;
  gil_scoped_release() : s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
struct is_arithmetic {};
struct is_flag {};
struct dynamic_attr {};
struct is_method {};
struct is_operator {};
struct kw_only {};
struct lock_self {};
struct is_final {};
struct sig { explicit sig(const char *) {} };

// ----------------------------------------------------------------- objects
class handle {
public:
  handle() = default;
  handle(PyObject *p) : p_(p) {}
  PyObject *ptr() const { return p_; }
  handle inc_ref() const { Py_XINCREF(p_); return *this; }
  handle dec_ref() const { Py_XDECREF(p_); return *this; }
  bool is_valid() const { return p_ != nullptr; }
  bool is_none() const { return p_ == Py_None; }
  bool is(handle o) const { return p_ == o.p_; }
  explicit operator bool() const { return p_ != nullptr; }

protected:
  PyObject *p_ = nullptr;
};
template <class T> struct caster_tag {};
class accessor;
class object : public handle {
public:
  object() = default;
  object(const object &o) : handle(o.p_) { Py_XINCREF(p_); }
  object(object &&o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  ~object() { Py_XDECREF(p_); }
  object &operator=(const object &o) {
    Py_XINCREF(o.p_);
    Py_XDECREF(p_);
    p_ = o.p_;
    return *this;
  }
  object &operator=(object &&o) noexcept {
    std::swap(p_, o.p_);
    return *this;
  }
  static object steal(PyObject *p) { object o; o.p_ = p; return o; }
  static object borrow(PyObject *p) { Py_XINCREF(p); return steal(p); }
  PyObject *release() { PyObject *p = p_; p_ = nullptr; return p; }
  accessor attr(const char *name) const;
  object operator[](size_t i) const {
    PyObject *r = PySequence_GetItem(p_, (Py_ssize_t)i);
    if (!r) throw python_error();
    return steal(r);
  }
};
#define NBSHIM_OBJ(cls, checkfn)                                               \
  class cls : public object {                                                  \
  public:                                                                      \
    cls() = default;                                                           \
    cls(const object &o) : object(o) {}                                        \
    cls(object &&o) : object(std::move(o)) {}                                  \
    static bool check_(PyObject *p) { return checkfn(p); }                     \
    size_t size() const { return (size_t)PyObject_Size(p_); }                  \
  };
NBSHIM_OBJ(tuple, PyTuple_Check)
NBSHIM_OBJ(list, PyList_Check)
NBSHIM_OBJ(dict, PyDict_Check)
NBSHIM_OBJ(str, PyUnicode_Check)
#undef NBSHIM_OBJ
template <class T> T steal(handle h) { return T(object::steal(h.ptr())); }
template <class T> T borrow(handle h) { return T(object::borrow(h.ptr())); }
inline object borrow(handle h) { return object::borrow(h.ptr()); }
inline object none() { return object::borrow(Py_None); }

// ----------------------------------------------------------------- casters
// A caster<T> provides: bool load(PyObject*, bool convert); T &get();
// static PyObject *to_py(const T &).  The primary template serves bound classes.
namespace detail {

template <class T> struct bound_type {
  inline static PyTypeObject *type = nullptr;
};
struct instance {
  PyObject_HEAD
  void *ptr;
  bool owned;
  bool alive;
  void (*destroy)(void *, bool alive);
};

template <class T> PyObject *alloc_instance(PyTypeObject *tp) {
  PyObject *self = tp->tp_alloc(tp, 0);
  if (!self) return nullptr;
  auto *in = (instance *)self;
  in->ptr = ::operator new(sizeof(T), std::align_val_t(alignof(T)));
  std::memset(in->ptr, 0, sizeof(T));
  in->owned = true;
  in->alive = false;
  in->destroy = [](void *p, bool alive) {
    if (alive) ((T *)p)->~T();
    ::operator delete(p, std::align_val_t(alignof(T)));
  };
  return self;
}

template <class T, class = void> struct caster {
  T *ptr = nullptr;
  bool load(PyObject *o, bool) {
    auto *tp = bound_type<T>::type;
    if (!tp || !PyObject_TypeCheck(o, tp)) return false;
    if (!((instance *)o)->alive) return false;
    ptr = (T *)((instance *)o)->ptr;
    return true;
  }
  T &get() { return *ptr; }
  template <class U> static PyObject *to_py(U &&v) {
    auto *tp = bound_type<T>::type;
    if (!tp) {
      PyErr_SetString(PyExc_TypeError, "unregistered C++ type returned");
      return nullptr;
    }
    PyObject *self = alloc_instance<T>(tp);
    if (!self) return nullptr;
    new (((instance *)self)->ptr) T(std::forward<U>(v));
    ((instance *)self)->alive = true;
    return self;
  }
};

template <> struct caster<bool, void> {
  bool v = false;
  bool load(PyObject *o, bool) {
    if (o == Py_True) { v = true; return true; }
    if (o == Py_False) { v = false; return true; }
    return false;
  }
  bool &get() { return v; }
  static PyObject *to_py(bool b) { return PyBool_FromLong(b); }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  T v{};
  bool load(PyObject *o, bool convert) {
    PyObject *l = nullptr;
    if (PyLong_Check(o)) {
      l = o;
      Py_INCREF(l);
    } else {
      if (!convert || PyFloat_Check(o)) return false;
      l = PyNumber_Index(o);
      if (!l) { PyErr_Clear(); return false; }
    }
    bool ok;
    if constexpr (std::is_signed_v<T>) {
      long long x = PyLong_AsLongLong(l);
      ok = !(x == -1 && PyErr_Occurred()) &&
           x >= (long long)std::numeric_limits<T>::min() &&
           x <= (long long)std::numeric_limits<T>::max();
      v = (T)x;
    } else {
      unsigned long long x = PyLong_AsUnsignedLongLong(l);
      ok = !(x == (unsigned long long)-1 && PyErr_Occurred()) &&
           x <= (unsigned long long)std::numeric_limits<T>::max();
      v = (T)x;
    }
    PyErr_Clear();
    Py_DECREF(l);
    return ok;
  }
  T &get() { return v; }
  static PyObject *to_py(T x) {
    if constexpr (std::is_signed_v<T>) return PyLong_FromLongLong((long long)x);
    else return PyLong_FromUnsignedLongLong((unsigned long long)x);
  }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  T v{};
  bool load(PyObject *o, bool convert) {
    double d;
    if (PyFloat_CheckExact(o)) {
      d = PyFloat_AS_DOUBLE(o);
    } else {
      if (!convert) return false;
      d = PyFloat_AsDouble(o);
      if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; }
    }
    v = (T)d;
    if (!convert && !std::isnan(d) && (double)v != d) return false;
    return true;
  }
  T &get() { return v; }
  static PyObject *to_py(T x) { return PyFloat_FromDouble((double)x); }
};

template <class T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  inline static PyObject *cls = nullptr;
  T v{};
  bool load(PyObject *o, bool) {
    if (!cls || PyObject_IsInstance(o, cls) != 1) { PyErr_Clear(); return false; }
    PyObject *val = PyObject_GetAttrString(o, "value");
    if (!val) { PyErr_Clear(); return false; }
    v = (T)PyLong_AsLongLong(val);
    Py_DECREF(val);
    return true;
  }
  T &get() { return v; }
  static PyObject *to_py(T x) {
    if (!cls) {
      PyErr_SetString(PyExc_TypeError, "unregistered enum");
      return nullptr;
    }
    return PyObject_CallFunction(cls, "L", (long long)x);
  }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
  T v;
  bool load(PyObject *o, bool) {
    if constexpr (std::is_same_v<T, handle>) {
      v = handle(o);
      return true;
    } else if constexpr (std::is_same_v<T, object>) {
      v = object::borrow(o);
      return true;
    } else {
      if (!T::check_(o)) return false;
      v = T(object::borrow(o));
      return true;
    }
  }
  T &get() { return v; }
  static PyObject *to_py(const T &x) { Py_XINCREF(x.ptr()); return x.ptr(); }
};

template <> struct caster<std::string, void> {
  std::string v;
  bool load(PyObject *o, bool) {
    Py_ssize_t n;
    if (!PyUnicode_Check(o)) return false;
    const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) { PyErr_Clear(); return false; }
    v.assign(s, (size_t)n);
    return true;
  }
  std::string &get() { return v; }
  static PyObject *to_py(const std::string &s) {
    return PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size());
  }
};
template <> struct caster<const char *, void> {
  static PyObject *to_py(const char *s) { return PyUnicode_FromString(s); }
};
template <> struct caster<std::nullptr_t, void> {
  static PyObject *to_py(std::nullptr_t) { Py_RETURN_NONE; }
};

template <class T> using intrinsic_t = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T> using caster_key_t =
    std::conditional_t<std::is_array_v<std::remove_reference_t<T>>, const char *,
                       intrinsic_t<T>>;

template <class T> PyObject *to_python(T &&v) {
  return caster<caster_key_t<T>>::to_py(std::forward<T>(v));
}

template <class A> decltype(auto) extract(caster<intrinsic_t<A>> &c) {
  if constexpr (std::is_lvalue_reference_v<A>) return static_cast<A>(c.get());
  else if constexpr (std::is_rvalue_reference_v<A>) return static_cast<A>(c.get());
  else return static_cast<intrinsic_t<A>>(c.get());
}

}  // namespace detail

template <class T> object cast_to_object(T &&v) {
  PyObject *p = detail::to_python(std::forward<T>(v));
  if (!p) throw python_error();
  return object::steal(p);
}
template <class T> detail::intrinsic_t<T> cast(handle h, bool convert = true) {
  detail::caster<detail::intrinsic_t<T>> c;
  if (!c.load(h.ptr(), convert)) throw cast_error();
  return detail::intrinsic_t<T>(c.get());
}
template <class T, class = std::enable_if_t<!std::is_base_of_v<handle, std::decay_t<T>>>>
object cast(T &&v, rv_policy = rv_policy::automatic) {
  return cast_to_object(std::forward<T>(v));
}
template <class... Ts> tuple make_tuple(Ts &&...vs) {
  object t = object::steal(PyTuple_New(sizeof...(Ts)));
  Py_ssize_t i = 0;
  auto put = [&](PyObject *p) {
    if (!p) throw python_error();
    PyTuple_SET_ITEM(t.ptr(), i++, p);
  };
  (put(detail::to_python(std::forward<Ts>(vs))), ...);
  return tuple(t);
}

class accessor {
public:
  accessor(PyObject *o, std::string n) : o_(o), n_(std::move(n)) {}
  template <class T> void operator=(T &&v) {
    PyObject *p = detail::to_python(std::forward<T>(v));
    if (!p) throw python_error();
    int rc = PyObject_SetAttrString(o_, n_.c_str(), p);
    Py_DECREF(p);
    if (rc) throw python_error();
  }
  operator object() const {
    PyObject *p = PyObject_GetAttrString(o_, n_.c_str());
    if (!p) throw python_error();
    return object::steal(p);
  }

private:
  PyObject *o_;
  std::string n_;
};
inline accessor object::attr(const char *name) const { return {p_, name}; }

// --------------------------------------------------------------- arguments
struct arg_v;
struct arg {
  const char *name;
  bool noconvert_ = false;
  bool none_ = false;
  constexpr explicit arg(const char *n = nullptr) : name(n) {}
  arg &noconvert(bool b = true) { noconvert_ = b; return *this; }
  arg &none(bool b = true) { none_ = b; return *this; }
  arg &sig(const char *) { return *this; }
  template <class T> arg_v operator=(T &&v) const;
};
struct arg_v : arg {
  object value;
  arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
};
template <class T> arg_v arg::operator=(T &&v) const {
  return arg_v(*this, cast_to_object(std::forward<T>(v)));
}
namespace literals {
inline arg operator""_a(const char *n, size_t) { return arg(n); }
}

// ------------------------------------------------------------ function glue
namespace detail {
struct arg_spec {
  std::string name;
  object def;
  bool noconvert = false;
};
struct overload {
  size_t nargs = 0;
  std::vector<arg_spec> specs;  // names of the trailing args (self has none)
  std::function<PyObject *(PyObject **args, bool convert, bool &loaded)> call;
};
struct func_record {
  std::string name;
  std::vector<overload> overloads;
  PyMethodDef def{};
};

inline PyObject *dispatch(PyObject *cap, PyObject *args, PyObject *kwargs) {
  auto *rec = (func_record *)PyCapsule_GetPointer(cap, "nbshim.func");
  if (!rec) return nullptr;
  Py_ssize_t npos = PyTuple_GET_SIZE(args);
  Py_ssize_t nkw = kwargs ? PyDict_Size(kwargs) : 0;
  for (int pass = (rec->overloads.size() == 1 ? 1 : 0); pass < 2; ++pass) {
    for (auto &ov : rec->overloads) {
      if ((size_t)npos > ov.nargs) continue;
      std::vector<PyObject *> buf(ov.nargs + 1, nullptr);
      for (Py_ssize_t i = 0; i < npos; i++) buf[i] = PyTuple_GET_ITEM(args, i);
      Py_ssize_t used = 0;
      bool ok = true;
      size_t off = ov.nargs - std::min(ov.nargs, ov.specs.size());
      for (size_t i = (size_t)npos; i < ov.nargs && ok; i++) {
        PyObject *v = nullptr;
        if (i >= off) {
          auto &sp = ov.specs[i - off];
          if (kwargs && !sp.name.empty()) {
            v = PyDict_GetItemString(kwargs, sp.name.c_str());
            if (v) used++;
          }
          if (!v) v = sp.def.ptr();
        }
        if (!v) ok = false;
        buf[i] = v;
      }
      if (!ok || used != nkw) continue;
      bool loaded = false;
      PyObject *r;
      try {
        r = ov.call(buf.data(), pass == 1, loaded);
      } catch (...) {
        translate_current_exception();
        return nullptr;
      }
      if (loaded) return r;
    }
  }
  PyErr_Format(PyExc_TypeError,
               "%s(): incompatible function arguments.", rec->name.c_str());
  return nullptr;
}

inline PyObject *make_function(PyObject *scope, const char *name, overload ov,
                               PyObject *modname, bool method) {
  // Append to an existing record if the scope already defines this name.
  PyObject *key = PyUnicode_FromFormat("__nbshim_%s", name);
  PyObject *d = PyObject_GetAttrString(scope, "__dict__");
  PyObject *cap = d ? PyObject_GetItem(d, key) : nullptr;
  PyErr_Clear();
  Py_XDECREF(d);
  if (cap) {
    auto *rec = (func_record *)PyCapsule_GetPointer(cap, "nbshim.func");
    rec->overloads.push_back(std::move(ov));
    Py_DECREF(cap);
    Py_DECREF(key);
    return nullptr;
  }
  auto *rec = new func_record;
  rec->name = name;
  rec->overloads.push_back(std::move(ov));
  rec->def.ml_name = rec->name.c_str();
  rec->def.ml_meth = (PyCFunction)(void (*)(void))dispatch;
  rec->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
  cap = PyCapsule_New(rec, "nbshim.func", nullptr);
  PyObject *f = PyCFunction_NewEx(&rec->def, cap, modname);
  if (method) {
    PyObject *im = PyInstanceMethod_New(f);
    Py_DECREF(f);
    f = im;
  }
  PyObject_SetAttr(scope, key, cap);
  PyObject_SetAttrString(scope, name, f);
  Py_DECREF(cap);
  Py_DECREF(key);
  return f;
}

inline void add_extra(overload &ov, const arg_v &a) {
  ov.specs.push_back({a.name ? a.name : "", a.value, a.noconvert_});
}
inline void add_extra(overload &ov, const arg &a) {
  ov.specs.push_back({a.name ? a.name : "", object(), a.noconvert_});
}
template <class T> void add_extra(overload &, const T &) {}  // docs, policies, ...

template <class R, class V> PyObject *return_value(V &&v, PyObject **args, size_t n) {
  using D = intrinsic_t<R>;
  if constexpr (std::is_lvalue_reference_v<R> && std::is_class_v<D>) {
    if (bound_type<D>::type) {
      for (size_t i = 0; i < n; i++)
        if (PyObject_TypeCheck(args[i], bound_type<D>::type) &&
            ((instance *)args[i])->ptr == (void *)&v) {
          Py_INCREF(args[i]);
          return args[i];
        }
    }
    return caster<D>::to_py(static_cast<const D &>(v));
  } else if constexpr (std::is_pointer_v<D> && !std::is_same_v<D, const char *>) {
    if (!v) Py_RETURN_NONE;
    using P = std::remove_cv_t<std::remove_pointer_t<D>>;
    return caster<P>::to_py(static_cast<const P &>(*v));
  } else {
    return caster<D>::to_py(std::forward<V>(v));
  }
}

template <class F, class R, class... A, size_t... I>
overload make_overload(F f, std::index_sequence<I...>) {
  overload ov;
  ov.nargs = sizeof...(A);
  ov.call = [f](PyObject **args, bool convert, bool &loaded) -> PyObject * {
    std::tuple<caster<intrinsic_t<A>>...> cs;
    bool ok = (std::get<I>(cs).load(args[I], convert) && ...);
    (void)args;
    (void)convert;
    if (!ok) return nullptr;
    loaded = true;
    if constexpr (std::is_void_v<R>) {
      f(extract<A>(std::get<I>(cs))...);
      Py_RETURN_NONE;
    } else {
      return return_value<R>(f(extract<A>(std::get<I>(cs))...), args, sizeof...(A));
    }
  };
  return ov;
}

template <class F, class Sig> struct sig_of;
template <class T> struct fn_traits : fn_traits<decltype(&T::operator())> {};
template <class R, class... A> struct fn_traits<R (*)(A...)> {
  template <class F> static overload make(F f) {
    return make_overload<F, R, A...>(f, std::index_sequence_for<A...>{});
  }
};
template <class R, class... A> struct fn_traits<R (*)(A...) noexcept>
    : fn_traits<R (*)(A...)> {};
template <class C, class R, class... A> struct fn_traits<R (C::*)(A...) const>
    : fn_traits<R (*)(A...)> {};
template <class C, class R, class... A> struct fn_traits<R (C::*)(A...)>
    : fn_traits<R (*)(A...)> {};
template <class C, class R, class... A> struct fn_traits<R (C::*)(A...) const noexcept>
    : fn_traits<R (*)(A...)> {};
template <class C, class R, class... A> struct fn_traits<R (C::*)(A...) noexcept>
    : fn_traits<R (*)(A...)> {};

template <class F> overload wrap(F f) {
  using D = std::decay_t<F>;
  if constexpr (std::is_pointer_v<D>) return fn_traits<D>::make(f);
  else return fn_traits<decltype(&D::operator())>::make(f);
}
template <class Self, class R, class C, class... A>
overload wrap_method(R (C::*f)(A...)) {
  return wrap([f](Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class Self, class R, class C, class... A>
overload wrap_method(R (C::*f)(A...) const) {
  return wrap([f](const Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class Self, class R, class C, class... A>
overload wrap_method(R (C::*f)(A...) noexcept) {
  return wrap([f](Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class Self, class R, class C, class... A>
overload wrap_method(R (C::*f)(A...) const noexcept) {
  return wrap([f](const Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class Self, class F,
          class = std::enable_if_t<!std::is_member_function_pointer_v<std::decay_t<F>>>>
overload wrap_method(F f) {
  return wrap(f);
}
}  // namespace detail

// ------------------------------------------------------------------ module
class module_ : public object {
public:
  module_() = default;
  module_(const object &o) : object(o) {}
  static module_ import_(const char *n) {
    PyObject *m = PyImport_ImportModule(n);
    if (!m) throw python_error();
    return module_(object::steal(m));
  }
  accessor doc() { return attr("__doc__"); }
  template <class F, class... E> module_ &def(const char *name, F &&f, const E &...e) {
    detail::overload ov = detail::wrap(std::forward<F>(f));
    (detail::add_extra(ov, e), ...);
    object nm = attr("__name__");
    Py_XDECREF(detail::make_function(ptr(), name, std::move(ov), nm.ptr(), false));
    return *this;
  }
};

// ------------------------------------------------------------------ classes
template <class... A> struct init {};
template <class A> struct init_implicit {};

template <class T, class... Bases> class class_ : public object {
public:
  template <class... E>
  class_(handle scope, const char *name, const E &...) {
    object modname = object::borrow(scope.ptr()).attr("__name__");
    const char *mn = PyUnicode_AsUTF8(modname.ptr());
    auto *full = new std::string(std::string(mn) + "." + name);
    static PyType_Slot slots[] = {
        {Py_tp_new, (void *)(newfunc)&class_::tp_new},
        {Py_tp_dealloc, (void *)(destructor)&class_::tp_dealloc},
        {0, nullptr}};
    PyType_Spec spec{full->c_str(), (int)sizeof(detail::instance), 0,
                     Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    PyObject *tp = PyType_FromSpec(&spec);
    if (!tp) throw python_error();
    p_ = tp;
    Py_INCREF(tp);
    detail::bound_type<T>::type = (PyTypeObject *)tp;
    PyObject_SetAttrString(scope.ptr(), name, tp);
  }

  template <class... A, class... E> class_ &def(init<A...>, const E &...e) {
    auto ov = init_overload<A...>(std::index_sequence_for<A...>{});
    (detail::add_extra(ov, e), ...);
    return add("__init__", std::move(ov));
  }
  template <class F, class... E> class_ &def(const char *name, F &&f, const E &...e) {
    detail::overload ov = detail::wrap_method<T>(std::forward<F>(f));
    (detail::add_extra(ov, e), ...);
    if (!std::strcmp(name, "__setstate__")) {
      // The bound function placement-constructs into raw storage.
      auto inner = ov.call;
      ov.call = [inner](PyObject **args, bool conv, bool &loaded) -> PyObject * {
        auto *in = (detail::instance *)args[0];
        bool was = in->alive;
        in->alive = true;
        PyObject *r;
        try {
          r = inner(args, conv, loaded);
        } catch (...) {
          in->alive = was;
          throw;
        }
        if (!loaded || !r) in->alive = was;
        return r;
      };
    }
    return add(name, std::move(ov));
  }
  template <class F, class... E> class_ &def_static(const char *name, F &&f, const E &...e) {
    detail::overload ov = detail::wrap(std::forward<F>(f));
    (detail::add_extra(ov, e), ...);
    object modname = attr("__module__");
    PyObject *fn = detail::make_function(ptr(), name, std::move(ov), modname.ptr(), false);
    if (fn) {
      PyObject *sm = PyStaticMethod_New(fn);
      PyObject_SetAttrString(ptr(), name, sm);
      Py_XDECREF(sm);
      Py_DECREF(fn);
    }
    return *this;
  }
  template <class C, class D, class... E>
  class_ &def_rw(const char *name, D C::*p, const E &...) {
    property(name, getter_for(p), setter_for(p));
    return *this;
  }
  template <class C, class D, class... E>
  class_ &def_ro(const char *name, D C::*p, const E &...) {
    property(name, getter_for(p), detail::overload{});
    return *this;
  }
  template <class G, class... E>
  class_ &def_prop_ro(const char *name, G &&g, const E &...) {
    property(name, detail::wrap_method<T>(std::forward<G>(g)), detail::overload{});
    return *this;
  }
  template <class G, class S, class... E>
  class_ &def_prop_rw(const char *name, G &&g, S &&s, const E &...) {
    property(name, detail::wrap_method<T>(std::forward<G>(g)),
             detail::wrap_method<T>(std::forward<S>(s)));
    return *this;
  }

private:
  static PyObject *tp_new(PyTypeObject *tp, PyObject *, PyObject *) {
    return detail::alloc_instance<T>(tp);
  }
  static void tp_dealloc(PyObject *self) {
    auto *in = (detail::instance *)self;
    PyTypeObject *tp = Py_TYPE(self);
    if (in->owned && in->ptr) in->destroy(in->ptr, in->alive);
    tp->tp_free(self);
    Py_DECREF(tp);
  }
  class_ &add(const char *name, detail::overload ov) {
    object modname = attr("__module__");
    Py_XDECREF(detail::make_function(ptr(), name, std::move(ov), modname.ptr(), true));
    return *this;
  }
  template <class... A, size_t... I>
  static detail::overload init_overload(std::index_sequence<I...>) {
    detail::overload ov;
    ov.nargs = sizeof...(A) + 1;
    ov.call = [](PyObject **args, bool convert, bool &loaded) -> PyObject * {
      auto *tp = detail::bound_type<T>::type;
      if (!PyObject_TypeCheck(args[0], tp)) return nullptr;
      std::tuple<detail::caster<detail::intrinsic_t<A>>...> cs;
      bool ok = (std::get<I>(cs).load(args[I + 1], convert) && ...);
      (void)convert;
      if (!ok) return nullptr;
      loaded = true;
      auto *in = (detail::instance *)args[0];
      if (in->alive) {
        ((T *)in->ptr)->~T();
        in->alive = false;
      }
      if constexpr (std::is_constructible_v<T, A...>)
        new (in->ptr) T(detail::extract<A>(std::get<I>(cs))...);
      else
        new (in->ptr) T{detail::extract<A>(std::get<I>(cs))...};
      in->alive = true;
      Py_RETURN_NONE;
    };
    return ov;
  }
  template <class C, class D> static detail::overload getter_for(D C::*p) {
    detail::overload ov;
    ov.nargs = 1;
    ov.call = [p](PyObject **args, bool, bool &loaded) -> PyObject * {
      detail::caster<T> c;
      if (!c.load(args[0], false)) return nullptr;
      loaded = true;
      return view_or_copy<D>(c.get().*p, args[0], 0);
    };
    return ov;
  }
  template <class D>
  static auto view_or_copy(D &v, PyObject *owner, int)
      -> decltype(detail::caster<detail::intrinsic_t<D>>::to_py_view(v, owner)) {
    return detail::caster<detail::intrinsic_t<D>>::to_py_view(v, owner);
  }
  template <class D> static PyObject *view_or_copy(D &v, PyObject *, long) {
    return detail::caster<detail::intrinsic_t<D>>::to_py(v);
  }
  template <class C, class D> static detail::overload setter_for(D C::*p) {
    return detail::wrap([p](T &s, const D &v) { s.*p = v; });
  }
  void property(const char *name, detail::overload g, detail::overload s) {
    std::string gn = std::string("__get_") + name, sn = std::string("__set_") + name;
    object modname = attr("__module__");
    PyObject *gf =
        detail::make_function(ptr(), gn.c_str(), std::move(g), modname.ptr(), false);
    PyObject *sf = nullptr;
    if (s.call)
      sf = detail::make_function(ptr(), sn.c_str(), std::move(s), modname.ptr(), false);
    PyObject *prop = PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, gf,
                                                  sf ? sf : Py_None, nullptr);
    if (!prop) throw python_error();
    PyObject_SetAttrString(ptr(), name, prop);
    Py_XDECREF(prop);
    Py_XDECREF(gf);
    Py_XDECREF(sf);
  }
};

template <class T> class enum_ : public object {
public:
  template <class... E> enum_(handle scope, const char *name, const E &...)
      : scope_(scope.ptr()), name_(name) {
    members_ = object::steal(PyDict_New());
    rebuild();
  }
  template <class... E> enum_ &value(const char *n, T v, const E &...) {
    PyObject *i = PyLong_FromLongLong((long long)v);
    PyDict_SetItemString(members_.ptr(), n, i);
    Py_DECREF(i);
    rebuild();
    return *this;
  }
  enum_ &export_values() {
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(members_.ptr(), &pos, &k, &v)) {
      PyObject *m = PyObject_GetAttr(p_, k);
      PyObject_SetAttr(scope_, k, m);
      Py_XDECREF(m);
    }
    return *this;
  }

private:
  void rebuild() {
    object en = object::steal(PyImport_ImportModule("enum"));
    object cls = en.attr("Enum");
    object modname = object::borrow(scope_).attr("__name__");
    object args = object::steal(Py_BuildValue("(sO)", name_.c_str(), members_.ptr()));
    object kw = object::steal(Py_BuildValue("{s:O}", "module", modname.ptr()));
    PyObject *r = PyObject_Call(cls.ptr(), args.ptr(), kw.ptr());
    if (!r) throw python_error();
    Py_XDECREF(p_);
    p_ = r;
    Py_INCREF(r);
    Py_XDECREF(detail::caster<T>::cls);
    detail::caster<T>::cls = r;
    PyObject_SetAttrString(scope_, name_.c_str(), r);
  }
  PyObject *scope_;
  std::string name_;
  object members_;
};

// ----------------------------------------------------------- STL containers
namespace detail {
template <class T, class A> struct caster<std::vector<T, A>, void> {
  std::vector<T, A> v;
  bool load(PyObject *o, bool convert) {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || PyDict_Check(o)) return false;
    if (!PySequence_Check(o)) return false;
    object seq = object::steal(PySequence_Fast(o, "sequence expected"));
    if (!seq) { PyErr_Clear(); return false; }
    Py_ssize_t n = PySequence_Fast_GET_SIZE(seq.ptr());
    v.clear();
    v.reserve((size_t)n);
    for (Py_ssize_t i = 0; i < n; i++) {
      caster<T> c;
      if (!c.load(PySequence_Fast_GET_ITEM(seq.ptr(), i), convert)) return false;
      v.push_back(c.get());
    }
    return true;
  }
  std::vector<T, A> &get() { return v; }
  static PyObject *to_py(const std::vector<T, A> &x) {
    object l = object::steal(PyList_New((Py_ssize_t)x.size()));
    Py_ssize_t i = 0;
    for (const auto &e : x) {
      PyObject *p = caster<T>::to_py((const T &)e);
      if (!p) return nullptr;
      PyList_SET_ITEM(l.ptr(), i++, p);
    }
    return l.release();
  }
};
template <class A, class B> struct caster<std::pair<A, B>, void> {
  std::pair<A, B> v;
  bool load(PyObject *o, bool convert) {
    if (!PySequence_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
    object a = object::steal(PySequence_GetItem(o, 0)),
           b = object::steal(PySequence_GetItem(o, 1));
    caster<A> ca;
    caster<B> cb;
    if (!ca.load(a.ptr(), convert) || !cb.load(b.ptr(), convert)) return false;
    v = std::pair<A, B>(ca.get(), cb.get());
    return true;
  }
  std::pair<A, B> &get() { return v; }
  static PyObject *to_py(const std::pair<A, B> &x) {
    PyObject *a = caster<intrinsic_t<A>>::to_py(x.first);
    if (!a) return nullptr;
    PyObject *b = caster<intrinsic_t<B>>::to_py(x.second);
    if (!b) { Py_DECREF(a); return nullptr; }
    PyObject *t = PyTuple_New(2);
    PyTuple_SET_ITEM(t, 0, a);
    PyTuple_SET_ITEM(t, 1, b);
    return t;
  }
};
template <class... Ts> struct caster<std::tuple<Ts...>, void> {
  std::tuple<caster<Ts>...> cs;
  std::optional<std::tuple<Ts...>> v;
  bool load(PyObject *o, bool convert) {
    return load_(o, convert, std::index_sequence_for<Ts...>{});
  }
  template <size_t... I> bool load_(PyObject *o, bool convert, std::index_sequence<I...>) {
    if (!PySequence_Check(o) || PySequence_Size(o) != (Py_ssize_t)sizeof...(Ts)) {
      PyErr_Clear();
      return false;
    }
    std::vector<object> items;
    for (size_t i = 0; i < sizeof...(Ts); i++)
      items.push_back(object::steal(PySequence_GetItem(o, (Py_ssize_t)i)));
    if (!(std::get<I>(cs).load(items[I].ptr(), convert) && ...)) return false;
    v.emplace(std::get<I>(cs).get()...);
    return true;
  }
  std::tuple<Ts...> &get() { return *v; }
  static PyObject *to_py(const std::tuple<Ts...> &x) {
    return std::apply(
        [](const auto &...e) -> PyObject * {
          object t = object::steal(PyTuple_New(sizeof...(Ts)));
          Py_ssize_t i = 0;
          bool ok = true;
          auto put = [&](PyObject *p) {
            if (!p) ok = false;
            PyTuple_SET_ITEM(t.ptr(), i++, p);
          };
          (put(to_python(e)), ...);
          return ok ? t.release() : nullptr;
        },
        x);
  }
};
template <class M> struct map_caster {
  M v;
  bool load(PyObject *o, bool convert) {
    if (!PyDict_Check(o)) return false;
    PyObject *k, *e;
    Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &e)) {
      caster<typename M::key_type> ck;
      caster<typename M::mapped_type> ce;
      if (!ck.load(k, convert) || !ce.load(e, convert)) return false;
      v.emplace(ck.get(), ce.get());
    }
    return true;
  }
  M &get() { return v; }
  static PyObject *to_py(const M &x) {
    object d = object::steal(PyDict_New());
    for (const auto &kv : x) {
      object k = object::steal(to_python(kv.first)), e = object::steal(to_python(kv.second));
      if (!k || !e) return nullptr;
      PyDict_SetItem(d.ptr(), k.ptr(), e.ptr());
    }
    return d.release();
  }
};
template <class K, class V, class... R> struct caster<std::map<K, V, R...>, void>
    : map_caster<std::map<K, V, R...>> {};
template <class K, class V, class... R> struct caster<std::unordered_map<K, V, R...>, void>
    : map_caster<std::unordered_map<K, V, R...>> {};
template <class S> struct set_caster {
  S v;
  bool load(PyObject *o, bool convert) {
    if (!PyAnySet_Check(o)) return false;
    object it = object::steal(PyObject_GetIter(o));
    while (PyObject *e = PyIter_Next(it.ptr())) {
      caster<typename S::value_type> c;
      bool ok = c.load(e, convert);
      Py_DECREF(e);
      if (!ok) return false;
      v.insert(c.get());
    }
    return true;
  }
  S &get() { return v; }
  static PyObject *to_py(const S &x) {
    object s = object::steal(PySet_New(nullptr));
    for (const auto &e : x) {
      object k = object::steal(to_python(e));
      if (!k) return nullptr;
      PySet_Add(s.ptr(), k.ptr());
    }
    return s.release();
  }
};
template <class K, class... R> struct caster<std::set<K, R...>, void>
    : set_caster<std::set<K, R...>> {};
template <class K, class... R> struct caster<std::unordered_set<K, R...>, void>
    : set_caster<std::unordered_set<K, R...>> {};
template <class T> struct caster<std::optional<T>, void> {
  std::optional<T> v;
  bool load(PyObject *o, bool convert) {
    if (o == Py_None) { v.reset(); return true; }
    caster<T> c;
    if (!c.load(o, convert)) return false;
    v.emplace(c.get());
    return true;
  }
  std::optional<T> &get() { return v; }
  static PyObject *to_py(const std::optional<T> &x) {
    if (!x) Py_RETURN_NONE;
    return to_python(*x);
  }
};
template <class... Ts> struct caster<std::variant<Ts...>, void> {
  std::variant<Ts...> v;
  template <class T> bool try_one(PyObject *o, bool convert) {
    caster<T> c;
    if (!c.load(o, convert)) return false;
    v = T(c.get());
    return true;
  }
  bool load(PyObject *o, bool convert) {
    if ((try_one<Ts>(o, false) || ...)) return true;
    return convert && (try_one<Ts>(o, true) || ...);
  }
  std::variant<Ts...> &get() { return v; }
  static PyObject *to_py(const std::variant<Ts...> &x) {
    return std::visit([](const auto &e) { return to_python(e); }, x);
  }
};
template <> struct caster<std::monostate, void> {
  std::monostate v;
  bool load(PyObject *o, bool) { return o == Py_None; }
  std::monostate &get() { return v; }
  static PyObject *to_py(std::monostate) { Py_RETURN_NONE; }
};
}  // namespace detail
}  // namespace nanobind

#define NB_MODULE(name, variable)                                              \
  static void nbshim_init_##name(nanobind::module_ &);                         \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,       \
                              nullptr, nullptr, nullptr, nullptr, nullptr};    \
    PyObject *m = PyModule_Create(&def);                                       \
    if (!m) return nullptr;                                                    \
    try {                                                                      \
      nanobind::module_ mod(nanobind::object::borrow(m));                      \
      nbshim_init_##name(mod);                                                 \
    } catch (...) {                                                            \
      nanobind::detail::translate_current_exception();                         \
      Py_DECREF(m);                                                            \
      return nullptr;                                                          \
    }                                                                          \
    return m;                                                                  \
  }                                                                            \
  static void nbshim_init_##name(                                              \
      [[maybe_unused]] nanobind::module_ &variable)
