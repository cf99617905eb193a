#pragma once
#include "../nanobind.h"
#include <Eigen/Core>

namespace nanobind {
namespace detail {

template <class S> struct np_type;
#define NBSHIM_NP(T, s)                                                        \
  template <> struct np_type<T> {                                              \
    static constexpr const char *str = s;                                      \
  };
NBSHIM_NP(float, "<f4")
NBSHIM_NP(double, "<f8")
NBSHIM_NP(int8_t, "|i1")
NBSHIM_NP(uint8_t, "|u1")
NBSHIM_NP(int16_t, "<i2")
NBSHIM_NP(uint16_t, "<u2")
NBSHIM_NP(int32_t, "<i4")
NBSHIM_NP(uint32_t, "<u4")
NBSHIM_NP(int64_t, "<i8")
NBSHIM_NP(uint64_t, "<u8")
NBSHIM_NP(bool, "|b1")
#undef NBSHIM_NP

inline object numpy() {
  PyObject *m = PyImport_ImportModule("numpy");
  if (!m) throw python_error();
  return object::steal(m);
}
inline bool is_ndarray(PyObject *o) {
  static PyObject *cls = nullptr;
  if (!cls) cls = object(numpy().attr("ndarray")).release();
  int r = PyObject_IsInstance(o, cls);
  if (r < 0) PyErr_Clear();
  return r == 1;
}
template <class S> bool dtype_is(PyObject *arr) {
  object dt = object::borrow(arr).attr("dtype");
  object s = dt.attr("str");
  const char *c = PyUnicode_AsUTF8(s.ptr());
  return c && !std::strcmp(c, np_type<S>::str);
}
struct buffer {
  Py_buffer b{};
  bool ok = false;
  buffer(PyObject *o, int flags) { ok = PyObject_GetBuffer(o, &b, flags) == 0; if (!ok) PyErr_Clear(); }
  ~buffer() { if (ok) PyBuffer_Release(&b); }
  buffer(const buffer &) = delete;
};
// numpy.asarray(o, dtype=..., order=...) or null on failure
template <class S> object as_array(PyObject *o, const char *order) {
  object np = numpy();
  object f = np.attr("asarray");
  object args = object::steal(Py_BuildValue("(O)", o));
  object kw = object::steal(
      Py_BuildValue("{s:s,s:s}", "dtype", np_type<S>::str, "order", order));
  PyObject *r = PyObject_Call(f.ptr(), args.ptr(), kw.ptr());
  if (!r) { PyErr_Clear(); return object(); }
  return object::steal(r);
}
template <class S> object empty_array(Py_ssize_t n) {
  object np = numpy();
  PyObject *r = PyObject_CallMethod(np.ptr(), "empty", "(n)s", n, np_type<S>::str);
  if (!r) throw python_error();
  return object::steal(r);
}
template <class S> object array_1d(const S *data, Py_ssize_t n) {
  object a = empty_array<S>(n);
  buffer b(a.ptr(), PyBUF_WRITABLE);
  if (n) std::memcpy(b.b.buf, data, sizeof(S) * (size_t)n);
  return a;
}

template <class M> struct dense_caster {
  using S = typename M::Scalar;
  static constexpr bool is_vector = M::RowsAtCompileTime == 1 || M::ColsAtCompileTime == 1;
  M v;
  bool load(PyObject *o, bool convert) {
    if (!is_ndarray(o) && !convert) return false;
    const char *order = M::IsRowMajor ? "C" : "F";
    if (!convert && !dtype_is<S>(o)) return false;
    if (!is_ndarray(o)) {
      // Implicit conversion is limited to array-likes, as in nanobind.
      if (PyUnicode_Check(o) || PyDict_Check(o) || PyLong_Check(o) || PyFloat_Check(o) ||
          o == Py_None || PyObject_HasAttrString(o, "tocsr"))
        return false;
    }
    object a = as_array<S>(o, order);
    if (!a) return false;
    buffer b(a.ptr(), PyBUF_STRIDES);
    if (!b.ok) return false;
    if constexpr (is_vector) {
      if (b.b.ndim == 1) {
        v.resize(b.b.shape[0]);
        for (Py_ssize_t i = 0; i < b.b.shape[0]; i++)
          v.data()[i] = *(S *)((char *)b.b.buf + i * b.b.strides[0]);
        return true;
      }
    }
    if (b.b.ndim != 2) return false;
    if (M::RowsAtCompileTime != Eigen::Dynamic && M::RowsAtCompileTime != b.b.shape[0]) return false;
    if (M::ColsAtCompileTime != Eigen::Dynamic && M::ColsAtCompileTime != b.b.shape[1]) return false;
    v.resize(b.b.shape[0], b.b.shape[1]);
    for (Py_ssize_t i = 0; i < b.b.shape[0]; i++)
      for (Py_ssize_t j = 0; j < b.b.shape[1]; j++)
        v(i, j) = *(S *)((char *)b.b.buf + i * b.b.strides[0] + j * b.b.strides[1]);
    return true;
  }
  M &get() { return v; }
  static PyObject *to_py(const M &m) {
    object a = empty_array<S>((Py_ssize_t)m.size());
    {
      buffer b(a.ptr(), PyBUF_WRITABLE);
      if (m.size()) std::memcpy(b.b.buf, m.data(), sizeof(S) * (size_t)m.size());
    }
    return shape_it(a, m);
  }
  static PyObject *shape_it(object a, const M &m) {
    if (is_vector) return a.release();
    object f = a.attr("reshape");
    object args = object::steal(
        Py_BuildValue("((nn))", (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols()));
    object kw = object::steal(Py_BuildValue("{s:s}", "order", M::IsRowMajor ? "C" : "F"));
    return PyObject_Call(f.ptr(), args.ptr(), kw.ptr());
  }
  // View tied to the life time of `owner` (rv_policy::reference_internal).
  static PyObject *to_py_view(M &m, PyObject *owner) {
    if (m.size() == 0 || is_vector) return to_py(m);
    object types = object::steal(PyImport_ImportModule("types"));
    object ns_cls = types.attr("SimpleNamespace");
    object ns = object::steal(PyObject_CallNoArgs(ns_cls.ptr()));
    Py_ssize_t rs = M::IsRowMajor ? m.cols() * (Py_ssize_t)sizeof(S) : (Py_ssize_t)sizeof(S);
    Py_ssize_t cs = M::IsRowMajor ? (Py_ssize_t)sizeof(S) : m.rows() * (Py_ssize_t)sizeof(S);
    object iface = object::steal(Py_BuildValue(
        "{s:(KO),s:(nn),s:(nn),s:s,s:i}", "data", (unsigned long long)(uintptr_t)m.data(),
        Py_False, "shape", (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols(), "strides", rs, cs,
        "typestr", np_type<S>::str, "version", 3));
    PyObject_SetAttrString(ns.ptr(), "owner", owner);
    PyObject_SetAttrString(ns.ptr(), "__array_interface__", iface.ptr());
    return PyObject_CallMethod(numpy().ptr(), "asarray", "O", ns.ptr());
  }
};
template <class S, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Matrix<S, R, C, O, MR, MC>, void>
    : dense_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {};
template <class S, int R, int C, int O, int MR, int MC>
struct caster<Eigen::Array<S, R, C, O, MR, MC>, void>
    : dense_caster<Eigen::Array<S, R, C, O, MR, MC>> {};

// Writable Eigen::Ref<M>: no conversion; dtype must match, inner stride 1.
template <class M, int Opt, class Stride> struct caster<Eigen::Ref<M, Opt, Stride>, void> {
  using Ref = Eigen::Ref<M, Opt, Stride>;
  using Plain = std::remove_const_t<M>;
  using S = typename Plain::Scalar;
  static constexpr bool writable = !std::is_const_v<M>;
  std::optional<Ref> ref;
  object keep;
  std::unique_ptr<buffer> buf;
  bool load(PyObject *o, bool convert) {
    keep = object::borrow(o);
    if (!is_ndarray(o) || !dtype_is<S>(o)) {
      if (writable || !convert) return false;
      keep = as_array<S>(o, Plain::IsRowMajor ? "C" : "F");
      if (!keep) return false;
    }
    if (try_map()) return true;
    if (writable || !convert) return false;
    keep = as_array<S>(o, Plain::IsRowMajor ? "C" : "F");
    return keep && try_map();
  }
  bool try_map() {
    buf = std::make_unique<buffer>(keep.ptr(), PyBUF_STRIDES | (writable ? PyBUF_WRITABLE : 0));
    if (!buf->ok) return false;
    auto &b = buf->b;
    Py_ssize_t r, c, rs, cs;
    if constexpr (Plain::IsVectorAtCompileTime) {
      if (b.ndim != 1 || b.strides[0] != (Py_ssize_t)sizeof(S)) return false;
      ref.emplace(Eigen::Map<M>((S *)b.buf, b.shape[0]));
      return true;
    } else {
      if (b.ndim != 2) return false;
      r = b.shape[0];
      c = b.shape[1];
      rs = b.strides[0];
      cs = b.strides[1];
      Py_ssize_t inner = Plain::IsRowMajor ? cs : rs, outer = Plain::IsRowMajor ? rs : cs;
      Py_ssize_t ninner = Plain::IsRowMajor ? c : r, nouter = Plain::IsRowMajor ? r : c;
      Py_ssize_t sz = (Py_ssize_t)sizeof(S);
      if (ninner > 1 && inner != sz) return false;
      if (nouter <= 1) outer = ninner * sz;
      if (outer < 0 || outer % sz) return false;
      ref.emplace(Eigen::Map<M, 0, Eigen::OuterStride<>>((S *)b.buf, r, c,
                                                         Eigen::OuterStride<>(outer / sz)));
      return true;
    }
  }
  Ref &get() { return *ref; }
};
}  // namespace detail
}  // namespace nanobind
