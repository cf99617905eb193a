#pragma once
#include "dense.h"
#include <Eigen/SparseCore>

namespace nanobind {
namespace detail {
template <class S, int O, class I> struct caster<Eigen::SparseMatrix<S, O, I>, void> {
  using M = Eigen::SparseMatrix<S, O, I>;
  static constexpr bool row_major = M::IsRowMajor;
  M v;
  static object cls() {
    object sps = object::steal(PyImport_ImportModule("scipy.sparse"));
    return sps.attr(row_major ? "csr_matrix" : "csc_matrix");
  }
  bool load(PyObject *o, bool convert) {
    try {
      object type = cls();
      object obj = object::borrow(o);
      if ((PyObject *)Py_TYPE(o) != type.ptr()) {
        if (!convert) return false;
        PyObject *r = PyObject_CallFunctionObjArgs(type.ptr(), o, nullptr);
        if (!r) { PyErr_Clear(); return false; }
        obj = object::steal(r);
      }
      object srt = obj.attr("has_sorted_indices");
      if (PyObject_IsTrue(srt.ptr()) != 1) {
        PyObject *r = PyObject_CallMethod(obj.ptr(), "sort_indices", nullptr);
        if (!r) { PyErr_Clear(); return false; }
        Py_DECREF(r);
      }
      object data_o = obj.attr("data"), idx_o = obj.attr("indices"), ptr_o = obj.attr("indptr");
      if (!convert && !dtype_is<S>(data_o.ptr())) return false;
      object data = as_array<S>(data_o.ptr(), "C"), idx = as_array<I>(idx_o.ptr(), "C"),
             ptr = as_array<I>(ptr_o.ptr(), "C");
      if (!data || !idx || !ptr) return false;
      object shape = obj.attr("shape");
      Py_ssize_t rows = cast<Py_ssize_t>(object(shape[0])), cols = cast<Py_ssize_t>(object(shape[1]));
      buffer bd(data.ptr(), PyBUF_STRIDES), bi(idx.ptr(), PyBUF_STRIDES), bp(ptr.ptr(), PyBUF_STRIDES);
      if (!bd.ok || !bi.ok || !bp.ok) return false;
      Py_ssize_t nnz = ((const I *)bp.b.buf)[row_major ? rows : cols];
      v = Eigen::Map<const M>(rows, cols, nnz, (const I *)bp.b.buf, (const I *)bi.b.buf,
                              (const S *)bd.b.buf);
      return true;
    } catch (const python_error &) {
      PyErr_Clear();
      return false;
    }
  }
  M &get() { return v; }
  static PyObject *to_py(const M &m) {
    if (!m.isCompressed()) {
      PyErr_SetString(PyExc_ValueError,
                      "nanobind: unable to return an Eigen sparse matrix that is not in a "
                      "compressed format. Please call `.makeCompressed()` before returning "
                      "the value on the C++ end.");
      return nullptr;
    }
    object type = cls();
    object data = array_1d<S>(m.valuePtr(), (Py_ssize_t)m.nonZeros());
    object idx = array_1d<I>(m.innerIndexPtr(), (Py_ssize_t)m.nonZeros());
    object ptr = array_1d<I>(m.outerIndexPtr(), (Py_ssize_t)m.outerSize() + 1);
    object args = object::steal(Py_BuildValue(
        "((OOO)(nn))", data.ptr(), idx.ptr(), ptr.ptr(), (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols()));
    return PyObject_Call(type.ptr(), args.ptr(), nullptr);
  }
};
}  // namespace detail
}  // namespace nanobind
