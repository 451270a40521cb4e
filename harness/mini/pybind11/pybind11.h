// A stand-in for the part of pybind11 that the bindings of this repository
// use (third_party/pybind11 is an empty submodule and nothing can be fetched).
// The rules it follows are those of pybind11 2.13: two passes over the
// overloads (without, then with conversions), exceptions translated to the
// same Python exceptions, the same conversions of arrays, None accepted for
// pointers and refused for references.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL vp_numpy_api
#ifndef VP_NUMPY_OWNER
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

#include <Eigen/Core>
#include <complex>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t = std::size_t;

// ---------------------------------------------------------------- objects --
class object;

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : p_(p) {}
  auto ptr() const -> PyObject* { return p_; }
  auto inc_ref() const -> const handle& { Py_XINCREF(p_); return *this; }
  auto dec_ref() const -> const handle& { Py_XDECREF(p_); return *this; }
  auto is_none() const -> bool { return p_ == Py_None; }
  auto is(const handle& o) const -> bool { return p_ == o.p_; }
  explicit operator bool() const { return p_ != nullptr; }
  template <class T> auto cast() const -> T;
  template <class... A> auto operator()(A&&... a) const -> object;
  inline auto attr(const char* name) const -> object;
  inline auto get_type() const -> handle { return reinterpret_cast<PyObject*>(Py_TYPE(p_)); }

 protected:
  PyObject* p_{nullptr};
};

/// The Python error that is set, taken as a C++ exception
class error_already_set : public std::exception {
 public:
  error_already_set() {
    PyObject *t, *v, *b;
    PyErr_Fetch(&t, &v, &b);
    PyErr_NormalizeException(&t, &v, &b);
    t_ = std::shared_ptr<PyObject>(t, drop);
    v_ = std::shared_ptr<PyObject>(v, drop);
    b_ = std::shared_ptr<PyObject>(b, drop);
  }
  auto what() const noexcept -> const char* override { return "Python error"; }
  void restore() const {
    Py_XINCREF(t_.get());
    Py_XINCREF(v_.get());
    Py_XINCREF(b_.get());
    PyErr_Restore(t_.get(), v_.get(), b_.get());
  }

 private:
  static void drop(PyObject* p) { Py_XDECREF(p); }
  std::shared_ptr<PyObject> t_, v_, b_;
};

class object : public handle {
 public:
  object() = default;
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.p_ = nullptr; }
  ~object() { dec_ref(); }
  auto operator=(const object& o) -> object& { object t(o); std::swap(p_, t.p_); return *this; }
  auto operator=(object&& o) noexcept -> object& { std::swap(p_, o.p_); return *this; }
  auto release() -> handle { handle h(p_); p_ = nullptr; return h; }
  static auto steal(PyObject* p) -> object {
    if (p == nullptr) throw error_already_set();
    object o;
    o.p_ = p;
    return o;
  }
  static auto borrow(PyObject* p) -> object { Py_XINCREF(p); object o; o.p_ = p; return o; }
  static auto coerce(PyObject*) -> object { return {}; }  // no implicit conversion
};

auto handle::attr(const char* name) const -> object { return object::steal(PyObject_GetAttrString(p_, name)); }

template <class T>
auto reinterpret_borrow(handle h) -> T { T t; static_cast<object&>(t) = object::borrow(h.ptr()); return t; }

class str : public object {
 public:
  str() = default;
  explicit str(handle h) : object(steal(PyObject_Str(h.ptr()))) {}
  str(const char* s) : object(steal(PyUnicode_FromString(s))) {}
  str(const std::string& s) : object(steal(PyUnicode_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())))) {}
  operator std::string() const {
    Py_ssize_t n;
    auto* s = PyUnicode_AsUTF8AndSize(p_, &n);
    if (s == nullptr) throw error_already_set();
    return {s, static_cast<size_t>(n)};
  }
  static auto check(PyObject* p) -> bool { return PyUnicode_Check(p); }
};

class bytes : public object {
 public:
  bytes() = default;
  bytes(const char* p, size_t n) : object(steal(PyBytes_FromStringAndSize(p, static_cast<Py_ssize_t>(n)))) {}
  operator std::string() const {
    char* p = nullptr;
    Py_ssize_t n = 0;
    if (PyBytes_AsStringAndSize(p_, &p, &n) != 0) throw error_already_set();
    return {p, static_cast<size_t>(n)};
  }
  explicit bytes(const std::string& s) : object(steal(PyBytes_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())))) {}
  static auto check(PyObject* p) -> bool { return PyBytes_Check(p); }
};

#define VP_OBJECT(cls, what)                                              \
  cls() = default;                                                        \
  cls(const object& o) : object(o) {                                      \
    if (!check(p_)) throw std::invalid_argument("not " what);             \
  }
class none : public object {
 public:
  none() : object(borrow(Py_None)) {}
  static auto check(PyObject* p) -> bool { return p == Py_None; }
};
class bool_ : public object {
 public:
  VP_OBJECT(bool_, "a bool")
  explicit bool_(bool b) : object(borrow(b ? Py_True : Py_False)) {}
  operator bool() const { return p_ == Py_True; }
  static auto check(PyObject* p) -> bool { return PyBool_Check(p); }
};
class int_ : public object {
 public:
  VP_OBJECT(int_, "an int")
  template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
  int_(T v) : object(steal(PyLong_FromLongLong(static_cast<long long>(v)))) {}
  template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
  operator T() const {
    auto v = PyLong_AsLongLong(p_);
    if (v == -1 && PyErr_Occurred()) throw error_already_set();
    return static_cast<T>(v);
  }
  static auto check(PyObject* p) -> bool { return PyLong_Check(p); }
};
class float_ : public object {
 public:
  VP_OBJECT(float_, "a float")
  float_(double v) : object(steal(PyFloat_FromDouble(v))) {}
  operator double() const { return PyFloat_AsDouble(p_); }
  static auto check(PyObject* p) -> bool { return PyFloat_Check(p); }
};
class iterator {
 public:
  iterator() = default;
  explicit iterator(object it) : it_(std::move(it)) { next(); }
  auto operator*() const -> handle { return value_; }
  auto operator++() -> iterator& { next(); return *this; }
  auto operator!=(const iterator& o) const -> bool { return value_.ptr() != o.value_.ptr(); }
  auto operator==(const iterator& o) const -> bool { return !(*this != o); }

 private:
  void next() {
    auto* v = PyIter_Next(it_.ptr());
    if (v == nullptr && PyErr_Occurred()) throw error_already_set();
    value_ = v != nullptr ? object::steal(v) : object();
  }
  object it_, value_;
};
template <class Key>
class accessor;
class sequence : public object {
 public:
  VP_OBJECT(sequence, "a sequence")
  auto size() const -> size_t { return static_cast<size_t>(PySequence_Size(p_)); }
  inline auto operator[](size_t i) const -> object { return steal(PySequence_GetItem(p_, static_cast<Py_ssize_t>(i))); }
  auto begin() const -> iterator { return iterator(steal(PyObject_GetIter(p_))); }
  auto end() const -> iterator { return {}; }
  auto empty() const -> bool { return size() == 0; }
  static auto check(PyObject* p) -> bool { return PySequence_Check(p) != 0; }
};
class list : public object {
 public:
  list(const object& o) : object(PyList_Check(o.ptr()) ? o : steal(PySequence_List(o.ptr()))) {}
  explicit list(size_t n = 0) : object(steal(PyList_New(static_cast<Py_ssize_t>(n)))) {}
  template <class T> inline void append(T&& v) const;
  auto size() const -> size_t { return static_cast<size_t>(PyList_GET_SIZE(p_)); }
  auto operator[](size_t i) const -> object { return borrow(PyList_GetItem(p_, static_cast<Py_ssize_t>(i))); }
  auto begin() const -> iterator { return iterator(steal(PyObject_GetIter(p_))); }
  auto end() const -> iterator { return {}; }
  auto empty() const -> bool { return size() == 0; }
  static auto check(PyObject* p) -> bool { return PyList_Check(p); }
};
class tuple : public object {
 public:
  tuple(const object& o) : object(PyTuple_Check(o.ptr()) ? o : steal(PySequence_Tuple(o.ptr()))) {}
  explicit tuple(size_t n = 0) : object(steal(PyTuple_New(static_cast<Py_ssize_t>(n)))) {}
  auto size() const -> size_t { return static_cast<size_t>(PyTuple_GET_SIZE(p_)); }
  auto operator[](size_t i) const -> object {
    auto* v = PyTuple_GetItem(p_, static_cast<Py_ssize_t>(i));
    if (v == nullptr) throw error_already_set();
    return borrow(v);
  }
  auto begin() const -> iterator { return iterator(steal(PyObject_GetIter(p_))); }
  auto end() const -> iterator { return {}; }
  static auto check(PyObject* p) -> bool { return PyTuple_Check(p); }
};
class dict : public object {
 public:
  dict(const object& o) : object(o) {}
  dict() : object(steal(PyDict_New())) {}
  auto size() const -> size_t { return static_cast<size_t>(PyDict_Size(p_)); }
  template <class K> inline auto contains(K&& k) const -> bool;
  template <class K> inline auto operator[](K&& k) const -> accessor<dict>;
  static auto check(PyObject* p) -> bool { return PyDict_Check(p); }
};
template <>
class accessor<dict> : public object {
 public:
  accessor(object d, object k) : d_(std::move(d)), k_(std::move(k)) {
    auto* v = PyDict_GetItemWithError(d_.ptr(), k_.ptr());
    if (v != nullptr) static_cast<object&>(*this) = borrow(v);
  }
  template <class T> inline auto operator=(T&& v) -> accessor&;

 private:
  object d_, k_;
};
class dtype : public object {
 public:
  dtype() = default;
  auto raw() const -> PyArray_Descr* { return reinterpret_cast<PyArray_Descr*>(p_); }
  auto kind() const -> char { return raw()->kind; }
  auto num() const -> int { return raw()->type_num; }
  auto byteorder() const -> char { return raw()->byteorder; }
  inline auto itemsize() const -> ssize_t { return PyDataType_ELSIZE(raw()); }
  static auto check(PyObject* p) -> bool { return PyArray_DescrCheck(p); }
};

namespace detail {
inline auto array_descriptor_proxy(PyObject* p) -> PyArray_Descr* { return reinterpret_cast<PyArray_Descr*>(p); }

template <class T>
class unchecked_1d {
 public:
  unchecked_1d(const char* p, ssize_t n, ssize_t stride) : p_(p), n_(n), s_(stride) {}
  auto size() const -> ssize_t { return n_; }
  auto operator()(ssize_t i) const -> const T& { return *reinterpret_cast<const T*>(p_ + i * s_); }
  auto shape(ssize_t) const -> ssize_t { return n_; }
  auto ndim() const -> ssize_t { return 1; }
  auto itemsize() const -> ssize_t { return sizeof(T); }
  auto nbytes() const -> ssize_t { return n_ * static_cast<ssize_t>(sizeof(T)); }
  auto operator[](ssize_t i) const -> const T& { return (*this)(i); }
  auto data(ssize_t i) const -> const T* { return &(*this)(i); }

 protected:
  const char* p_;
  ssize_t n_, s_;
};
template <class T>
class mutable_unchecked_1d : public unchecked_1d<T> {
 public:
  using unchecked_1d<T>::unchecked_1d;
  auto operator()(ssize_t i) const -> T& { return const_cast<T&>(unchecked_1d<T>::operator()(i)); }
  auto operator[](ssize_t i) const -> T& { return (*this)(i); }
  auto mutable_data(ssize_t i) const -> T* { return &(*this)(i); }
};
}  // namespace detail

struct buffer_info {
  void* ptr;
  ssize_t itemsize, size, ndim;
  std::vector<ssize_t> shape, strides;
};
class array : public object {
 public:
  array() = default;
  auto raw() const -> PyArrayObject* { return reinterpret_cast<PyArrayObject*>(p_); }
  auto dtype() const -> pybind11::dtype {
    return reinterpret_borrow<pybind11::dtype>(reinterpret_cast<PyObject*>(PyArray_DESCR(raw())));
  }
  auto size() const -> ssize_t { return PyArray_SIZE(raw()); }
  auto ndim() const -> ssize_t { return PyArray_NDIM(raw()); }
  auto shape(ssize_t i) const -> ssize_t { return PyArray_DIM(raw(), static_cast<int>(i)); }
  auto itemsize() const -> ssize_t { return PyArray_ITEMSIZE(raw()); }
  auto nbytes() const -> ssize_t { return PyArray_NBYTES(raw()); }
  auto strides(ssize_t i) const -> ssize_t { return PyArray_STRIDE(raw(), static_cast<int>(i)); }
  auto shape() const -> const npy_intp* { return PyArray_DIMS(raw()); }
  auto strides() const -> const npy_intp* { return PyArray_STRIDES(raw()); }
  auto data() const -> const void* { return PyArray_DATA(raw()); }
  auto data(ssize_t i) const -> const void* { return PyArray_BYTES(raw()) + i * PyArray_STRIDE(raw(), 0); }
  auto flags() const -> int { return PyArray_FLAGS(raw()); }
  template <class T, int Dims = 1>
  auto unchecked() const -> detail::unchecked_1d<T> {
    static_assert(Dims == 1, "one dimension only");
    if (ndim() != Dims) {
      throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(Dims));
    }
    return {PyArray_BYTES(raw()), shape(0), PyArray_STRIDE(raw(), 0)};
  }
  template <class T, int Dims = 1>
  auto mutable_unchecked() const -> detail::mutable_unchecked_1d<T> {
    static_assert(Dims == 1, "one dimension only");
    if (ndim() != Dims) throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(Dims));
    if (!writeable()) throw std::domain_error("array is not writeable");
    return {PyArray_BYTES(raw()), shape(0), PyArray_STRIDE(raw(), 0)};
  }
  auto writeable() const -> bool { return PyArray_ISWRITEABLE(raw()) != 0; }
  auto mutable_data() -> void* {
    if (!writeable()) throw std::domain_error("array is not writeable");
    return PyArray_DATA(raw());
  }
  auto request(bool = false) const -> buffer_info {
    buffer_info b{PyArray_DATA(raw()), itemsize(), size(), ndim(), {}, {}};
    for (ssize_t i = 0; i < ndim(); ++i) {
      b.shape.push_back(shape(i));
      b.strides.push_back(strides(i));
    }
    return b;
  }
  static constexpr int c_style = NPY_ARRAY_C_CONTIGUOUS;
  static constexpr int f_style = NPY_ARRAY_F_CONTIGUOUS;
  static constexpr int forcecast = NPY_ARRAY_FORCECAST;
  static auto check(PyObject* p) -> bool { return PyArray_Check(p); }
};
template <class T, int Flags = array::forcecast>
class array_t;

class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;

 private:
  PyThreadState* s_;
};
struct no_guard {};
template <class... G>
struct call_guard { using type = no_guard; };
template <class G>
struct call_guard<G> { using type = G; };
template <size_t N, size_t P>
struct keep_alive {};

// ------------------------------------------------------- registered classes --
// errors with a Python exception of their own
struct builtin_exception : std::runtime_error {
  using std::runtime_error::runtime_error;
  virtual auto type() const -> PyObject* = 0;
};
#define VP_ERROR(name, py)                                   \
  struct name : builtin_exception {                          \
    using builtin_exception::builtin_exception;              \
    name() : builtin_exception("") {}                        \
    auto type() const -> PyObject* override { return py; }   \
  };
VP_ERROR(stop_iteration, PyExc_StopIteration)
VP_ERROR(index_error, PyExc_IndexError)
VP_ERROR(key_error, PyExc_KeyError)
VP_ERROR(value_error, PyExc_ValueError)
VP_ERROR(type_error, PyExc_TypeError)
VP_ERROR(buffer_error, PyExc_BufferError)
VP_ERROR(import_error, PyExc_ImportError)
VP_ERROR(attribute_error, PyExc_AttributeError)
#undef VP_ERROR
struct cast_error : std::runtime_error {
  using std::runtime_error::runtime_error;
  cast_error() : std::runtime_error("Unable to cast") {}
};

class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

 private:
  PyGILState_STATE s_;
};

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
struct is_operator {};
struct prepend {};
struct kw_only {};
struct pos_only {};
struct dynamic_attr {};
struct module_local { explicit module_local(bool = true) {} };
struct doc { const char* value; explicit doc(const char* v) : value(v) {} };
struct name { const char* value; explicit name(const char* v) : value(v) {} };
template <class... A>
struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(A...)) const -> R (*)(A...) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const -> R (C::*)(A...) { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const -> R (C::*)(A...) const { return f; }
};
static constexpr auto const_ = std::true_type{};
#if __cplusplus >= 201402L
template <class... A>
static constexpr overload_cast_impl<A...> overload_cast{};
#endif

namespace detail {

struct reference_cast_error : std::runtime_error { reference_cast_error() : std::runtime_error("null reference") {} };

struct ClassInfo {
  PyTypeObject* type = nullptr;
  std::string name;
  const ClassInfo* base = nullptr;
  void* (*upcast)(void*) = nullptr;  // to the base
  std::map<void*, PyObject*> alive;  // instances made for a pointer
};

struct Instance {
  PyObject_HEAD
  std::shared_ptr<void>* holder;
  void* value;
  ClassInfo* info;
};

// defined in pybind_rt.cpp
auto classes() -> std::map<std::type_index, ClassInfo>&;
auto enums() -> std::map<std::type_index, PyObject*>&;
auto base_type() -> PyTypeObject*;
auto helper(const char* name) -> PyObject*;  // a Python helper, borrowed
auto class_of(PyTypeObject* t) -> ClassInfo*;  // nearest registered class
void start();

template <class T>
auto info() -> ClassInfo* {
  auto it = classes().find(typeid(T));
  return it == classes().end() ? nullptr : &it->second;
}

/// The Instance when o is an object of a registered class
inline auto instance(PyObject* o) -> Instance* {
  return PyObject_TypeCheck(o, base_type()) ? reinterpret_cast<Instance*>(o) : nullptr;
}

inline auto to_base(Instance* in, const ClassInfo* want) -> void* {
  void* p = in->value;
  for (const ClassInfo* c = in->info; c != nullptr; c = c->base) {
    if (c == want) return p;
    if (c->upcast == nullptr) return nullptr;
    p = c->upcast(p);
  }
  return nullptr;
}

inline void own(Instance* in, ClassInfo* c, std::shared_ptr<void> p) {
  in->info = c;
  in->value = p.get();
  delete in->holder;
  in->holder = new std::shared_ptr<void>(std::move(p));
}

template <class T>
auto wrap(std::shared_ptr<T> p) -> PyObject* {
  if (!p) Py_RETURN_NONE;
  auto* c = info<T>();
  if (c == nullptr) {
    PyErr_Format(PyExc_TypeError, "Unregistered type : %s", typeid(T).name());
    return nullptr;
  }
  auto* raw = const_cast<void*>(static_cast<const void*>(p.get()));
  auto it = c->alive.find(raw);
  if (it != c->alive.end()) {
    Py_INCREF(it->second);
    return it->second;
  }
  auto* o = c->type->tp_alloc(c->type, 0);
  if (o == nullptr) return nullptr;
  auto* in = reinterpret_cast<Instance*>(o);
  in->holder = nullptr;
  own(in, c, std::static_pointer_cast<void>(std::const_pointer_cast<typename std::remove_const<T>::type>(p)));
  c->alive[raw] = o;
  return o;
}

// ------------------------------------------------------------- conversions --
template <class T>
using intrinsic = typename std::remove_cv<typename std::remove_pointer<typename std::remove_reference<T>::type>::type>::type;

/// Objects of registered classes
template <class T, class = void>
struct type_caster {
  static constexpr bool is_class = true;
  T* p = nullptr;
  std::shared_ptr<void> holder;
  bool load(handle h, bool convert) {
    if (h.is_none()) return convert;  // no object: pointers only
    auto* in = instance(h.ptr());
    auto* c = info<T>();
    if (in == nullptr || c == nullptr || in->value == nullptr) return false;
    p = static_cast<T*>(to_base(in, c));
    if (p == nullptr) return false;
    holder = *in->holder;
    return true;
  }
};

template <class T>
struct value_caster {
  static constexpr bool is_class = false;
  T v{};
};

template <>
struct type_caster<bool> : value_caster<bool> {
  bool load(handle h, bool convert) {
    if (h.ptr() == Py_True) return v = true, true;
    if (h.ptr() == Py_False) return v = false, true;
    if (convert || PyArray_IsScalar(h.ptr(), Bool)) {
      if (h.is_none()) return v = false, true;
      auto* nb = Py_TYPE(h.ptr())->tp_as_number;
      if (nb != nullptr && nb->nb_bool != nullptr) {
        int r = nb->nb_bool(h.ptr());
        if (r == 0 || r == 1) return v = r != 0, true;
      }
      PyErr_Clear();
    }
    return false;
  }
  static auto cast(bool b) -> PyObject* { return PyBool_FromLong(b); }
};

template <class T>
struct type_caster<T, typename std::enable_if<std::is_floating_point<T>::value>::type> : value_caster<T> {
  bool load(handle h, bool convert) {
    if (!convert && !PyFloat_Check(h.ptr())) return false;
    double d = PyFloat_AsDouble(h.ptr());
    if (d == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      if (convert && PyNumber_Check(h.ptr())) {
        auto* f = PyNumber_Float(h.ptr());
        PyErr_Clear();
        if (f == nullptr) return false;
        bool ok = load(f, false);
        Py_DECREF(f);
        return ok;
      }
      return false;
    }
    this->v = static_cast<T>(d);
    return true;
  }
  static auto cast(T d) -> PyObject* { return PyFloat_FromDouble(static_cast<double>(d)); }
};

template <class T>
struct type_caster<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> : value_caster<T> {
  bool load(handle h, bool convert) {
    if (PyFloat_Check(h.ptr())) return false;
    if (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr())) return false;
    PyObject* n = h.ptr();
    if (PyLong_Check(n)) {
      Py_INCREF(n);
    } else {
      n = PyNumber_Index(h.ptr());
      if (n == nullptr) {
        PyErr_Clear();
        if (!convert) return false;
        n = PyNumber_Check(h.ptr()) ? PyNumber_Long(h.ptr()) : nullptr;
        PyErr_Clear();
        if (n == nullptr) return false;
      }
    }
    bool ok;
    if (std::is_unsigned<T>::value) {
      auto u = PyLong_AsUnsignedLongLong(n);
      ok = !(u == static_cast<unsigned long long>(-1) && PyErr_Occurred()) && static_cast<unsigned long long>(static_cast<T>(u)) == u;
      this->v = static_cast<T>(u);
    } else {
      auto i = PyLong_AsLongLong(n);
      ok = !(i == -1 && PyErr_Occurred()) && static_cast<long long>(static_cast<T>(i)) == i;
      this->v = static_cast<T>(i);
    }
    PyErr_Clear();
    Py_DECREF(n);
    return ok;
  }
  static auto cast(T i) -> PyObject* {
    return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(i)) : PyLong_FromLongLong(static_cast<long long>(i));
  }
};

template <class T>
struct type_caster<std::complex<T>> : value_caster<std::complex<T>> {
  bool load(handle h, bool convert) {
    if (!convert && !PyComplex_Check(h.ptr())) return false;
    auto c = PyComplex_AsCComplex(h.ptr());
    if (c.real == -1 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    this->v = {static_cast<T>(c.real), static_cast<T>(c.imag)};
    return true;
  }
  static auto cast(const std::complex<T>& c) -> PyObject* { return PyComplex_FromDoubles(c.real(), c.imag()); }
};

template <>
struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle h, bool) {
    if (PyUnicode_Check(h.ptr())) {
      Py_ssize_t n;
      auto* s = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
      if (s == nullptr) {
        PyErr_Clear();
        return false;
      }
      v.assign(s, static_cast<size_t>(n));
      return true;
    }
    if (PyBytes_Check(h.ptr())) {
      v.assign(PyBytes_AS_STRING(h.ptr()), static_cast<size_t>(PyBytes_GET_SIZE(h.ptr())));
      return true;
    }
    return false;
  }
  static auto cast(const std::string& s) -> PyObject* { return PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), nullptr); }
};

template <>
struct type_caster<char> {
  static constexpr bool is_class = false;
  static auto cast(const char* s) -> PyObject* {
    if (s == nullptr) Py_RETURN_NONE;
    return PyUnicode_FromString(s);
  }
};

template <class T>
struct type_caster<T, typename std::enable_if<std::is_enum<T>::value>::type> : value_caster<T> {
  bool load(handle h, bool) {
    auto it = enums().find(typeid(T));
    if (it == enums().end() || PyObject_IsInstance(h.ptr(), it->second) != 1) return PyErr_Clear(), false;
    auto* n = PyObject_GetAttrString(h.ptr(), "value");
    this->v = static_cast<T>(PyLong_AsLongLong(n));
    Py_DECREF(n);
    return true;
  }
  static auto cast(T e) -> PyObject* {
    auto it = enums().find(typeid(T));
    if (it == enums().end()) {
      PyErr_Format(PyExc_TypeError, "Unregistered type : %s", typeid(T).name());
      return nullptr;
    }
    return PyObject_CallFunction(it->second, "L", static_cast<long long>(e));
  }
};

/// Python objects
template <class T>
struct type_caster<T, typename std::enable_if<std::is_base_of<object, T>::value && !std::is_same<object, T>::value>::type> : value_caster<T> {
  bool load(handle h, bool convert) {
    if (T::check(h.ptr())) {
      this->v = reinterpret_borrow<T>(h);
      return true;
    }
    if (!convert) return false;
    auto other = T::coerce(h.ptr());
    if (other.ptr() == nullptr) return false;
    this->v = reinterpret_borrow<T>(other);
    return true;
  }
  static auto cast(const T& o) -> PyObject* { return o.inc_ref().ptr(); }
};
template <class T>
struct type_caster<T, typename std::enable_if<std::is_same<object, T>::value || std::is_same<handle, T>::value>::type> : value_caster<T> {
  bool load(handle h, bool) {
    keep = object::borrow(h.ptr());
    assign(this->v, h);
    return true;
  }
  static auto cast(const T& o) -> PyObject* { return o.inc_ref().ptr(); }

 private:
  static void assign(handle& v, handle h) { v = h; }
  static void assign(object& v, handle h) { v = object::borrow(h.ptr()); }
  object keep;
};

template <class T>
auto to_python(T&& v) -> PyObject*;

template <class T>
struct void_caster {
  static constexpr bool is_class = false;
  T v{};
  bool load(handle h, bool) { return h.is_none(); }
  static auto cast(const T&) -> PyObject* { Py_RETURN_NONE; }
};

template <class T>
struct type_caster<std::vector<T>> : value_caster<std::vector<T>> {
  bool load(handle h, bool convert) {
    if (!PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr())) return false;
    auto n = PySequence_Size(h.ptr());
    if (n < 0) return PyErr_Clear(), false;
    this->v.clear();
    for (Py_ssize_t i = 0; i < n; ++i) {
      auto* o = PySequence_GetItem(h.ptr(), i);
      if (o == nullptr) throw error_already_set();
      type_caster<T> c;
      bool ok = c.load(o, convert);
      if (ok) push(c, std::integral_constant<bool, type_caster<T>::is_class>{});
      Py_DECREF(o);
      if (!ok) return false;
    }
    return true;
  }
  static auto cast(const std::vector<T>& v) -> PyObject* {
    auto* l = PyList_New(static_cast<Py_ssize_t>(v.size()));
    Py_ssize_t i = 0;
    for (const auto& item : v) {
      auto* o = to_python(item);
      if (o == nullptr) return Py_DECREF(l), nullptr;
      PyList_SET_ITEM(l, i++, o);
    }
    return l;
  }

 private:
  template <class C> void push(C& c, std::true_type) { this->v.push_back(*c.p); }
  template <class C> void push(C& c, std::false_type) { this->v.push_back(c.v); }
};

template <class K, class V>
struct type_caster<std::map<K, V>> {
  static constexpr bool is_class = false;
  static auto cast(const std::map<K, V>& m) -> PyObject* {
    auto* d = PyDict_New();
    for (const auto& item : m) {
      auto* k = to_python(item.first);
      auto* v = k != nullptr ? to_python(item.second) : nullptr;
      if (v == nullptr || PyDict_SetItem(d, k, v) != 0) {
        Py_XDECREF(k);
        Py_XDECREF(v);
        Py_DECREF(d);
        return nullptr;
      }
      Py_DECREF(k);
      Py_DECREF(v);
    }
    return d;
  }
};

template <class... T>
struct type_caster<std::tuple<T...>> {
  static constexpr bool is_class = false;
  static auto cast(const std::tuple<T...>& t) -> PyObject* { return make(t, std::index_sequence_for<T...>{}); }

 private:
  template <size_t... I>
  static auto make(const std::tuple<T...>& t, std::index_sequence<I...>) -> PyObject* {
    PyObject* items[] = {to_python(std::get<I>(t))...};
    bool ok = true;
    for (auto* o : items) ok = ok && o != nullptr;
    auto* r = ok ? PyTuple_New(sizeof...(T)) : nullptr;
    Py_ssize_t i = 0;
    for (auto* o : items) {
      if (r != nullptr) PyTuple_SET_ITEM(r, i++, o);
      else Py_XDECREF(o);
    }
    return r;
  }
};
template <class A, class B>
struct type_caster<std::pair<A, B>> {
  static constexpr bool is_class = false;
  static auto cast(const std::pair<A, B>& t) -> PyObject* { return to_python(std::tuple<A, B>(t.first, t.second)); }
};

template <class T>
struct type_caster<std::shared_ptr<T>> : value_caster<std::shared_ptr<T>> {
  bool load(handle h, bool convert) {
    type_caster<T> c;
    if (!c.load(h, convert)) return false;
    if (c.p != nullptr) this->v = std::shared_ptr<T>(c.holder, c.p);
    return true;
  }
  static auto cast(const std::shared_ptr<T>& p) -> PyObject* { return wrap(p); }
};

/// Optional values (fes/python/optional.hpp builds on it)
template <class T>
struct optional_caster : value_caster<T> {
  using inner = typename T::value_type;
  bool load(handle h, bool convert) {
    if (h.is_none()) return true;
    type_caster<inner> c;
    if (!c.load(h, convert)) return false;
    set(c, std::integral_constant<bool, type_caster<inner>::is_class>{});
    return true;
  }
  static auto cast(const T& o) -> PyObject* {
    if (!o) Py_RETURN_NONE;
    return to_python(*o);
  }

 private:
  template <class C> void set(C& c, std::true_type) { this->v = *c.p; }
  template <class C> void set(C& c, std::false_type) { this->v = c.v; }
};

// ------------------------------------------------------------------ arrays --
template <class T, class = void> struct npy_type;
template <> struct npy_type<double> { static constexpr int value = NPY_DOUBLE; };
template <> struct npy_type<float> { static constexpr int value = NPY_FLOAT; };
template <> struct npy_type<std::complex<double>> { static constexpr int value = NPY_CDOUBLE; };
template <> struct npy_type<std::complex<float>> { static constexpr int value = NPY_CFLOAT; };
template <> struct npy_type<int8_t> { static constexpr int value = NPY_INT8; };
template <> struct npy_type<uint8_t> { static constexpr int value = NPY_UINT8; };
template <> struct npy_type<int16_t> { static constexpr int value = NPY_INT16; };
template <> struct npy_type<uint16_t> { static constexpr int value = NPY_UINT16; };
template <> struct npy_type<int32_t> { static constexpr int value = NPY_INT32; };
template <> struct npy_type<uint32_t> { static constexpr int value = NPY_UINT32; };
template <> struct npy_type<int64_t> { static constexpr int value = NPY_INT64; };
template <> struct npy_type<uint64_t> { static constexpr int value = NPY_UINT64; };
template <> struct npy_type<bool> { static constexpr int value = NPY_BOOL; };
template <class T>
struct npy_type<T, typename std::enable_if<std::is_enum<T>::value>::type> : npy_type<typename std::underlying_type<T>::type> {};

/// Is it an array of that type, in native byte order?
template <class S>
auto is_array_of(PyObject* o) -> bool {
  if (!PyArray_Check(o)) return false;
  auto* d = PyArray_DescrFromType(npy_type<S>::value);
  bool r = PyArray_EquivTypes(PyArray_DESCR(reinterpret_cast<PyArrayObject*>(o)), d);
  Py_DECREF(d);
  return r;
}

/// Anything numpy can turn into an array of that type
template <class S>
auto ensure(PyObject* o, int flags) -> PyObject* {
  auto* r = PyArray_FromAny(o, PyArray_DescrFromType(npy_type<S>::value), 0, 0, NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST | flags, nullptr);
  if (r == nullptr) PyErr_Clear();
  return r;
}

}  // namespace detail
/// Array of a type
template <class T, int Flags>
class array_t : public array {
 public:
  array_t() : array_t(0) {}
  explicit array_t(ssize_t n) {
    npy_intp dims[1] = {n};
    static_cast<object&>(*this) = object::steal(PyArray_SimpleNew(1, dims, detail::npy_type<T>::value));
  }
  array_t(const object& o) {
    if (check(o.ptr())) static_cast<object&>(*this) = o;
    else {
      static_cast<object&>(*this) = coerce(o.ptr());
      if (ptr() == nullptr) throw type_error("cannot convert to an array");
    }
  }
  auto data() const -> const T* { return static_cast<const T*>(array::data()); }
  auto data(ssize_t i) const -> const T* { return static_cast<const T*>(array::data(i)); }
  auto mutable_data() -> T* { return static_cast<T*>(array::mutable_data()); }
  auto at(ssize_t i) const -> const T& {
    if (ndim() != 1 || i < 0 || i >= size()) throw std::out_of_range("index out of range");
    return *data(i);
  }
  template <int Dims = 1>
  auto unchecked() const { return array::unchecked<T, Dims>(); }
  template <int Dims = 1>
  auto mutable_unchecked() { return array::mutable_unchecked<T, Dims>(); }
  static auto check(PyObject* p) -> bool {
    return detail::is_array_of<T>(p) && (PyArray_FLAGS(reinterpret_cast<PyArrayObject*>(p)) & Flags & (c_style | f_style)) == (Flags & (c_style | f_style));
  }
  static auto coerce(PyObject* p) -> object {
    auto* r = PyArray_FromAny(p, PyArray_DescrFromType(detail::npy_type<T>::value), 0, 0, NPY_ARRAY_ENSUREARRAY | Flags, nullptr);
    if (r == nullptr) {
      PyErr_Clear();
      return {};
    }
    return object::steal(r);
  }
};
namespace detail {
struct Shape {
  bool ok = false;
  Eigen::Index rows = 0, cols = 0;
  ssize_t rstride = 0, cstride = 0;  // bytes
};

/// Reads an array as an Eigen matrix: a vector may have two dimensions when
/// the fixed one is 1; a matrix built from one dimension is one column.
template <class M>
auto conformable(PyArrayObject* a) -> Shape {
  constexpr Eigen::Index fr = M::RowsAtCompileTime, fc = M::ColsAtCompileTime;
  constexpr bool frows = fr != Eigen::Dynamic, fcols = fc != Eigen::Dynamic;
  Shape s;
  if (PyArray_NDIM(a) == 2) {
    s.rows = PyArray_DIM(a, 0);
    s.cols = PyArray_DIM(a, 1);
    s.rstride = PyArray_STRIDE(a, 0);
    s.cstride = PyArray_STRIDE(a, 1);
    s.ok = !(frows && s.rows != fr) && !(fcols && s.cols != fc);
  } else if (PyArray_NDIM(a) == 1) {
    const Eigen::Index n = PyArray_DIM(a, 0);
    const auto st = PyArray_STRIDE(a, 0);
    if (M::IsVectorAtCompileTime) {
      if (frows && fcols && n != fr * fc) return s;
      s.rows = fr == 1 ? 1 : n;
      s.cols = fc == 1 ? 1 : n;
      s.rstride = s.cstride = st;
      s.ok = true;
    } else if (frows && fcols) {
      return s;
    } else if (fcols) {
      if (fc != n) return s;
      s.rows = 1;
      s.cols = n;
      s.rstride = s.cstride = st;
      s.ok = true;
    } else {
      if (frows && fr != n) return s;
      s.rows = n;
      s.cols = 1;
      s.rstride = s.cstride = st;
      s.ok = true;
    }
  }
  return s;
}

/// Eigen to numpy: a vector has one dimension
template <class M>
auto matrix_to_python(const M& m) -> PyObject* {
  using S = typename M::Scalar;
  npy_intp dims[2] = {m.rows(), m.cols()};
  if (M::IsVectorAtCompileTime) dims[0] = m.size();
  auto* o = PyArray_New(&PyArray_Type, M::IsVectorAtCompileTime ? 1 : 2, dims, npy_type<S>::value, nullptr, nullptr, 0, M::IsRowMajor ? 0 : NPY_ARRAY_F_CONTIGUOUS, nullptr);
  if (o == nullptr) return nullptr;
  auto* p = static_cast<char*>(PyArray_DATA(reinterpret_cast<PyArrayObject*>(o)));
  for (Eigen::Index i = 0; i < m.size(); ++i) {
    S v = M::IsRowMajor ? m(i / m.cols(), i % m.cols()) : m(i % m.rows(), i / m.rows());
    std::memcpy(p + i * static_cast<ssize_t>(sizeof(S)), &v, sizeof(S));
  }
  return o;
}

template <class S, int R, int C, int O, int MR, int MC>
struct type_caster<Eigen::Matrix<S, R, C, O, MR, MC>> : value_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using M = Eigen::Matrix<S, R, C, O, MR, MC>;
  bool load(handle h, bool convert) {
    if (!convert && !is_array_of<S>(h.ptr())) return false;
    auto* o = ensure<S>(h.ptr(), 0);
    if (o == nullptr) return false;
    auto* a = reinterpret_cast<PyArrayObject*>(o);
    auto s = conformable<M>(a);
    if (s.ok) {
      this->v = M(s.rows, s.cols);
      auto* p = PyArray_BYTES(a);
      bool one = PyArray_NDIM(a) == 1;
      for (Eigen::Index r = 0; r < s.rows; ++r) {
        for (Eigen::Index c = 0; c < s.cols; ++c) {
          std::memcpy(&this->v(r, c), one ? p + (r + c) * s.rstride : p + r * s.rstride + c * s.cstride, sizeof(S));
        }
      }
    }
    Py_DECREF(o);
    return s.ok;
  }
  static auto cast(const M& m) -> PyObject* { return matrix_to_python(m); }
};

/// References to constant arrays: the array itself when its type and strides
/// allow it, else a copy
template <class M, int Opt, class Stride>
struct type_caster<Eigen::Ref<const M, Opt, Stride>> {
  static constexpr bool is_class = false;
  using Ref = Eigen::Ref<const M, Opt, Stride>;
  using S = typename M::Scalar;
  using Dyn = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>;
  static constexpr bool dynamic = Stride::InnerStrideAtCompileTime == Eigen::Dynamic;
  std::unique_ptr<Ref> ref;
  object keep;
  bool map(PyArrayObject* a) {
    auto s = conformable<M>(a);
    if (!s.ok) return false;
    const bool rm = M::IsRowMajor;
    auto inner = rm ? s.cstride : s.rstride, outer = rm ? s.rstride : s.cstride;
    const auto sz = static_cast<ssize_t>(sizeof(S));
    if (M::IsVectorAtCompileTime) outer = inner * (s.rows * s.cols);
    else if (PyArray_NDIM(a) == 1) outer = inner * s.rows;
    bool empty = s.rows * s.cols == 0;
    if (empty) inner = sz, outer = sz * (rm ? s.cols : s.rows);
    if (inner < 0 || outer < 0 || inner % sz != 0 || outer % sz != 0) return false;
    if (!dynamic && inner != sz && (rm ? s.cols : s.rows) > 1) return false;
    build(reinterpret_cast<const S*>(PyArray_DATA(a)), s, outer / sz, inner / sz, std::integral_constant<bool, dynamic>{});
    keep = object::borrow(reinterpret_cast<PyObject*>(a));
    return true;
  }
  bool load(handle h, bool convert) {
    if (is_array_of<S>(h.ptr()) && PyArray_ISALIGNED(reinterpret_cast<PyArrayObject*>(h.ptr()))) {
      auto* a = reinterpret_cast<PyArrayObject*>(h.ptr());
      if (!conformable<M>(a).ok) return false;
      if (map(a)) return true;
    }
    if (!convert) return false;
    auto* o = ensure<S>(h.ptr(), dynamic ? 0 : (M::IsRowMajor ? NPY_ARRAY_C_CONTIGUOUS : NPY_ARRAY_F_CONTIGUOUS));
    if (o == nullptr) return false;
    bool ok = map(reinterpret_cast<PyArrayObject*>(o));
    Py_DECREF(o);
    return ok;
  }

 private:
  void build(const S* p, const Shape& s, Eigen::Index outer, Eigen::Index inner, std::true_type) {
    ref.reset(new Ref(Eigen::Map<const M, 0, Dyn>(p, s.rows, s.cols, Dyn(outer, inner))));
  }
  void build(const S* p, const Shape& s, Eigen::Index outer, Eigen::Index, std::false_type) {
    ref.reset(new Ref(Eigen::Map<const M, 0, Eigen::OuterStride<>>(p, s.rows, s.cols, Eigen::OuterStride<>(outer))));
  }
};
/// (not constant as such, but the const is inside the type)
template <class T> struct is_ref : std::false_type {};
template <class M, int O, class S> struct is_ref<Eigen::Ref<M, O, S>> : std::true_type {};

// ------------------------------------------------------- results to Python --
template <class T, class = void> struct has_cast : std::false_type {};
template <class T> struct has_cast<T, decltype(void(&type_caster<T>::cast))> : std::true_type {};

template <class T>
auto result(T&& v, std::true_type) -> PyObject* { return type_caster<intrinsic<T>>::cast(std::forward<T>(v)); }

// objects of registered classes: pointers are owned, the rest is copied
template <class T>
auto result(T* p, std::false_type) -> PyObject* { return wrap(std::shared_ptr<T>(p)); }
template <class T>
auto result(const T& v, std::false_type) -> PyObject* { return wrap(std::make_shared<T>(v)); }
template <class T, class = typename std::enable_if<!std::is_lvalue_reference<T>::value && !std::is_const<T>::value && !std::is_pointer<T>::value>::type>
auto result(T&& v, std::false_type) -> PyObject* { return wrap(std::make_shared<T>(std::move(v))); }

template <class T>
auto to_python(T&& v) -> PyObject* {
  return result(std::forward<T>(v), std::integral_constant<bool, has_cast<intrinsic<T>>::value>{});
}

// --------------------------------------------------------------- arguments --
/// Loads one parameter of type A and gives it to the call
template <class A, class = void>
struct loader {  // values
  type_caster<intrinsic<A>> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  auto get() -> A { return pass(static_cast<A*>(nullptr)); }

 private:
  auto pass(void*) -> intrinsic<A> { return std::move(c.v); }
};
template <class A>
struct loader<A&, typename std::enable_if<!type_caster<intrinsic<A>>::is_class && !is_ref<intrinsic<A>>::value>::type> {
  type_caster<intrinsic<A>> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  auto get() -> A& { return c.v; }
};
template <class A>
struct loader<A&, typename std::enable_if<is_ref<intrinsic<A>>::value>::type> {
  type_caster<intrinsic<A>> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  auto get() -> A& { return *c.ref; }
};
template <class A>
struct loader<A, typename std::enable_if<type_caster<intrinsic<A>>::is_class>::type> {
  type_caster<intrinsic<A>> c;
  bool load(handle h, bool convert) { return c.load(h, convert); }
  auto get() -> A { return pass(std::is_pointer<A>{}); }

 private:
  auto pass(std::true_type) -> A { return c.p; }
  auto pass(std::false_type) -> A {
    if (c.p == nullptr) throw reference_cast_error();
    return static_cast<A>(*c.p);
  }
};

struct Arg {
  std::string name;
  object value;  // default
  bool has_default = false, nones = true, convert = true;
};

struct Value : handle {
  bool convert = true;
  Value(PyObject* p) : handle(p) {}
};
using Values = std::vector<Value>;

/// One overload of a function
struct Overload {
  std::vector<Arg> args;
  size_t nargs = 0;
  bool method = false, constructor = false, keep = false;
  // null without an error: the arguments do not fit
  std::function<PyObject*(const Values&, bool convert)> call;
};

struct Function {
  std::string name;
  PyObject* scope = nullptr;
  std::vector<Overload> overloads;
};

// defined in pybind_rt.cpp
auto new_function(Function* f) -> PyObject*;
auto function_of(PyObject* o) -> Function*;
void add_function(PyObject* scope, const char* name, Overload o, bool is_static);
auto add_class(PyObject* scope, const char* name, const ClassInfo* base, const char* doc) -> PyTypeObject*;
void add_property(PyTypeObject* t, const char* name, Overload get, Overload* set);
auto add_enum(PyObject* scope, const char* name, bool arithmetic) -> PyObject*;

template <class G>
struct guarded {
  template <class F>
  static auto run(F&& f) -> decltype(f()) { G g; return f(); }
};
template <>
struct guarded<no_guard> {
  template <class F>
  static auto run(F&& f) -> decltype(f()) { return f(); }
};

template <class R>
struct finish {
  template <class G, class F>
  static auto run(F&& f) -> PyObject* {
    R r = guarded<G>::run(std::forward<F>(f));
    return to_python(std::forward<R>(r));
  }
};
template <>
struct finish<void> {
  template <class G, class F>
  static auto run(F&& f) -> PyObject* {
    guarded<G>::run(std::forward<F>(f));
    Py_RETURN_NONE;
  }
};

struct not_fitting {};

template <class G, class R, class F, class... A, size_t... I>
auto invoke(F& f, const Values& v, bool convert, size_t skip, std::index_sequence<I...>) -> PyObject* {
  std::tuple<loader<A>...> l;
  bool ok[] = {true, std::get<I>(l).load(v[I + skip], convert && v[I + skip].convert)...};
  for (bool b : ok) {
    if (!b) return nullptr;
  }
  try {
    return finish<R>::template run<G>([&]() -> R { return f(std::get<I>(l).get()...); });
  } catch (const reference_cast_error&) {
    return nullptr;
  }
}

template <class G, class R, class... A, class F>
auto overload(F f) -> Overload {
  Overload o;
  o.nargs = sizeof...(A);
  o.call = [f](const Values& v, bool convert) mutable -> PyObject* {
    return invoke<G, R, F, A...>(f, v, convert, 0, std::index_sequence_for<A...>{});
  };
  return o;
}

// what can be called: pointers to functions and to members, objects
template <class G, class R, class... A>
auto adapt(R (*f)(A...)) -> Overload { return overload<G, R, A...>([f](A... a) -> R { return f(std::forward<A>(a)...); }); }
template <class G, class R, class T, class... A>
auto adapt(R (T::*f)(A...)) -> Overload {
  return overload<G, R, T&, A...>([f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); });
}
template <class G, class R, class T, class... A>
auto adapt(R (T::*f)(A...) const) -> Overload {
  return overload<G, R, const T&, A...>([f](const T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); });
}
#if __cplusplus >= 201703L
template <class G, class R, class... A>
auto adapt(R (*f)(A...) noexcept) -> Overload { return overload<G, R, A...>([f](A... a) -> R { return f(std::forward<A>(a)...); }); }
template <class G, class R, class T, class... A>
auto adapt(R (T::*f)(A...) noexcept) -> Overload {
  return overload<G, R, T&, A...>([f](T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); });
}
template <class G, class R, class T, class... A>
auto adapt(R (T::*f)(A...) const noexcept) -> Overload {
  return overload<G, R, const T&, A...>([f](const T& t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); });
}
#endif
template <class G, class F, class R, class... A>
auto adapt_object(F f, R (F::*)(A...) const) -> Overload { return overload<G, R, A...>(f); }
template <class G, class F, class R, class... A>
auto adapt_object(F f, R (F::*)(A...)) -> Overload { return overload<G, R, A...>(f); }
template <class G, class F, class = decltype(&F::operator())>
auto adapt(F f) -> Overload { return adapt_object<G, F>(f, &F::operator()); }

// methods of a base that is not registered are those of the class
template <class T, class F>
auto method_of(F f) -> F { return f; }
#define VP_METHOD_OF(qualifiers)                                             \
  template <class T, class R, class C, class... A>                           \
  auto method_of(R (C::*f)(A...) qualifiers)->R (T::*)(A...) qualifiers {    \
    static_assert(std::is_base_of<C, T>::value, "not a method of the class"); \
    return f;                                                                \
  }
VP_METHOD_OF()
VP_METHOD_OF(const)
#if __cplusplus >= 201703L
VP_METHOD_OF(noexcept)
VP_METHOD_OF(const noexcept)
#endif
#undef VP_METHOD_OF

// the guard among the extra arguments of a definition
template <class... X> struct guard_of { using type = no_guard; };
template <class G, class... X> struct guard_of<call_guard<G>, X...> { using type = G; };
template <class H, class... X> struct guard_of<H, X...> : guard_of<X...> {};

}  // namespace detail

// ---------------------------------------------------------------- arguments --
struct arg_v;
struct arg {
  const char* name;
  bool nones = true, convert = true;
  explicit arg(const char* n) : name(n) {}
  auto none(bool f = true) -> arg& { nones = f; return *this; }
  auto noconvert(bool f = true) -> arg& { convert = !f; return *this; }
  template <class T>
  inline auto operator=(T&& v) const -> arg_v;
};
struct arg_v : arg {
  object value;
  arg_v(const arg& a, object v) : arg(a), value(std::move(v)) {}
};
template <class T>
auto arg::operator=(T&& v) const -> arg_v { return {*this, object::steal(detail::to_python(std::forward<T>(v)))}; }

namespace detail {
inline void extra(Overload& o, const arg& a) { o.args.push_back({a.name, {}, false, a.nones, a.convert}); }
inline void extra(Overload& o, const arg_v& a) { o.args.push_back({a.name, a.value, true, a.nones, a.convert}); }
inline void extra(Overload&, const char*) {}
inline void extra(Overload&, const doc&) {}
inline void extra(Overload&, const name&) {}
inline void extra(Overload&, const is_operator&) {}
inline void extra(Overload&, const return_value_policy&) {}
template <class G> void extra(Overload&, const call_guard<G>&) {}
inline void extra(Overload& o, const keep_alive<0, 1>&) { o.keep = true; }
template <class... X>
void extras(Overload& o, const X&... x) {
  int d[] = {0, (extra(o, x), 0)...};
  (void)d;
  if (o.method && !o.args.empty()) o.args.insert(o.args.begin(), Arg{"self", object(), false});
  while (o.args.size() < o.nargs) o.args.push_back(Arg{});
}

template <class... A> struct constructor {};
template <class F> struct factory { F f; };
template <class Get, class Set> struct pickle_factory { Get get; Set set; };

template <class T, class... A>
auto construct(std::true_type, A&&... a) -> T* { return new T(std::forward<A>(a)...); }
template <class T, class... A>
auto construct(std::false_type, A&&... a) -> T* { return new T{std::forward<A>(a)...}; }

template <class T>
auto adopt(T&& v) -> std::shared_ptr<typename std::decay<T>::type> { return std::make_shared<typename std::decay<T>::type>(std::forward<T>(v)); }
template <class T>
auto adopt(std::shared_ptr<T> v) -> std::shared_ptr<T> { return v; }
template <class T>
auto adopt(std::unique_ptr<T> v) -> std::shared_ptr<T> { return std::move(v); }
template <class T>
auto adopt(T* v) -> std::shared_ptr<T> { return std::shared_ptr<T>(v); }

/// The constructor of a class: the first argument is the object to fill
template <class T, class G, class R, class... A, class F>
auto maker(F f) -> Overload {
  Overload o;
  o.nargs = sizeof...(A) + 1;
  o.method = o.constructor = true;
  o.call = [f](const Values& v, bool convert) mutable -> PyObject* {
    auto* in = instance(v[0].ptr());
    if (in == nullptr) return nullptr;
    auto fill = [&](A... a) -> object {
      std::shared_ptr<T> p = guarded<G>::run([&]() -> std::shared_ptr<T> { return adopt(f(std::forward<A>(a)...)); });
      own(in, info<T>(), p);
      info<T>()->alive[in->value] = v[0].ptr();
      return object::borrow(Py_None);
    };
    return invoke<no_guard, object, decltype(fill), A...>(fill, v, convert, 1, std::index_sequence_for<A...>{});
  };
  return o;
}
template <class T, class G, class F, class R, class... A>
auto maker_of(F f, R (F::*)(A...) const) -> Overload { return maker<T, G, R, A...>(f); }
}  // namespace detail

template <class... A>
auto init() -> detail::constructor<A...> { return {}; }
template <class F>
auto init(F f) -> detail::factory<F> { return {f}; }
template <class Get, class Set>
auto pickle(Get g, Set s) -> detail::pickle_factory<Get, Set> { return {g, s}; }

// ------------------------------------------------------ modules and classes --
class module_ : public object {
 public:
  module_() = default;
  template <class F, class... X>
  auto def(const char* name, F f, const X&... x) -> module_& {
    auto o = detail::adapt<typename detail::guard_of<X...>::type>(f);
    detail::extras(o, x...);
    detail::add_function(p_, name, std::move(o), false);
    return *this;
  }
  static auto import(const char* name) -> module_ {
    auto o = object::steal(PyImport_ImportModule(name));
    return reinterpret_borrow<module_>(o);
  }
  auto def_submodule(const char* name, const char* = nullptr) -> module_ {
    auto full = std::string(PyModule_GetName(p_)) + "." + name;
    auto m = reinterpret_borrow<module_>(PyImport_AddModule(full.c_str()));
    if (PyObject_SetAttrString(p_, name, m.ptr()) != 0) throw error_already_set();
    return m;
  }
};
using module = module_;

namespace detail {
template <class T, class... Options> struct base_of { using type = void; };
template <class T, class O, class... Options>
struct base_of<T, O, Options...>
    : std::conditional<std::is_base_of<O, T>::value && !std::is_same<O, T>::value, std::common_type<O>, base_of<T, Options...>>::type {};
template <class T, class B>
struct upcaster {
  static auto info() -> const ClassInfo* { return detail::info<B>(); }
  static auto up(void* p) -> void* { return static_cast<B*>(static_cast<T*>(p)); }
  static constexpr bool has = true;
};
template <class T>
struct upcaster<T, void> {
  static auto info() -> const ClassInfo* { return nullptr; }
  static auto up(void*) -> void* { return nullptr; }
  static constexpr bool has = false;
};
}  // namespace detail

template <class T, class... Options>
class class_ : public object {
  using up = detail::upcaster<T, typename detail::base_of<T, Options...>::type>;

 public:
  class_(handle scope, const char* name, const char* doc = nullptr) {
    auto& c = detail::classes()[typeid(T)];
    c.name = name;
    c.base = up::info();
    c.upcast = up::has ? &up::up : nullptr;
    c.type = detail::add_class(scope.ptr(), name, c.base, doc);
    *static_cast<object*>(this) = object::borrow(reinterpret_cast<PyObject*>(c.type));
  }
  template <class F, class... X>
  auto def(const char* name, F f, const X&... x) -> class_& {
    auto o = detail::adapt<typename detail::guard_of<X...>::type>(detail::method_of<T>(f));
    o.method = true;
    detail::extras(o, x...);
    detail::add_function(p_, name, std::move(o), false);
    return *this;
  }
  template <class F, class... X>
  auto def_static(const char* name, F f, const X&... x) -> class_& {
    auto o = detail::adapt<typename detail::guard_of<X...>::type>(f);
    detail::extras(o, x...);
    detail::add_function(p_, name, std::move(o), true);
    return *this;
  }
  template <class... A, class... X>
  auto def(const detail::constructor<A...>&, const X&... x) -> class_& {
    auto f = [](A... a) -> T* {
      return detail::construct<T>(typename std::is_constructible<T, A...>::type{}, std::forward<A>(a)...);
    };
    return make(detail::maker<T, typename detail::guard_of<X...>::type, T*, A...>(f), "__init__", x...);
  }
  template <class F, class... X>
  auto def(const detail::factory<F>& i, const X&... x) -> class_& {
    return make(detail::maker_of<T, typename detail::guard_of<X...>::type>(i.f, &F::operator()), "__init__", x...);
  }
  template <class Get, class Set>
  auto def(const detail::pickle_factory<Get, Set>& i) -> class_& {
    def("__getstate__", i.get);
    return make(detail::maker_of<T, no_guard>(i.set, &Set::operator()), "__setstate__");
  }
  template <class G, class... X>
  auto def_property_readonly(const char* name, G get, const X&...) -> class_& {
    auto o = prop(detail::adapt<no_guard>(detail::method_of<T>(get)));
    detail::add_property(reinterpret_cast<PyTypeObject*>(p_), name, std::move(o), nullptr);
    return *this;
  }
  template <class G, class S, class... X>
  auto def_property(const char* name, G get, S set, const X&...) -> class_& {
    auto o = prop(detail::adapt<no_guard>(detail::method_of<T>(get))), s = prop(detail::adapt<no_guard>(detail::method_of<T>(set)));
    detail::add_property(reinterpret_cast<PyTypeObject*>(p_), name, std::move(o), &s);
    return *this;
  }

 private:
  static auto prop(detail::Overload o) -> detail::Overload {
    o.method = true;
    detail::extras(o);
    return o;
  }
  template <class... X>
  auto make(detail::Overload o, const char* name, const X&... x) -> class_& {
    detail::extras(o, x...);
    detail::add_function(p_, name, std::move(o), false);
    return *this;
  }
};

template <class T>
class enum_ : public object {
 public:
  enum_(handle scope, const char* name, const char* = nullptr) : scope_(object::borrow(scope.ptr())) {
    // an unscoped enumeration compares with integers
    auto* t = detail::add_enum(scope.ptr(), name, std::is_convertible<T, typename std::underlying_type<T>::type>::value);
    detail::enums()[typeid(T)] = t;
    *static_cast<object*>(this) = object::borrow(t);
  }
  auto value(const char* name, T v, const char* = nullptr) -> enum_& {
    auto r = object::steal(PyObject_CallMethod(p_, "_add", "sL", name, static_cast<long long>(v)));
    return *this;
  }
  auto export_values() -> enum_& {
    auto r = object::steal(PyObject_CallMethod(p_, "_export", "O", scope_.ptr()));
    return *this;
  }

 private:
  object scope_;
};

template <class T>
auto cast(T&& v) -> object { return object::steal(detail::to_python(std::forward<T>(v))); }
template <class T>
auto cast(T&& v, return_value_policy) -> object { return object::steal(detail::to_python(std::forward<T>(v))); }
template <class T>
auto cast(handle h) -> T {
  detail::loader<T> l;
  if (!l.load(h, true)) throw cast_error("Unable to cast Python instance to C++ type");
  return l.get();
}
template <class T>
auto handle::cast() const -> T { return pybind11::cast<T>(*this); }
namespace detail {
template <class T, bool Object>
struct is_one { static auto get(handle h) -> bool { auto* c = info<T>(); auto* i = instance(h.ptr()); return c != nullptr && i != nullptr && i->value != nullptr && to_base(i, c) != nullptr; } };
template <class T>
struct is_one<T, true> { static auto get(handle h) -> bool { return h.ptr() != nullptr && T::check(h.ptr()); } };
}  // namespace detail
template <class T>
auto isinstance(handle h) -> bool { return detail::is_one<T, std::is_base_of<object, T>::value>::get(h); }
inline auto isinstance(handle h, handle t) -> bool { return PyObject_IsInstance(h.ptr(), t.ptr()) == 1; }
inline auto len(handle h) -> size_t {
  auto n = PyObject_Length(h.ptr());
  if (n < 0) throw error_already_set();
  return static_cast<size_t>(n);
}
inline auto hasattr(handle h, const char* n) -> bool { return PyObject_HasAttrString(h.ptr(), n) == 1; }
template <return_value_policy = return_value_policy::automatic, class... A>
auto make_tuple(A&&... a) -> tuple {
  tuple t(sizeof...(A));
  ssize_t i = 0;
  int d[] = {0, (PyTuple_SET_ITEM(t.ptr(), i++, object::steal(detail::to_python(std::forward<A>(a))).release().ptr()), 0)...};
  (void)d;
  return t;
}
template <class... A>
auto handle::operator()(A&&... a) const -> object {
  auto t = make_tuple(std::forward<A>(a)...);
  return object::steal(PyObject_Call(p_, t.ptr(), nullptr));
}
template <class T>
void list::append(T&& v) const {
  if (PyList_Append(p_, pybind11::cast(std::forward<T>(v)).ptr()) != 0) throw error_already_set();
}
template <class K>
auto dict::contains(K&& k) const -> bool { return PyDict_Contains(p_, pybind11::cast(std::forward<K>(k)).ptr()) == 1; }
template <class K>
auto dict::operator[](K&& k) const -> accessor<dict> { return {*this, pybind11::cast(std::forward<K>(k))}; }
template <class T>
auto accessor<dict>::operator=(T&& v) -> accessor& {
  auto o = pybind11::cast(std::forward<T>(v));
  if (PyDict_SetItem(d_.ptr(), k_.ptr(), o.ptr()) != 0) throw error_already_set();
  static_cast<object&>(*this) = o;
  return *this;
}

template <class It>
auto make_iterator(It first, It last) -> object {
  auto* f = new detail::Function;
  f->name = "__next__";
  detail::Overload o;
  auto end = object::borrow(detail::helper("END"));
  o.call = [first, last, end](const detail::Values&, bool) mutable -> PyObject* {
    if (first == last) return end.inc_ref().ptr();
    auto* r = detail::to_python(*first);
    ++first;
    return r;
  };
  f->overloads.push_back(o);
  auto fn = object::steal(detail::new_function(f));
  return object::steal(PyObject_CallFunctionObjArgs(detail::helper("Iterator"), fn.ptr(), nullptr));
}

}  // namespace pybind11

#define PYBIND11_OVERLOAD_PURE(ret, cls, name, ...) throw std::runtime_error("Tried to call pure virtual function " #name)
#define PYBIND11_OVERRIDE_PURE(ret, cls, name, ...) throw std::runtime_error("Tried to call pure virtual function " #name)

#define PYBIND11_MODULE(modname, var)                                          \
  static void vp_init_##modname(::pybind11::module_&);                         \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##modname() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #modname, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
    try {                                                                      \
      ::pybind11::detail::start();                                             \
      auto m = ::pybind11::object::steal(PyModule_Create(&def));               \
      auto mod = ::pybind11::reinterpret_borrow<::pybind11::module_>(m);       \
      vp_init_##modname(mod);                                                  \
      return mod.release().ptr();                                              \
    } catch (const ::pybind11::error_already_set& e) {                         \
      e.restore();                                                             \
    } catch (const std::exception& e) {                                        \
      PyErr_SetString(PyExc_ImportError, e.what());                            \
    }                                                                          \
    return nullptr;                                                            \
  }                                                                            \
  static void vp_init_##modname(::pybind11::module_& var)
