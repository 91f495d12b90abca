// A stand-in for the part of pybind11's API that OpenSfM's binding sources use.
//
// The pybind11 submodule of this copy of OpenSfM is empty and no pybind11 is
// installed, so nothing of the python package that needs a C++ extension can be
// imported.  The checks of /verif drive the *real* python and C++ code, so they
// compile the repository's own */python/pybind.cc, unmodified, against this
// header.  It reproduces pybind11's documented semantics for what is used:
// overload resolution (strict pass, then converting pass), return value
// policies, instance identity, keep_alive, pickling, enums, iterators, stl /
// numpy / Eigen conversions, exception translation and call guards.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

#include <array>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

// The checks replay what they ran: seeds that the code draws from the system's
// entropy come from the C generator instead, which the checks seed per case.
namespace std {
__attribute__((weak)) random_device::result_type random_device::_M_getval() {
  return 2654435761u * (static_cast<unsigned>(::rand()) + 1u);
}
}  // namespace std

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_NAMESPACE_BEGIN(name) namespace name {
#define PYBIND11_NAMESPACE_END(name) }
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 13

namespace pybind11 {

// ---------------------------------------------------------------- exceptions
struct builtin_exception : std::runtime_error {
  using std::runtime_error::runtime_error;
  virtual void set_error() const = 0;
};
#define MPB_EXC(name, pytype)                                       \
  struct name : builtin_exception {                                 \
    using builtin_exception::builtin_exception;                     \
    name() : builtin_exception("") {}                               \
    void set_error() const override {                               \
      PyErr_SetString(pytype, what());                              \
    }                                                               \
  };
MPB_EXC(stop_iteration, PyExc_StopIteration)
MPB_EXC(index_error, PyExc_IndexError)
MPB_EXC(key_error, PyExc_KeyError)
MPB_EXC(value_error, PyExc_ValueError)
MPB_EXC(type_error, PyExc_TypeError)
MPB_EXC(cast_error, PyExc_RuntimeError)
MPB_EXC(reference_cast_error, PyExc_RuntimeError)
#undef MPB_EXC

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

class error_already_set : public std::exception {
 public:
  error_already_set() { PyErr_Fetch(&t_, &v_, &tb_); }
  error_already_set(const error_already_set& o)
      : t_(o.t_), v_(o.v_), tb_(o.tb_) {
    Py_XINCREF(t_);
    Py_XINCREF(v_);
    Py_XINCREF(tb_);
  }
  ~error_already_set() override {
    PyGILState_STATE s = PyGILState_Ensure();
    Py_XDECREF(t_);
    Py_XDECREF(v_);
    Py_XDECREF(tb_);
    PyGILState_Release(s);
  }
  void restore() const {
    Py_XINCREF(t_);
    Py_XINCREF(v_);
    Py_XINCREF(tb_);
    PyErr_Restore(t_, v_, tb_);
  }
  const char* what() const noexcept override { return "python error"; }

 private:
  PyObject *t_, *v_, *tb_;
};

class gil_scoped_release {
 public:
  gil_scoped_release() : s_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s_); }
  gil_scoped_release(const gil_scoped_release&) = delete;

 private:
  PyThreadState* s_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : s_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

 private:
  PyGILState_STATE s_;
};

// ------------------------------------------------------------ object wrappers
class object;
class handle;
struct item_accessor;
struct attr_accessor;

class handle {
 public:
  handle() = default;
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(handle o) const { return m_ptr == o.m_ptr; }
  template <typename T>
  T cast() const;
  attr_accessor attr(const char* name) const;
  item_accessor operator[](const char* key) const;
  item_accessor operator[](handle key) const;
  item_accessor operator[](size_t i) const;
  item_accessor operator[](int i) const;
  bool operator==(const handle& h) const { return m_ptr == h.m_ptr; }
  template <typename T>
  bool contains(T&& key) const;
  template <typename... A>
  object operator()(A&&... a) const;

 protected:
  PyObject* m_ptr = nullptr;
};

struct borrowed_t {};
struct stolen_t {};

class object : public handle {
 public:
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept {
    m_ptr = o.m_ptr;
    o.m_ptr = nullptr;
  }
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    o.inc_ref();
    dec_ref();
    m_ptr = o.m_ptr;
    return *this;
  }
  object& operator=(object&& o) noexcept {
    if (this != &o) {
      PyObject* old = m_ptr;
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
      Py_XDECREF(old);
    }
    return *this;
  }
  handle release() {
    handle h(m_ptr);
    m_ptr = nullptr;
    return h;
  }
  template <typename T>
  T cast() const {
    return handle::cast<T>();
  }
};

template <typename T>
T reinterpret_borrow(handle h) {
  return T(h, borrowed_t{});
}
template <typename T>
T reinterpret_steal(handle h) {
  return T(h, stolen_t{});
}

inline object steal_checked(PyObject* p) {
  if (!p) throw error_already_set();
  return object(p, stolen_t{});
}

template <typename T>
object cast_to_object(T&& v,
                      return_value_policy p =
                          return_value_policy::automatic_reference,
                      handle parent = handle());

struct item_accessor {
  object obj, key;
  object get() const { return steal_checked(PyObject_GetItem(obj.ptr(), key.ptr())); }
  operator object() const { return get(); }
  template <typename T>
  T cast() const {
    return get().template cast<T>();
  }
  template <typename T>
  void operator=(T&& v) && {
    object o = cast_to_object(std::forward<T>(v));
    if (PyObject_SetItem(obj.ptr(), key.ptr(), o.ptr()) != 0)
      throw error_already_set();
  }
  void operator=(const item_accessor& o) && {
    object v = o.get();
    if (PyObject_SetItem(obj.ptr(), key.ptr(), v.ptr()) != 0)
      throw error_already_set();
  }
  item_accessor operator[](const char* k) const { return get()[k]; }
  item_accessor operator[](size_t k) const { return get()[k]; }
  template <typename T>
  bool contains(T&& k) const {
    return get().contains(std::forward<T>(k));
  }
  attr_accessor attr(const char* name) const;
  bool is_none() const { return get().is_none(); }
};
struct attr_accessor {
  object obj;
  std::string name;
  object get() const {
    return steal_checked(PyObject_GetAttrString(obj.ptr(), name.c_str()));
  }
  operator object() const { return get(); }
  template <typename T>
  T cast() const {
    return get().template cast<T>();
  }
  template <typename T>
  void operator=(T&& v) && {
    object o = cast_to_object(std::forward<T>(v));
    if (PyObject_SetAttrString(obj.ptr(), name.c_str(), o.ptr()) != 0)
      throw error_already_set();
  }
  item_accessor operator[](const char* k) const { return get()[k]; }
  item_accessor operator[](size_t k) const { return get()[k]; }
  attr_accessor attr(const char* n) const { return get().attr(n); }
  template <typename... A>
  object operator()(A&&... a) const {
    return get()(std::forward<A>(a)...);
  }
};
inline attr_accessor item_accessor::attr(const char* n) const {
  return get().attr(n);
}
inline attr_accessor handle::attr(const char* name) const {
  return {object(*this, borrowed_t{}), name};
}
inline item_accessor handle::operator[](const char* key) const {
  return {object(*this, borrowed_t{}), steal_checked(PyUnicode_FromString(key))};
}
inline item_accessor handle::operator[](handle key) const {
  return {object(*this, borrowed_t{}), object(key, borrowed_t{})};
}
inline item_accessor handle::operator[](int i) const {
  return {object(*this, borrowed_t{}), steal_checked(PyLong_FromLong(i))};
}
inline item_accessor handle::operator[](size_t i) const {
  return {object(*this, borrowed_t{}), steal_checked(PyLong_FromSize_t(i))};
}

#define MPB_OBJECT(Name, check)                                            \
  Name(handle h, borrowed_t t) : object(h, t) {}                           \
  Name(handle h, stolen_t t) : object(h, t) {}                             \
  Name(const object& o) : object(o) {}                                     \
  Name(object&& o) : object(std::move(o)) {}                               \
  Name(const item_accessor& a) : object(a.get()) {}                        \
  static bool check_(handle h) { return h.ptr() && (check(h.ptr())); }

class none : public object {
 public:
  none() : object(Py_None, borrowed_t{}) {}
};
class str : public object {
 public:
  MPB_OBJECT(str, PyUnicode_Check)
  str(const char* s) : object(steal_checked(PyUnicode_FromString(s))) {}
  str(const std::string& s)
      : object(steal_checked(PyUnicode_FromStringAndSize(s.data(), s.size()))) {}
  operator std::string() const { return PyUnicode_AsUTF8(m_ptr); }
};
class bytes : public object {
 public:
  MPB_OBJECT(bytes, PyBytes_Check)
  bytes(const std::string& s)
      : object(steal_checked(PyBytes_FromStringAndSize(s.data(), s.size()))) {}
};
class int_ : public object {
 public:
  MPB_OBJECT(int_, PyLong_Check)
  int_(long long v) : object(steal_checked(PyLong_FromLongLong(v))) {}
};
class float_ : public object {
 public:
  MPB_OBJECT(float_, PyFloat_Check)
  float_(double v) : object(steal_checked(PyFloat_FromDouble(v))) {}
};
class list_iter_end {};
class iterator : public object {
 public:
  MPB_OBJECT(iterator, PyIter_Check)
};
class dict : public object {
 public:
  MPB_OBJECT(dict, PyDict_Check)
  dict() : object(steal_checked(PyDict_New())) {}
  size_t size() const { return PyDict_Size(m_ptr); }
  using object::operator[];
};
class tuple : public object {
 public:
  MPB_OBJECT(tuple, PyTuple_Check)
  explicit tuple(size_t n = 0) : object(steal_checked(PyTuple_New(n))) {}
  size_t size() const { return PyTuple_Size(m_ptr); }
};
class list : public object {
 public:
  MPB_OBJECT(list, PyList_Check)
  explicit list(size_t n = 0) : object(steal_checked(PyList_New(n))) {}
  size_t size() const { return PyList_Size(m_ptr); }
  template <typename T>
  void append(T&& v) {
    object o = cast_to_object(std::forward<T>(v));
    if (PyList_Append(m_ptr, o.ptr()) != 0) throw error_already_set();
  }
};
class sequence : public object {
 public:
  MPB_OBJECT(sequence, PySequence_Check)
  size_t size() const { return PySequence_Size(m_ptr); }
};
class function : public object {
 public:
  MPB_OBJECT(function, PyCallable_Check)
};
class module_ : public object {
 public:
  MPB_OBJECT(module_, PyModule_Check)
  static module_ import(const char* name) {
    PyObject* m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    return module_(m, stolen_t{});
  }
  template <typename Func, typename... Extra>
  module_& def(const char* name_, Func&& f, const Extra&... extra);
};
using module = module_;

template <typename T>
bool isinstance(handle h) {
  return T::check_(h);
}
inline size_t len(handle h) {
  Py_ssize_t n = PyObject_Length(h.ptr());
  if (n < 0) throw error_already_set();
  return n;
}

// ------------------------------------------------------------------ internals
namespace detail {

struct type_record_ {
  PyTypeObject* type;
  std::string name;
  void (*destroy)(void*);
};
struct instance {
  PyObject_HEAD
  void* value;
  type_record_* rec;
  bool owned;
  PyObject* weakrefs;
};
struct function_record;
struct internals {
  std::unordered_map<std::string, type_record_*> types;
  std::unordered_map<PyTypeObject*, type_record_*> by_pytype;
  std::unordered_multimap<const void*, instance*> instances;
  std::unordered_map<PyObject*, std::vector<PyObject*>> patients;
};

inline internals& get_internals() {
  static internals* cached = nullptr;
  if (cached) return *cached;
  PyObject* b = PyImport_ImportModule("builtins");
  const char* key = "__minipybind_internals__";
  PyObject* c = PyObject_GetAttrString(b, key);
  if (c) {
    cached = static_cast<internals*>(PyCapsule_GetPointer(c, nullptr));
    Py_DECREF(c);
  } else {
    PyErr_Clear();
    cached = new internals();
    c = PyCapsule_New(cached, nullptr, nullptr);
    PyObject_SetAttrString(b, key, c);
    Py_DECREF(c);
  }
  Py_DECREF(b);
  return *cached;
}

inline std::string type_key(const std::type_info& t) {
  const char* n = t.name();
  return *n == '*' ? n + 1 : n;
}
// local (per extension module) types, like pybind11's module_local
inline std::unordered_map<std::string, type_record_*>& local_types() {
  static std::unordered_map<std::string, type_record_*> t;
  return t;
}
inline type_record_* get_type_info(const std::type_info& t,
                                   bool throw_if_missing = false) {
  const std::string k = type_key(t);
  auto l = local_types().find(k);
  if (l != local_types().end()) return l->second;
  auto& m = get_internals().types;
  auto it = m.find(k);
  if (it != m.end()) return it->second;
  if (throw_if_missing)
    throw cast_error("Unable to convert: unregistered type " + k);
  return nullptr;
}
inline type_record_* record_of(PyTypeObject* t) {
  auto& m = get_internals().by_pytype;
  for (PyTypeObject* p = t; p; p = p->tp_base) {
    auto it = m.find(p);
    if (it != m.end()) return it->second;
  }
  return nullptr;
}

inline void register_instance(instance* i) {
  get_internals().instances.emplace(i->value, i);
}
inline void deregister_instance(instance* i) {
  auto& m = get_internals().instances;
  auto r = m.equal_range(i->value);
  for (auto it = r.first; it != r.second; ++it) {
    if (it->second == i) {
      m.erase(it);
      return;
    }
  }
}
inline void clear_patients(PyObject* self) {
  auto& p = get_internals().patients;
  auto it = p.find(self);
  if (it == p.end()) return;
  std::vector<PyObject*> v = std::move(it->second);
  p.erase(it);
  for (auto* o : v) Py_DECREF(o);
}
extern "C" inline PyObject* mpb_disable_weakref(PyObject* weak, PyObject* arg) {
  Py_DECREF(weak);
  Py_DECREF(arg);
  Py_RETURN_NONE;
}
inline void keep_alive_impl(handle nurse, handle patient) {
  if (!nurse || !patient || nurse.is_none() || patient.is_none()) return;
  if (record_of(Py_TYPE(nurse.ptr()))) {
    Py_INCREF(patient.ptr());
    get_internals().patients[nurse.ptr()].push_back(patient.ptr());
  } else {
    throw cast_error("keep_alive on a foreign object is not supported");
  }
}

extern "C" inline PyObject* mpb_new(PyTypeObject* t, PyObject*, PyObject*) {
  PyObject* self = t->tp_alloc(t, 0);
  if (!self) return nullptr;
  auto* i = reinterpret_cast<instance*>(self);
  i->value = nullptr;
  i->rec = record_of(t);
  i->owned = false;
  i->weakrefs = nullptr;
  return self;
}
extern "C" inline int mpb_noinit(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}
extern "C" inline void mpb_dealloc(PyObject* self) {
  auto* i = reinterpret_cast<instance*>(self);
  PyTypeObject* t = Py_TYPE(self);
  if (i->weakrefs) PyObject_ClearWeakRefs(self);
  if (i->value) {
    deregister_instance(i);
    if (i->owned) {
      PyObject *a, *b, *c;
      PyErr_Fetch(&a, &b, &c);
      i->rec->destroy(i->value);
      PyErr_Restore(a, b, c);
    }
    i->value = nullptr;
  }
  clear_patients(self);
  t->tp_free(self);
  Py_DECREF(t);
}

inline PyTypeObject* make_type(const char* name, handle scope) {
  std::string full = name;
  object modname;
  if (scope) {
    const char* attr = PyModule_Check(scope.ptr()) ? "__name__" : "__module__";
    modname = steal_checked(PyObject_GetAttrString(scope.ptr(), attr));
    full = std::string(PyUnicode_AsUTF8(modname.ptr())) + "." + name;
  }
  static const PyMemberDef proto[] = {
      {"__weaklistoffset__", Py_T_PYSSIZET, offsetof(instance, weakrefs),
       Py_READONLY, nullptr},
      {nullptr, 0, 0, 0, nullptr}};
  auto* members = new PyMemberDef[2]{proto[0], proto[1]};
  PyType_Slot slots[] = {{Py_tp_new, (void*)mpb_new},
                         {Py_tp_init, (void*)mpb_noinit},
                         {Py_tp_dealloc, (void*)mpb_dealloc},
                         {Py_tp_members, members},
                         {0, nullptr}};
  PyType_Spec spec = {strdup(full.c_str()), sizeof(instance), 0,
                      Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
  PyObject* t = PyType_FromSpec(&spec);
  if (!t) throw error_already_set();
  if (scope) {
    PyObject_SetAttrString(t, "__module__", modname.ptr());
    if (PyObject_SetAttrString(scope.ptr(), name, t) != 0)
      throw error_already_set();
  }
  return reinterpret_cast<PyTypeObject*>(t);
}

// ------------------------------------------------------------------- casters
template <typename T>
struct intrinsic {
  using type = T;
};
template <typename T>
struct intrinsic<const T> : intrinsic<T> {};
template <typename T>
struct intrinsic<T*> : intrinsic<T> {};
template <typename T>
struct intrinsic<T&> : intrinsic<T> {};
template <typename T>
struct intrinsic<T&&> : intrinsic<T> {};
template <typename T>
using intrinsic_t = typename intrinsic<T>::type;
template <typename T>
using remove_cvref_t = std::remove_cv_t<std::remove_reference_t<T>>;

template <typename T, typename SFINAE = void>
struct type_caster;
template <typename T>
using make_caster = type_caster<intrinsic_t<T>>;

// How an argument of type T is taken out of its caster.
template <typename T>
decltype(auto) cast_op(make_caster<T>& c) {
  if constexpr (std::is_pointer_v<std::remove_reference_t<T>>) {
    return c.as_pointer();
  } else {
    return c.as_reference();
  }
}

// --- registered classes
inline handle generic_cast(const void* src, return_value_policy policy,
                           handle parent, type_record_* rec,
                           void* (*copy)(const void*), void* (*move)(void*)) {
  if (!rec) throw cast_error("Unable to convert to python: unregistered type");
  if (!src) return handle(Py_None).inc_ref();
  auto& insts = get_internals().instances;
  auto range = insts.equal_range(src);
  for (auto it = range.first; it != range.second; ++it) {
    if (it->second->rec == rec) {
      return handle(reinterpret_cast<PyObject*>(it->second)).inc_ref();
    }
  }
  PyObject* o = mpb_new(rec->type, nullptr, nullptr);
  if (!o) throw error_already_set();
  auto* inst = reinterpret_cast<instance*>(o);
  object guard(o, stolen_t{});
  void* s = const_cast<void*>(src);
  switch (policy) {
    case return_value_policy::automatic:
    case return_value_policy::take_ownership:
      inst->value = s;
      inst->owned = true;
      break;
    case return_value_policy::automatic_reference:
    case return_value_policy::reference:
      inst->value = s;
      break;
    case return_value_policy::copy:
      if (!copy) throw cast_error("return_value_policy = copy, but type is non-copyable");
      inst->value = copy(src);
      inst->owned = true;
      break;
    case return_value_policy::move:
      if (move)
        inst->value = move(s);
      else if (copy)
        inst->value = copy(src);
      else
        throw cast_error("type is neither movable nor copyable");
      inst->owned = true;
      break;
    case return_value_policy::reference_internal:
      inst->value = s;
      keep_alive_impl(o, parent);
      break;
  }
  register_instance(inst);
  return guard.release();
}

template <typename T>
struct class_caster {
  T* value = nullptr;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      if (!convert) return false;
      value = nullptr;
      return true;
    }
    auto* rec = get_type_info(typeid(T));
    if (!rec) return false;
    if (!PyObject_TypeCheck(src.ptr(), rec->type)) return false;
    value = static_cast<T*>(reinterpret_cast<instance*>(src.ptr())->value);
    if (!value) throw value_error("__init__() was not called");
    return true;
  }
  T* as_pointer() { return value; }
  T& as_reference() {
    if (!value) throw reference_cast_error();
    return *value;
  }
  template <typename U = T>
  static auto copier() -> void* (*)(const void*) {
    if constexpr (std::is_copy_constructible_v<U>)
      return [](const void* p) -> void* { return new U(*static_cast<const U*>(p)); };
    else
      return nullptr;
  }
  template <typename U = T>
  static auto mover() -> void* (*)(void*) {
    if constexpr (std::is_move_constructible_v<U>)
      return [](void* p) -> void* { return new U(std::move(*static_cast<U*>(p))); };
    else
      return nullptr;
  }
  static handle cast(const T& src, return_value_policy p, handle parent) {
    if (p == return_value_policy::automatic ||
        p == return_value_policy::automatic_reference)
      p = return_value_policy::copy;
    return cast(&src, p, parent);
  }
  static handle cast(T&& src, return_value_policy, handle parent) {
    return cast(&src, return_value_policy::move, parent);
  }
  static handle cast(const T* src, return_value_policy p, handle parent) {
    return generic_cast(src, p, parent, get_type_info(typeid(T), true), copier(),
                        mover());
  }
};
template <typename T, typename SFINAE>
struct type_caster : class_caster<T> {};

// --- value casters: `value` holds a T
template <typename T>
struct value_caster {
  T value{};
  T* as_pointer() { return &value; }
  T& as_reference() { return value; }
};
#define MPB_PTR_CAST(T)                                                   \
  static handle cast(const T* src, return_value_policy p, handle parent) { \
    if (!src) return handle(Py_None).inc_ref();                           \
    return cast(*src, p, parent);                                         \
  }

template <typename T>
struct type_caster<T, std::enable_if_t<std::is_arithmetic_v<T> &&
                                       !std::is_same_v<T, bool> &&
                                       !std::is_same_v<T, char>>>
    : value_caster<T> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    PyObject* p = src.ptr();
    if constexpr (std::is_floating_point_v<T>) {
      if (!convert && !PyFloat_Check(p)) return false;
      double d = PyFloat_AsDouble(p);
      if (d == -1.0 && PyErr_Occurred()) {
        PyErr_Clear();
        if (convert && PyNumber_Check(p)) {
          object t(PyNumber_Float(p), stolen_t{});
          PyErr_Clear();
          return load(t, false);
        }
        return false;
      }
      this->value = static_cast<T>(d);
      return true;
    } else {
      if (PyFloat_Check(p)) return false;
      if (!convert && !PyLong_Check(p) && !PyIndex_Check(p)) return false;
      object idx;
      handle h = src;
      if (!PyLong_Check(p)) {
        idx = object(PyNumber_Index(p), stolen_t{});
        if (!idx) {
          PyErr_Clear();
          if (!convert) return false;
          if (!PyNumber_Check(p)) return false;
          idx = object(PyNumber_Long(p), stolen_t{});
          if (!idx) {
            PyErr_Clear();
            return false;
          }
        }
        h = idx;
      }
      if constexpr (std::is_unsigned_v<T>) {
        unsigned long long v = PyLong_AsUnsignedLongLong(h.ptr());
        if (v == (unsigned long long)-1 && PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        if (v != (unsigned long long)(T)v) return false;
        this->value = (T)v;
      } else {
        long long v = PyLong_AsLongLong(h.ptr());
        if (v == -1 && PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        if (v != (long long)(T)v) return false;
        this->value = (T)v;
      }
      return true;
    }
  }
  static handle cast(T v, return_value_policy, handle) {
    PyObject* p;
    if constexpr (std::is_floating_point_v<T>)
      p = PyFloat_FromDouble(v);
    else if constexpr (std::is_unsigned_v<T>)
      p = PyLong_FromUnsignedLongLong(v);
    else
      p = PyLong_FromLongLong(v);
    if (!p) throw error_already_set();
    return p;
  }
  MPB_PTR_CAST(T)
};

template <>
struct type_caster<bool> : value_caster<bool> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.ptr() == Py_True) return value = true, true;
    if (src.ptr() == Py_False) return value = false, true;
    const char* tn = Py_TYPE(src.ptr())->tp_name;
    if (convert || !strcmp(tn, "numpy.bool") || !strcmp(tn, "numpy.bool_")) {
      if (src.is_none()) return value = false, true;
      auto* nb = Py_TYPE(src.ptr())->tp_as_number;
      if (nb && nb->nb_bool) {
        int r = nb->nb_bool(src.ptr());
        if (r == 0 || r == 1) return value = r, true;
        PyErr_Clear();
      }
    }
    return false;
  }
  static handle cast(bool v, return_value_policy, handle) {
    return handle(v ? Py_True : Py_False).inc_ref();
  }
};

template <>
struct type_caster<std::string> : value_caster<std::string> {
  bool load(handle src, bool) {
    if (!src) return false;
    if (PyUnicode_Check(src.ptr())) {
      Py_ssize_t n;
      const char* s = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
      if (!s) {
        PyErr_Clear();
        return false;
      }
      value.assign(s, n);
      return true;
    }
    if (PyBytes_Check(src.ptr())) {
      value.assign(PyBytes_AS_STRING(src.ptr()), PyBytes_GET_SIZE(src.ptr()));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    PyObject* p = PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    if (!p) throw error_already_set();
    return p;
  }
  MPB_PTR_CAST(std::string)
};
template <>
struct type_caster<char> {
  std::string value;
  static handle cast(const char* s, return_value_policy, handle) {
    if (!s) return handle(Py_None).inc_ref();
    PyObject* p = PyUnicode_FromString(s);
    if (!p) throw error_already_set();
    return p;
  }
};
template <size_t N>
struct type_caster<char[N]> : type_caster<char> {};
template <>
struct type_caster<std::nullopt_t> {
  static handle cast(std::nullopt_t, return_value_policy, handle) {
    return handle(Py_None).inc_ref();
  }
};

// --- python objects
template <typename T>
struct is_array_t : std::false_type {};  // specialised in detail_containers.h
template <typename T>
struct type_caster<
    T, std::enable_if_t<std::is_base_of_v<handle, T> && !is_array_t<T>::value>> {
  std::optional<T> value;
  bool load(handle src, bool) {
    if constexpr (std::is_same_v<T, handle>) {
      value = src;
      return bool(src);
    } else if constexpr (std::is_same_v<T, object>) {
      value = reinterpret_borrow<object>(src);
      return bool(src);
    } else {
      if (!T::check_(src)) return false;
      value.emplace(src, borrowed_t{});
      return true;
    }
  }
  T* as_pointer() { return &*value; }
  T& as_reference() { return *value; }
  static handle cast(const handle& src, return_value_policy, handle) {
    return src.inc_ref();
  }
};
template <>
struct type_caster<item_accessor> {
  static handle cast(const item_accessor& a, return_value_policy, handle) {
    return a.get().release();
  }
};

// --- unique_ptr return values
template <typename T, typename D>
struct type_caster<std::unique_ptr<T, D>> {
  static handle cast(std::unique_ptr<T, D>&& src, return_value_policy, handle) {
    T* p = src.release();
    return generic_cast(p, return_value_policy::take_ownership, handle(),
                        get_type_info(typeid(T), true), nullptr, nullptr);
  }
};

// --- policies
template <typename R>
constexpr return_value_policy override_policy(return_value_policy p) {
  // value results of class type are moved
  return (!std::is_lvalue_reference_v<R> && !std::is_pointer_v<R>)
             ? return_value_policy::move
             : p;
}

}  // namespace detail

template <typename T>
object cast_to_object(T&& v, return_value_policy p, handle parent) {
  using U = std::remove_reference_t<T>;
  if (p == return_value_policy::automatic)
    p = std::is_pointer_v<U> ? return_value_policy::take_ownership
        : std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                        : return_value_policy::move;
  else if (p == return_value_policy::automatic_reference)
    p = std::is_pointer_v<U> ? return_value_policy::reference
        : std::is_lvalue_reference_v<T> ? return_value_policy::copy
                                        : return_value_policy::move;
  return object(detail::make_caster<T>::cast(std::forward<T>(v), p, parent),
                stolen_t{});
}
template <typename T>
object cast(T&& v, return_value_policy p = return_value_policy::automatic_reference,
            handle parent = handle()) {
  return cast_to_object(std::forward<T>(v), p, parent);
}
template <typename T>
T handle::cast() const {
  if constexpr (std::is_same_v<T, object>) {
    return reinterpret_borrow<object>(*this);
  } else {
    detail::make_caster<T> c;
    bool ok = false;
    ok = c.load(*this, true);
    if (!ok)
      throw cast_error("Unable to cast Python instance of type " +
                       std::string(Py_TYPE(m_ptr)->tp_name) + " to C++ type");
    return detail::cast_op<T>(c);
  }
}
template <typename T>
bool handle::contains(T&& key) const {
  object k = cast_to_object(std::forward<T>(key));
  int r = PySequence_Contains(m_ptr, k.ptr());
  if (r < 0) throw error_already_set();
  return r == 1;
}
template <typename... A>
tuple make_tuple_impl(return_value_policy p, A&&... a) {
  std::array<object, sizeof...(A)> v{cast_to_object(std::forward<A>(a), p)...};
  tuple t(sizeof...(A));
  for (size_t i = 0; i < sizeof...(A); ++i)
    PyTuple_SET_ITEM(t.ptr(), i, v[i].release().ptr());
  return t;
}
template <return_value_policy P = return_value_policy::automatic_reference,
          typename... A>
tuple make_tuple(A&&... a) {
  return make_tuple_impl(P, std::forward<A>(a)...);
}
template <typename... A>
object handle::operator()(A&&... a) const {
  tuple t = make_tuple(std::forward<A>(a)...);
  return steal_checked(PyObject_CallObject(m_ptr, t.ptr()));
}

// ------------------------------------------------------------ def() attributes
struct arg_v;
struct arg {
  constexpr explicit arg(const char* n = nullptr) : name(n) {}
  template <typename T>
  arg_v operator=(T&& v) const;
  arg& noconvert(bool f = true) {
    flag_noconvert = f;
    return *this;
  }
  const char* name;
  bool flag_noconvert = false;
};
struct arg_v : arg {
  template <typename T>
  arg_v(const arg& a, T&& v)
      : arg(a), value(cast_to_object(std::forward<T>(v),
                                     return_value_policy::automatic)) {}
  object value;
};
template <typename T>
arg_v arg::operator=(T&& v) const {
  return arg_v(*this, std::forward<T>(v));
}
struct module_local {
  constexpr explicit module_local(bool v = true) : value(v) {}
  bool value;
};
struct dynamic_attr {};
template <int N, int P>
struct keep_alive {};
template <typename... G>
struct call_guard;
template <>
struct call_guard<> {
  struct type {};
};
template <typename G>
struct call_guard<G> {
  using type = G;
};
struct const_t {};
static constexpr auto const_ = std::true_type{};
template <typename... Args>
struct overload_cast_impl {
  constexpr overload_cast_impl() {}
  template <typename R>
  constexpr auto operator()(R (*f)(Args...)) const noexcept -> decltype(f) {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(Args...), std::false_type = {}) const
      noexcept -> decltype(f) {
    return f;
  }
  template <typename R, typename C>
  constexpr auto operator()(R (C::*f)(Args...) const, std::true_type) const
      noexcept -> decltype(f) {
    return f;
  }
};
template <typename... Args>
static constexpr overload_cast_impl<Args...> overload_cast{};

namespace detail {

struct function_call;
struct arg_record {
  std::string name;
  object value;
  bool has_default;
  bool convert;
};
struct function_record {
  std::string name;
  std::function<handle(function_call&)> impl;
  std::vector<arg_record> args;
  size_t nargs = 0;
  bool is_constructor = false;
  bool is_method = false;
  return_value_policy policy = return_value_policy::automatic;
  std::vector<std::pair<int, int>> keep;
  std::unique_ptr<function_record> next;
};
struct function_call {
  function_record& rec;
  std::vector<handle> args;
  bool convert;
  handle parent;
};
static PyObject* const TRY_NEXT = reinterpret_cast<PyObject*>(1);

inline void process(function_record& r, const arg& a) {
  if (r.is_method && r.args.empty())
    r.args.push_back({"self", object(), false, false});
  r.args.push_back({a.name ? a.name : "", object(), false, !a.flag_noconvert});
}
inline void process(function_record& r, const arg_v& a) {
  if (r.is_method && r.args.empty())
    r.args.push_back({"self", object(), false, false});
  r.args.push_back({a.name ? a.name : "", a.value, true, !a.flag_noconvert});
}
inline void process(function_record& r, const return_value_policy& p) {
  r.policy = p;
}
template <int N, int P>
void process(function_record& r, const keep_alive<N, P>&) {
  r.keep.emplace_back(N, P);
}
template <typename... G>
void process(function_record&, const call_guard<G...>&) {}
inline void process(function_record&, const char*) {}
inline void process(function_record&, const module_local&) {}

template <typename... E>
struct guard_of {
  using type = call_guard<>::type;
};
template <typename G, typename... E>
struct guard_of<call_guard<G>, E...> {
  using type = G;
};
template <typename F, typename... E>
struct guard_of<F, E...> : guard_of<E...> {};

inline void translate_current_exception() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (const builtin_exception& e) {
    e.set_error();
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

// 1: bound, 0: does not fit
inline bool bind_args(function_record& r, PyObject* args, PyObject* kw,
                      std::vector<handle>& out) {
  const size_t npos = PyTuple_GET_SIZE(args);
  const size_t nkw = kw ? PyDict_Size(kw) : 0;
  if (npos > r.nargs) return false;
  out.clear();
  for (size_t i = 0; i < npos; ++i) out.push_back(PyTuple_GET_ITEM(args, i));
  size_t used = 0;
  for (size_t i = npos; i < r.nargs; ++i) {
    handle v;
    if (i < r.args.size()) {
      if (nkw && !r.args[i].name.empty()) {
        v = PyDict_GetItemString(kw, r.args[i].name.c_str());
        if (v) ++used;
      }
      if (!v && r.args[i].has_default) v = r.args[i].value;
    }
    if (!v) return false;
    out.push_back(v);
  }
  return used == nkw;
}

extern "C" inline PyObject* mpb_dispatch(PyObject* self, PyObject* args,
                                         PyObject* kw) {
  auto* first =
      static_cast<function_record*>(PyCapsule_GetPointer(self, nullptr));
  const bool overloaded = first->next != nullptr;
  handle parent =
      PyTuple_GET_SIZE(args) > 0 ? PyTuple_GET_ITEM(args, 0) : nullptr;
  PyObject* result = TRY_NEXT;
  try {
    std::vector<handle> bound;
    for (int pass = overloaded ? 0 : 1; pass < 2 && result == TRY_NEXT; ++pass) {
      for (auto* r = first; r; r = r->next.get()) {
        if (r->is_constructor && parent &&
            reinterpret_cast<instance*>(parent.ptr())->value) {
          Py_RETURN_NONE;
        }
        if (!bind_args(*r, args, kw, bound)) continue;
        function_call call{*r, bound, pass == 1, parent};
        try {
          result = r->impl(call).ptr();
        } catch (reference_cast_error&) {
          result = TRY_NEXT;
        }
        if (result != TRY_NEXT) {
          for (auto& k : r->keep) {
            auto pick = [&](int i) -> handle {
              if (i == 0) return result;
              return i <= (int)bound.size() ? bound[i - 1] : handle();
            };
            keep_alive_impl(pick(k.first), pick(k.second));
          }
          break;
        }
      }
    }
  } catch (...) {
    translate_current_exception();
    return nullptr;
  }
  if (result == TRY_NEXT) {
    PyObject* rep = PyObject_Repr(args);
    std::string s = rep ? PyUnicode_AsUTF8(rep) : "?";
    Py_XDECREF(rep);
    PyErr_Clear();
    if (s.size() > 600) s = s.substr(0, 600) + "...";
    PyErr_Format(PyExc_TypeError,
                 "%s(): incompatible function arguments. Invoked with: %s%s",
                 first->name.c_str(), s.c_str(), kw ? " and keywords" : "");
    return nullptr;
  }
  return result;
}

template <typename... Args>
struct args_loader {
  std::tuple<make_caster<Args>...> casters;
  bool load(function_call& call, size_t offset = 0) {
    return load_impl(call, offset, std::index_sequence_for<Args...>{});
  }
  template <size_t... I>
  bool load_impl(function_call& call, size_t off, std::index_sequence<I...>) {
    (void)call;
    (void)off;
    bool ok = true;
    // like pybind11, stop at the first argument that does not load
    ((ok = ok && std::get<I>(casters).load(
                     call.args[I + off],
                     call.convert && (I + off >= call.rec.args.size() ||
                                      call.rec.args[I + off].name == "self" ||
                                      call.rec.args[I + off].convert))),
     ...);
    return ok;
  }
  template <typename R, typename F>
  R call(F&& f) {
    return call_impl<R>(std::forward<F>(f), std::index_sequence_for<Args...>{});
  }
  template <typename R, typename F, size_t... I>
  R call_impl(F&& f, std::index_sequence<I...>) {
    return f(static_cast<Args>(
        forward_arg<Args>(cast_op<Args>(std::get<I>(casters))))...);
  }
  template <typename A, typename V>
  static decltype(auto) forward_arg(V&& v) {
    if constexpr (std::is_rvalue_reference_v<A>)
      return std::move(v);
    else
      return std::forward<V>(v);
  }
};

template <typename Guard, typename R, typename... Args, typename F>
std::function<handle(function_call&)> make_impl(F f) {
  return [f](function_call& call) mutable -> handle {
    args_loader<Args...> loader;
    if (!loader.load(call)) return TRY_NEXT;
    const auto policy = override_policy<R>(call.rec.policy);
    if constexpr (std::is_void_v<R>) {
      {
        Guard g;
        (void)g;
        loader.template call<void>(f);
      }
      return handle(Py_None).inc_ref();
    } else {
      auto invoke = [&]() -> R {
        Guard g;
        (void)g;
        return loader.template call<R>(f);
      };
      return make_caster<R>::cast(invoke(), policy, call.parent);
    }
  };
}

// signature of a callable
template <typename F>
struct callable_sig : callable_sig<decltype(&F::operator())> {};
template <typename C, typename R, typename... A>
struct callable_sig<R (C::*)(A...)> {
  using type = R(A...);
};
template <typename C, typename R, typename... A>
struct callable_sig<R (C::*)(A...) const> {
  using type = R(A...);
};

inline object make_pyfunction(std::unique_ptr<function_record> rec) {
  auto* def = new PyMethodDef();
  def->ml_name = strdup(rec->name.c_str());
  def->ml_meth = reinterpret_cast<PyCFunction>(
      reinterpret_cast<void (*)(void)>(mpb_dispatch));
  def->ml_flags = METH_VARARGS | METH_KEYWORDS;
  object cap = steal_checked(PyCapsule_New(rec.release(), nullptr, nullptr));
  return steal_checked(PyCFunction_NewEx(def, cap.ptr(), nullptr));
}
inline function_record* record_of_function(PyObject* f) {
  if (f && PyInstanceMethod_Check(f)) f = PyInstanceMethod_GET_FUNCTION(f);
  if (!f || !PyCFunction_Check(f)) return nullptr;
  if (PyCFunction_GET_FUNCTION(f) !=
      reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(mpb_dispatch)))
    return nullptr;
  return static_cast<function_record*>(
      PyCapsule_GetPointer(PyCFunction_GET_SELF(f), nullptr));
}

template <typename Guard, typename R, typename... A, typename F>
std::unique_ptr<function_record> record_from(F f, R (*)(A...)) {
  auto r = std::make_unique<function_record>();
  r->nargs = sizeof...(A);
  r->impl = make_impl<Guard, R, A...>(std::move(f));
  return r;
}

template <typename Guard, typename F>
std::unique_ptr<function_record> make_record(F&& f) {
  using D = std::decay_t<F>;
  using S = typename callable_sig<D>::type;
  return record_from<Guard>(D(std::forward<F>(f)), static_cast<S*>(nullptr));
}
template <typename Guard, typename R, typename... A>
std::unique_ptr<function_record> make_record(R (*f)(A...)) {
  return record_from<Guard>(f, f);
}
template <typename Guard, typename R, typename C, typename... A>
std::unique_ptr<function_record> make_record(R (C::*f)(A...)) {
  auto l = [f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
  return record_from<Guard>(l, static_cast<R (*)(C*, A...)>(nullptr));
}
template <typename Guard, typename R, typename C, typename... A>
std::unique_ptr<function_record> make_record(R (C::*f)(A...) const) {
  auto l = [f](const C* c, A... a) -> R {
    return (c->*f)(std::forward<A>(a)...);
  };
  return record_from<Guard>(l, static_cast<R (*)(const C*, A...)>(nullptr));
}

// adds `rec` to `scope`, behind an existing overload if there is one
inline void install(handle scope, const char* name,
                    std::unique_ptr<function_record> rec, bool method,
                    bool is_static) {
  rec->name = name;
  PyObject* existing = nullptr;
  if (PyType_Check(scope.ptr()))
    existing = PyDict_GetItemString(
        reinterpret_cast<PyTypeObject*>(scope.ptr())->tp_dict, name);
  else
    existing = PyDict_GetItemString(PyModule_GetDict(scope.ptr()), name);
  object inner;
  if (existing && is_static &&
      Py_TYPE(existing) == &PyStaticMethod_Type) {
    inner = steal_checked(PyObject_GetAttrString(existing, "__func__"));
    existing = inner.ptr();
  }
  if (auto* chain = record_of_function(existing)) {
    while (chain->next) chain = chain->next.get();
    chain->next = std::move(rec);
    return;
  }
  object f = make_pyfunction(std::move(rec));
  if (is_static)
    f = steal_checked(PyStaticMethod_New(f.ptr()));
  else if (method)
    f = steal_checked(PyInstanceMethod_New(f.ptr()));
  if (PyObject_SetAttrString(scope.ptr(), name, f.ptr()) != 0)
    throw error_already_set();
}

template <typename... Args>
struct constructor {
  template <typename C>
  std::unique_ptr<function_record> record() const {
    auto r = std::make_unique<function_record>();
    r->nargs = sizeof...(Args) + 1;
    r->is_constructor = true;
    r->impl = [](function_call& call) -> handle {
      args_loader<Args...> loader;
      if (!loader.load(call, 1)) return TRY_NEXT;
      C* p = loader.template call<C*>([](Args... a) -> C* {
        if constexpr (std::is_constructible_v<C, Args...>)
          return new C(std::forward<Args>(a)...);
        else
          return new C{std::forward<Args>(a)...};
      });
      auto* inst = reinterpret_cast<instance*>(call.args[0].ptr());
      inst->value = p;
      inst->owned = true;
      register_instance(inst);
      return handle(Py_None).inc_ref();
    };
    return r;
  }
};
template <typename Get, typename Set>
struct pickle_factory {
  Get get;
  Set set;
};

}  // namespace detail

template <typename... Args>
detail::constructor<Args...> init() {
  return {};
}
template <typename Get, typename Set>
detail::pickle_factory<std::decay_t<Get>, std::decay_t<Set>> pickle(Get&& g,
                                                                    Set&& s) {
  return {std::forward<Get>(g), std::forward<Set>(s)};
}

template <typename Func, typename... Extra>
module_& module_::def(const char* name_, Func&& f, const Extra&... extra) {
  using Guard = typename detail::guard_of<Extra...>::type;
  auto r = detail::make_record<Guard>(std::forward<Func>(f));
  (detail::process(*r, extra), ...);
  detail::install(*this, name_, std::move(r), false, false);
  return *this;
}

template <typename T, typename... Options>
class class_ : public object {
 public:
  template <typename... Extra>
  class_(handle scope, const char* name, const Extra&...) {
    constexpr bool local = (std::is_same_v<Extra, module_local> || ...);
    PyTypeObject* t = detail::make_type(name, scope);
    auto* rec = new detail::type_record_{
        t, name, [](void* p) { delete static_cast<T*>(p); }};
    detail::get_internals().by_pytype[t] = rec;
    const std::string key = detail::type_key(typeid(T));
    if (local)
      detail::local_types()[key] = rec;
    else
      detail::get_internals().types[key] = rec;
    m_ptr = reinterpret_cast<PyObject*>(t);
    Py_INCREF(m_ptr);
  }

  template <typename Func, typename... Extra>
  class_& def(const char* name, Func&& f, const Extra&... extra) {
    add(name, std::forward<Func>(f), return_value_policy::automatic, extra...);
    return *this;
  }
  template <typename... Args, typename... Extra>
  class_& def(const detail::constructor<Args...>& c, const Extra&... extra) {
    auto r = c.template record<T>();
    r->is_method = true;
    (detail::process(*r, extra), ...);
    detail::install(*this, "__init__", std::move(r), true, false);
    return *this;
  }
  template <typename G, typename S>
  class_& def(const detail::pickle_factory<G, S>& p) {
    def("__getstate__", p.get);
    using Sig = typename detail::callable_sig<S>::type;
    def_setstate(p.set, static_cast<Sig*>(nullptr));
    return *this;
  }
  template <typename Func, typename... Extra>
  class_& def_static(const char* name, Func&& f, const Extra&... extra) {
    using Guard = typename detail::guard_of<Extra...>::type;
    auto r = detail::make_record<Guard>(std::forward<Func>(f));
    (detail::process(*r, extra), ...);
    detail::install(*this, name, std::move(r), false, true);
    return *this;
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readwrite(const char* name, D C::*pm, const Extra&... extra) {
    object g = getter([pm](const T& c) -> const D& { return c.*pm; }, extra...);
    object s = setter([pm](T& c, const D& v) { c.*pm = v; });
    return property(name, g, s);
  }
  template <typename C, typename D, typename... Extra>
  class_& def_readonly(const char* name, D C::*pm, const Extra&... extra) {
    return property(
        name, getter([pm](const T& c) -> const D& { return c.*pm; }, extra...),
        object());
  }
  template <typename D>
  class_& def_readonly_static(const char* name, const D* pm) {
    object v = cast_to_object(*pm);
    PyObject_SetAttrString(m_ptr, name, v.ptr());
    return *this;
  }
  template <typename Getter, typename Setter, typename... Extra>
  class_& def_property(const char* name, const Getter& g, const Setter& s,
                       const Extra&... extra) {
    return property(name, getter(g, extra...), setter(s));
  }
  template <typename Getter, typename... Extra>
  class_& def_property_readonly(const char* name, const Getter& g,
                                const Extra&... extra) {
    return property(name, getter(g, extra...), object());
  }

 private:
  template <typename Func, typename... Extra>
  void add(const char* name, Func&& f, return_value_policy policy,
           const Extra&... extra) {
    using Guard = typename detail::guard_of<Extra...>::type;
    auto r = detail::make_record<Guard>(std::forward<Func>(f));
    r->policy = policy;
    r->is_method = true;
    (detail::process(*r, extra), ...);
    detail::install(*this, name, std::move(r), true, false);
  }
  template <typename Func, typename... Extra>
  object getter(const Func& f, const Extra&... extra) {
    auto r = detail::make_record<call_guard<>::type>(f);
    r->policy = return_value_policy::reference_internal;
    r->is_method = true;
    (detail::process(*r, extra), ...);
    return detail::make_pyfunction(std::move(r));
  }
  template <typename Func>
  object setter(const Func& f) {
    auto r = detail::make_record<call_guard<>::type>(f);
    r->is_method = true;
    return detail::make_pyfunction(std::move(r));
  }
  class_& property(const char* name, const object& g, const object& s) {
    object p = steal_checked(PyObject_CallFunctionObjArgs(
        reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(),
        s ? s.ptr() : Py_None, Py_None, nullptr));
    if (PyObject_SetAttrString(m_ptr, name, p.ptr()) != 0)
      throw error_already_set();
    return *this;
  }
  template <typename S, typename R, typename State>
  void def_setstate(S set, R (*)(State)) {
    auto r = std::make_unique<detail::function_record>();
    r->nargs = 2;
    r->is_method = true;
    r->is_constructor = true;
    r->impl = [set](detail::function_call& call) -> handle {
      detail::args_loader<State> loader;
      if (!loader.load(call, 1)) return detail::TRY_NEXT;
      T* p = new T(loader.template call<R>(set));
      auto* inst = reinterpret_cast<detail::instance*>(call.args[0].ptr());
      inst->value = p;
      inst->owned = true;
      detail::register_instance(inst);
      return handle(Py_None).inc_ref();
    };
    detail::install(*this, "__setstate__", std::move(r), true, false);
  }
};

template <typename T>
class enum_ : public class_<T> {
 public:
  using U = std::underlying_type_t<T>;
  template <typename... Extra>
  enum_(handle scope, const char* name, const Extra&... e)
      : class_<T>(scope, name, e...), scope_(scope, borrowed_t{}) {
    members_ = steal_checked(PyDict_New());
    PyObject_SetAttrString(this->m_ptr, "__members__", members_.ptr());
    auto names = std::make_shared<std::map<long long, std::string>>();
    names_ = names;
    const std::string cls = name;
    this->def("__int__", [](const T& v) { return (long long)(U)v; });
    this->def("__index__", [](const T& v) { return (long long)(U)v; });
    this->def("__hash__", [](const T& v) { return (long long)(U)v; });
    auto eq = [](const T& v, const object& o) -> bool {
      auto* rec = get_rec();
      if (PyObject_TypeCheck(o.ptr(), rec->type)) return v == o.cast<T>();
      if (std::is_convertible_v<T, U> && PyLong_Check(o.ptr()))
        return (long long)(U)v == PyLong_AsLongLong(o.ptr());
      return false;
    };
    this->def("__eq__", eq);
    this->def("__ne__", [eq](const T& v, const object& o) { return !eq(v, o); });
    this->def_property_readonly("value",
                                [](const T& v) { return (long long)(U)v; });
    auto nm = [names](const T& v) -> std::string {
      auto it = names->find((long long)(U)v);
      return it == names->end() ? std::string("???") : it->second;
    };
    this->def_property_readonly("name", nm);
    this->def("__repr__", [cls, nm](const T& v) {
      return "<" + cls + "." + nm(v) + ": " + std::to_string((long long)(U)v) +
             ">";
    });
    this->def("__str__",
              [cls, nm](const T& v) { return cls + "." + nm(v); });
    this->def("__getstate__", [](const T& v) { return (long long)(U)v; });
    auto make = [](detail::function_call& call) -> handle {
      detail::args_loader<long long> loader;
      if (!loader.load(call, 1)) return detail::TRY_NEXT;
      T* p = loader.template call<T*>(
          [](long long v) { return new T(static_cast<T>(v)); });
      auto* inst = reinterpret_cast<detail::instance*>(call.args[0].ptr());
      inst->value = p;
      inst->owned = true;
      detail::register_instance(inst);
      return handle(Py_None).inc_ref();
    };
    for (const char* n : {"__init__", "__setstate__"}) {
      auto r = std::make_unique<detail::function_record>();
      r->nargs = 2;
      r->is_method = r->is_constructor = true;
      r->impl = make;
      detail::install(*this, n, std::move(r), true, false);
    }
  }
  enum_& value(const char* name, T v) {
    object o = cast_to_object(v, return_value_policy::copy);
    PyObject_SetAttrString(this->m_ptr, name, o.ptr());
    PyDict_SetItemString(members_.ptr(), name, o.ptr());
    names_->emplace((long long)(U)v, name);
    return *this;
  }
  enum_& export_values() {
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(members_.ptr(), &pos, &k, &v))
      PyObject_SetAttr(scope_.ptr(), k, v);
    return *this;
  }

 private:
  static detail::type_record_* get_rec() {
    return detail::get_type_info(typeid(T), true);
  }
  object scope_, members_;
  std::shared_ptr<std::map<long long, std::string>> names_;
};

// ----------------------------------------------------------------- iterators
namespace detail {
template <typename It, typename End, int Kind, return_value_policy P>
struct plain_iterator_state {
  It it;
  End end;
  bool first_or_done;
};
template <int Kind, return_value_policy P, typename It, typename End,
          typename Get>
iterator make_plain_iterator(It first, End last, Get get) {
  using state = plain_iterator_state<It, End, Kind, P>;
  using V = decltype(get(first));
  if (!get_type_info(typeid(state), false)) {
    class_<state>(handle(), "iterator", module_local())
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [get](state& s) -> V {
              if (!s.first_or_done)
                ++s.it;
              else
                s.first_or_done = false;
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return get(s.it);
            },
            P);
  }
  return cast_to_object(state{first, last, true});
}
}  // namespace detail
template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename End>
iterator make_iterator(It first, End last) {
  return detail::make_plain_iterator<0, P>(
      first, last, [](It& i) -> decltype(*i) { return *i; });
}
template <return_value_policy P = return_value_policy::reference_internal,
          typename It, typename End>
iterator make_key_iterator(It first, End last) {
  return detail::make_plain_iterator<1, P>(
      first, last, [](It& i) -> decltype(((*i).first))& { return (*i).first; });
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                   \
  static void mpb_init_##name(pybind11::module_&);                        \
  extern "C" __attribute__((visibility("default"))) PyObject*             \
      PyInit_##name() {                                                   \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,  \
                              nullptr, nullptr, nullptr, nullptr, nullptr}; \
    PyObject* m = PyModule_Create(&def);                                  \
    if (!m) return nullptr;                                               \
    try {                                                                 \
      pybind11::module_ mod(m, pybind11::borrowed_t{});                   \
      /* classes get their qualified module name */                       \
      PyObject_SetAttrString(                                             \
          m, "__name__",                                                  \
          pybind11::str("opensfm." #name).ptr());                         \
      mpb_init_##name(mod);                                               \
      return m;                                                           \
    } catch (...) {                                                       \
      pybind11::detail::translate_current_exception();                    \
      Py_DECREF(m);                                                       \
      return nullptr;                                                     \
    }                                                                     \
  }                                                                       \
  void mpb_init_##name(pybind11::module_& variable)

#include <pybind11/detail_containers.h>
