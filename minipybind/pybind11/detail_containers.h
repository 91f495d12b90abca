// stl, numpy and Eigen conversions (included by pybind11.h)
#pragma once
#include <Eigen/Core>

namespace pybind11 {
namespace detail {

// iterates any python iterable that is not a string
template <typename F>
bool for_each_item(handle src, F&& f) {
  object it(PyObject_GetIter(src.ptr()), stolen_t{});
  if (!it) {
    PyErr_Clear();
    return false;
  }
  while (PyObject* n = PyIter_Next(it.ptr())) {
    object item(n, stolen_t{});
    if (!f(item)) return false;
  }
  if (PyErr_Occurred()) throw error_already_set();
  return true;
}
inline bool is_text(handle h) {
  return PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr());
}

template <typename C>
return_value_policy elem_policy(return_value_policy p) {
  using V = typename remove_cvref_t<C>::value_type;
  return std::is_lvalue_reference_v<C> ? p : override_policy<V>(p);
}

template <typename Type, typename Value>
struct list_caster {
  Type value;
  Type* as_pointer() { return &value; }
  Type& as_reference() { return value; }
  bool load(handle src, bool convert) {
    if (!src || is_text(src) || PyDict_Check(src.ptr())) return false;
    const bool seq = PySequence_Check(src.ptr());
    // generators, sets and dict views convert as in pybind11 >= 2.14
    if (!seq && !PyAnySet_Check(src.ptr()) && !PyGen_Check(src.ptr()) &&
        !PyDictKeys_Check(src.ptr()) && !PyDictValues_Check(src.ptr()) &&
        !PyDictItems_Check(src.ptr()) && !PyMap_Check_(src))
      return false;
    value.clear();
    return for_each_item(src, [&](object& o) {
      make_caster<Value> c;
      if (!c.load(o, convert)) return false;
      value.push_back(cast_op<Value>(c));
      return true;
    });
  }
  static bool PyMap_Check_(handle h) { return Py_TYPE(h.ptr()) == &PyMap_Type; }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    policy = elem_policy<T>(policy);
    object l = steal_checked(PyList_New(src.size()));
    Py_ssize_t i = 0;
    for (auto&& v : src) {
      using E = std::conditional_t<std::is_lvalue_reference_v<T>, decltype(v)&,
                                   remove_cvref_t<decltype(v)>&&>;
      PyList_SET_ITEM(
          l.ptr(), i++,
          make_caster<Value>::cast(static_cast<E>(v), policy, parent).ptr());
    }
    return l.release();
  }
};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};
template <typename A>
struct type_caster<std::vector<bool, A>> {
  std::vector<bool, A> value;
  auto* as_pointer() { return &value; }
  auto& as_reference() { return value; }
  bool load(handle src, bool convert) {
    value.clear();
    return for_each_item(src, [&](object& o) {
      make_caster<bool> c;
      if (!c.load(o, convert)) return false;
      value.push_back(c.value);
      return true;
    });
  }
  static handle cast(const std::vector<bool, A>& src, return_value_policy,
                     handle) {
    object l = steal_checked(PyList_New(src.size()));
    for (size_t i = 0; i < src.size(); ++i)
      PyList_SET_ITEM(l.ptr(), i,
                      handle(src[i] ? Py_True : Py_False).inc_ref().ptr());
    return l.release();
  }
};
template <typename T, typename A>
struct type_caster<std::list<T, A>> : list_caster<std::list<T, A>, T> {};
template <typename T, size_t N>
struct type_caster<std::array<T, N>> : value_caster<std::array<T, N>> {
  bool load(handle src, bool convert) {
    if (!src || is_text(src) || !PySequence_Check(src.ptr())) return false;
    if ((size_t)PySequence_Size(src.ptr()) != N) return false;
    size_t i = 0;
    return for_each_item(src, [&](object& o) {
      make_caster<T> c;
      if (!c.load(o, convert)) return false;
      this->value[i++] = cast_op<T>(c);
      return true;
    });
  }
  static handle cast(const std::array<T, N>& src, return_value_policy p,
                     handle parent) {
    object l = steal_checked(PyList_New(N));
    for (size_t i = 0; i < N; ++i)
      PyList_SET_ITEM(l.ptr(), i, make_caster<T>::cast(src[i], p, parent).ptr());
    return l.release();
  }
};

template <typename Type, typename Key>
struct set_caster {
  Type value;
  Type* as_pointer() { return &value; }
  Type& as_reference() { return value; }
  bool load(handle src, bool convert) {
    if (!src || (!PyAnySet_Check(src.ptr()) && !PyDictKeys_Check(src.ptr())))
      return false;
    value.clear();
    return for_each_item(src, [&](object& o) {
      make_caster<Key> c;
      if (!c.load(o, convert)) return false;
      value.insert(cast_op<Key>(c));
      return true;
    });
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    policy = elem_policy<T>(policy);
    object s = steal_checked(PySet_New(nullptr));
    for (auto& v : src) {
      object o(make_caster<Key>::cast(v, policy, parent), stolen_t{});
      if (PySet_Add(s.ptr(), o.ptr()) != 0) throw error_already_set();
    }
    return s.release();
  }
};
template <typename K, typename C, typename A>
struct type_caster<std::set<K, C, A>> : set_caster<std::set<K, C, A>, K> {};
template <typename K, typename H, typename E, typename A>
struct type_caster<std::unordered_set<K, H, E, A>>
    : set_caster<std::unordered_set<K, H, E, A>, K> {};

template <typename Type, typename Key, typename Value>
struct map_caster {
  Type value;
  Type* as_pointer() { return &value; }
  Type& as_reference() { return value; }
  bool load(handle src, bool convert) {
    if (!src) return false;
    object items;
    if (!PyDict_Check(src.ptr())) {
      if (!convert || !PyMapping_Check(src.ptr()) ||
          !PyObject_HasAttrString(src.ptr(), "items"))
        return false;
      PyObject* d = PyObject_CallFunctionObjArgs((PyObject*)&PyDict_Type,
                                                 src.ptr(), nullptr);
      if (!d) {
        PyErr_Clear();
        return false;
      }
      items = object(d, stolen_t{});
      src = items;
    }
    value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
      make_caster<Key> ck;
      make_caster<Value> cv;
      if (!ck.load(k, convert) || !cv.load(v, convert)) return false;
      value.emplace(cast_op<Key>(ck), cast_op<Value>(cv));
    }
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    auto pk = policy, pv = policy;
    if (!std::is_lvalue_reference_v<T>) {
      pk = override_policy<Key>(policy);
      pv = override_policy<Value>(policy);
    }
    object d = steal_checked(PyDict_New());
    for (auto& [kk, vv] : src) {
      object k(make_caster<Key>::cast(kk, pk, parent), stolen_t{});
      object v;
      if constexpr (std::is_lvalue_reference_v<T>)
        v = object(make_caster<Value>::cast(vv, pv, parent), stolen_t{});
      else
        v = object(make_caster<Value>::cast(std::move(vv), pv, parent),
                   stolen_t{});
      if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0)
        throw error_already_set();
    }
    return d.release();
  }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>>
    : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <template <typename...> class Tuple, typename... Ts>
struct tuple_caster {
  std::tuple<make_caster<Ts>...> subs;
  std::optional<Tuple<Ts...>> value;
  auto* as_pointer() { return &*value; }
  auto& as_reference() { return *value; }
  bool load(handle src, bool convert) {
    if (!src || is_text(src) || !PySequence_Check(src.ptr())) return false;
    if (PySequence_Size(src.ptr()) != (Py_ssize_t)sizeof...(Ts)) {
      PyErr_Clear();
      return false;
    }
    return load_impl(src, convert, std::index_sequence_for<Ts...>{});
  }
  template <size_t... I>
  bool load_impl(handle src, bool convert, std::index_sequence<I...>) {
    std::array<object, sizeof...(Ts)> items{
        steal_checked(PySequence_GetItem(src.ptr(), I))...};
    if (!(std::get<I>(subs).load(items[I], convert) && ...)) return false;
    value.emplace(cast_op<Ts>(std::get<I>(subs))...);
    return true;
  }
  template <typename T>
  static handle cast(T&& src, return_value_policy policy, handle parent) {
    return cast_impl(std::forward<T>(src), policy, parent,
                     std::index_sequence_for<Ts...>{});
  }
  template <typename T, size_t... I>
  static handle cast_impl(T&& src, return_value_policy policy, handle parent,
                          std::index_sequence<I...>) {
    std::array<object, sizeof...(Ts)> items{
        object(make_caster<Ts>::cast(std::get<I>(std::forward<T>(src)), policy,
                                     parent),
               stolen_t{})...};
    object t = steal_checked(PyTuple_New(sizeof...(Ts)));
    for (size_t i = 0; i < sizeof...(Ts); ++i)
      PyTuple_SET_ITEM(t.ptr(), i, items[i].release().ptr());
    return t.release();
  }
};
template <typename A, typename B>
struct type_caster<std::pair<A, B>> : tuple_caster<std::pair, A, B> {};
template <typename... Ts>
struct type_caster<std::tuple<Ts...>> : tuple_caster<std::tuple, Ts...> {};

template <typename T>
struct type_caster<std::optional<T>> : value_caster<std::optional<T>> {
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (src.is_none()) {
      this->value.reset();
      return true;
    }
    make_caster<T> c;
    if (!c.load(src, convert)) return false;
    this->value.emplace(cast_op<T>(c));
    return true;
  }
  template <typename U>
  static handle cast(U&& src, return_value_policy policy, handle parent) {
    if (!src) return handle(Py_None).inc_ref();
    if (!std::is_lvalue_reference_v<U>) policy = override_policy<T>(policy);
    return make_caster<T>::cast(*std::forward<U>(src), policy, parent);
  }
};

// --------------------------------------------------------------------- numpy
static inline void ensure_numpy() {
  if (!PyArray_API && _import_array() < 0) throw error_already_set();
}
// numpy's C API table is static in every translation unit: it is filled when
// the extension module is loaded (the importing thread holds the GIL).
static const bool numpy_ready = (_import_array(), true);
template <typename T>
constexpr int npy_type() {
  if constexpr (std::is_same_v<T, double>) return NPY_DOUBLE;
  else if constexpr (std::is_same_v<T, float>) return NPY_FLOAT;
  else if constexpr (std::is_same_v<T, bool>) return NPY_BOOL;
  else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
    return sizeof(T) == 1 ? NPY_INT8 : sizeof(T) == 2 ? NPY_INT16
         : sizeof(T) == 4 ? NPY_INT32 : NPY_INT64;
  else
    return sizeof(T) == 1 ? NPY_UINT8 : sizeof(T) == 2 ? NPY_UINT16
         : sizeof(T) == 4 ? NPY_UINT32 : NPY_UINT64;
}
}  // namespace detail

class array : public object {
 public:
  enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS,
         forcecast = NPY_ARRAY_FORCECAST };
  array() = default;
  array(handle h, borrowed_t t) : object(h, t) {}
  array(handle h, stolen_t t) : object(h, t) {}
  static bool check_(handle h) {
    detail::ensure_numpy();
    return h.ptr() && PyArray_Check(h.ptr());
  }
  ssize_t ndim() const { return PyArray_NDIM(a()); }
  ssize_t size() const { return PyArray_SIZE(a()); }
  ssize_t shape(ssize_t i) const {
    if (i >= ndim()) throw index_error("invalid axis");
    return PyArray_DIM(a(), i);
  }
  const ssize_t* shape() const { return (const ssize_t*)PyArray_DIMS(a()); }

 protected:
  PyArrayObject* a() const { return reinterpret_cast<PyArrayObject*>(m_ptr); }
};

template <typename T, int Flags = array::forcecast>
class array_t : public array {
 public:
  array_t() : array_t(std::vector<size_t>{0}) {}
  array_t(handle h, borrowed_t t) : array(h, t) {}
  array_t(handle h, stolen_t t) : array(h, t) {}
  template <int F2>
  array_t(const array_t<T, F2>& o) : array(o, borrowed_t{}) {}
  explicit array_t(size_t n) : array_t(std::vector<size_t>{n}) {}
  array_t(std::initializer_list<size_t> s) : array_t(std::vector<size_t>(s)) {}
  explicit array_t(const std::vector<size_t>& shape) {
    detail::ensure_numpy();
    std::vector<npy_intp> d(shape.begin(), shape.end());
    m_ptr = PyArray_SimpleNew((int)d.size(), d.data(), detail::npy_type<T>());
    if (!m_ptr) throw error_already_set();
  }
  static bool check_exact(handle h) {
    detail::ensure_numpy();
    if (!h.ptr() || !PyArray_Check(h.ptr())) return false;
    auto* p = reinterpret_cast<PyArrayObject*>(h.ptr());
    return PyArray_EquivTypenums(PyArray_TYPE(p), detail::npy_type<T>()) &&
           (!(Flags & array::c_style) || PyArray_IS_C_CONTIGUOUS(p));
  }
  static object ensure(handle h) {
    detail::ensure_numpy();
    PyObject* r = PyArray_FromAny(h.ptr(),
                                  PyArray_DescrFromType(detail::npy_type<T>()),
                                  0, 0, NPY_ARRAY_ENSUREARRAY | Flags, nullptr);
    if (!r) PyErr_Clear();
    return object(r, stolen_t{});
  }
  const T* data() const { return static_cast<const T*>(PyArray_DATA(a())); }
  T* mutable_data() {
    if (!PyArray_ISWRITEABLE(a())) throw std::domain_error("array is not writeable");
    return static_cast<T*>(PyArray_DATA(a()));
  }
  T* mutable_data() const { return const_cast<array_t*>(this)->mutable_data(); }
};

namespace detail {
template <typename T, int F>
struct is_array_t<array_t<T, F>> : std::true_type {};
template <typename T, int F>
struct type_caster<array_t<T, F>> {
  std::optional<array_t<T, F>> value;
  bool load(handle src, bool convert) {
    if (!src) return false;
    if (!convert && !array_t<T, F>::check_exact(src)) return false;
    object o = array_t<T, F>::ensure(src);
    if (!o) return false;
    value.emplace(o, borrowed_t{});
    return true;
  }
  array_t<T, F>* as_pointer() { return &*value; }
  array_t<T, F>& as_reference() { return *value; }
  static handle cast(const handle& src, return_value_policy, handle) {
    return src.inc_ref();
  }
};

// --------------------------------------------------------------------- Eigen
template <typename T>
struct is_eigen_plain : std::false_type {};
template <typename S, int R, int C, int O, int MR, int MC>
struct is_eigen_plain<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};

template <typename M>
struct type_caster<M, std::enable_if_t<is_eigen_plain<M>::value>>
    : value_caster<M> {
  using S = typename M::Scalar;
  static constexpr int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime;
  static constexpr bool vec = M::IsVectorAtCompileTime;
  static constexpr bool fr = R != Eigen::Dynamic, fc = C != Eigen::Dynamic;

  bool load(handle src, bool convert) {
    ensure_numpy();
    if (!src) return false;
    if (!convert) {
      if (!PyArray_Check(src.ptr()) ||
          !PyArray_EquivTypenums(
              PyArray_TYPE(reinterpret_cast<PyArrayObject*>(src.ptr())),
              npy_type<S>()))
        return false;
    }
    if (src.is_none()) return false;
    PyObject* arr = PyArray_FromAny(src.ptr(), nullptr, 0, 0,
                                    NPY_ARRAY_ENSUREARRAY, nullptr);
    if (!arr) {
      PyErr_Clear();
      return false;
    }
    object buf(arr, stolen_t{});
    auto* a = reinterpret_cast<PyArrayObject*>(arr);
    const int nd = PyArray_NDIM(a);
    if (nd < 1 || nd > 2) return false;
    npy_intp rows, cols;
    if (nd == 2) {
      rows = PyArray_DIM(a, 0);
      cols = PyArray_DIM(a, 1);
      if ((fr && rows != R) || (fc && cols != C)) return false;
    } else {
      const npy_intp n = PyArray_DIM(a, 0);
      if (vec) {
        if (fr && fc && n != (npy_intp)M::SizeAtCompileTime) return false;
        rows = R == 1 ? 1 : n;
        cols = C == 1 ? 1 : n;
      } else if (fr && fc) {
        return false;
      } else if (fc) {
        if (n != C) return false;
        rows = 1;
        cols = n;
      } else {
        if (fr && n != R) return false;
        rows = n;
        cols = 1;
      }
    }
    PyObject* c = PyArray_FromAny(
        arr, PyArray_DescrFromType(npy_type<S>()), 0, 0,
        NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_ALIGNED | NPY_ARRAY_FORCECAST,
        nullptr);
    if (!c) {
      PyErr_Clear();
      return false;
    }
    object cg(c, stolen_t{});
    const S* d = static_cast<const S*>(
        PyArray_DATA(reinterpret_cast<PyArrayObject*>(c)));
    this->value.resize(rows, cols);
    for (npy_intp i = 0; i < rows; ++i)
      for (npy_intp j = 0; j < cols; ++j) this->value(i, j) = d[i * cols + j];
    return true;
  }

  // a numpy array on src's memory, kept valid by base
  static handle view(const M& src, handle base, bool writeable) {
    ensure_numpy();
    npy_intp dims[2], strides[2];
    int nd;
    const npy_intp sz = sizeof(S);
    if (vec) {
      nd = 1;
      dims[0] = src.size();
      strides[0] = sz * (npy_intp)src.innerStride();
    } else {
      nd = 2;
      dims[0] = src.rows();
      dims[1] = src.cols();
      strides[0] = sz * (npy_intp)src.rowStride();
      strides[1] = sz * (npy_intp)src.colStride();
    }
    PyObject* o = PyArray_NewFromDescr(
        &PyArray_Type, PyArray_DescrFromType(npy_type<S>()), nd, dims, strides,
        const_cast<S*>(src.data()), writeable ? NPY_ARRAY_WRITEABLE : 0,
        nullptr);
    if (!o) throw error_already_set();
    if (base) {
      PyArray_SetBaseObject(reinterpret_cast<PyArrayObject*>(o),
                            base.inc_ref().ptr());
    }
    return o;
  }
  static handle own(M* p) {
    object cap = steal_checked(PyCapsule_New(p, nullptr, [](PyObject* o) {
      delete static_cast<M*>(PyCapsule_GetPointer(o, nullptr));
    }));
    return view(*p, cap, true);
  }
  static handle copy(const M& src) {
    ensure_numpy();
    object v(view(src, handle(), true), stolen_t{});
    PyObject* c = PyArray_NewCopy(reinterpret_cast<PyArrayObject*>(v.ptr()),
                                  NPY_ANYORDER);
    if (!c) throw error_already_set();
    return c;
  }
  template <typename CM>
  static handle cast_impl(CM* src, return_value_policy policy, handle parent) {
    constexpr bool w = !std::is_const_v<CM>;
    switch (policy) {
      case return_value_policy::take_ownership:
      case return_value_policy::automatic:
        return own(const_cast<M*>(src));
      case return_value_policy::move:
        return own(new M(std::move(*src)));
      case return_value_policy::copy:
        return copy(*src);
      case return_value_policy::reference:
      case return_value_policy::automatic_reference:
        return view(*src, Py_None, w);
      default:
        return view(*src, parent, w);
    }
  }
  static handle cast(M&& src, return_value_policy, handle parent) {
    return cast_impl(&src, return_value_policy::move, parent);
  }
  static handle cast(const M&& src, return_value_policy, handle parent) {
    return cast_impl(&src, return_value_policy::move, parent);
  }
  static return_value_policy lref(return_value_policy p) {
    return p == return_value_policy::automatic ||
                   p == return_value_policy::automatic_reference
               ? return_value_policy::copy
               : p;
  }
  static handle cast(M& src, return_value_policy p, handle parent) {
    return cast_impl(&src, lref(p), parent);
  }
  static handle cast(const M& src, return_value_policy p, handle parent) {
    return cast_impl(&src, lref(p), parent);
  }
  static handle cast(M* src, return_value_policy p, handle parent) {
    return cast_impl(src, p, parent);
  }
  static handle cast(const M* src, return_value_policy p, handle parent) {
    return cast_impl(src, p, parent);
  }
};

}  // namespace detail
}  // namespace pybind11
