// A small stand-in for pybind11 over the CPython API: what python/bindings.cpp uses, and much of what an equivalent way of
// writing it could use, with pybind11's
// semantics for argument conversion (exact types first, then conversions), overloads, keyword arguments, defaults,
// return values (references into an object are returned as references only from def_readwrite, holders are shared),
// exceptions and pickling.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

typedef Py_ssize_t ssize_t_;

namespace pybind11
{
using ssize_t = Py_ssize_t;

struct error_already_set : std::exception
{
    const char *what() const noexcept override { return "Python error"; }
};
// exceptions that have a Python class of their own
struct builtin_exception : std::runtime_error
{
    PyObject *type;
    builtin_exception(PyObject *t, const std::string &s) : std::runtime_error(s), type(t) {}
    void set_error() const { PyErr_SetString(type, what()); }
};
#define STANDIN_EXCEPTION(NAME, TYPE)                                                                                  \
    struct NAME : builtin_exception                                                                                    \
    {                                                                                                                  \
        NAME(const std::string &s = "") : builtin_exception(TYPE, s) {}                                                \
    };
STANDIN_EXCEPTION(index_error, PyExc_IndexError)
STANDIN_EXCEPTION(key_error, PyExc_KeyError)
STANDIN_EXCEPTION(value_error, PyExc_ValueError)
STANDIN_EXCEPTION(type_error, PyExc_TypeError)
STANDIN_EXCEPTION(attribute_error, PyExc_AttributeError)
STANDIN_EXCEPTION(buffer_error, PyExc_BufferError)
STANDIN_EXCEPTION(import_error, PyExc_ImportError)
STANDIN_EXCEPTION(stop_iteration, PyExc_StopIteration)
STANDIN_EXCEPTION(cast_error, PyExc_RuntimeError)
STANDIN_EXCEPTION(reference_cast_error, PyExc_RuntimeError)
#undef STANDIN_EXCEPTION
[[noreturn]] inline void pybind11_fail(const std::string &s) { throw std::runtime_error(s); }

enum class return_value_policy : uint8_t
{
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};

// ------------------------------------------------------------------ objects
class object;
class accessor;
class iterator;
class str;
class handle
{
  public:
    PyObject *p{};
    handle() = default;
    handle(PyObject *q) : p(q) {}
    template <class T> T cast() const;
    explicit operator bool() const { return p != nullptr; }
    PyObject *ptr() const { return p; }
    bool is(const handle &o) const { return p == o.p; }
    bool is_none() const { return p == Py_None; }
    bool equal(const handle &o) const { return PyObject_RichCompareBool(p, o.p, Py_EQ) == 1; }
    const handle &inc_ref() const { return Py_XINCREF(p), *this; }
    const handle &dec_ref() const { return Py_XDECREF(p), *this; }
    accessor attr(const char *n) const;
    template <class... A> object operator()(A &&...a) const;
    iterator begin() const;
    iterator end() const;
    template <class K> bool contains(K &&k) const;
    handle get_type() const { return handle(reinterpret_cast<PyObject *>(Py_TYPE(p))); }
};
class object : public handle
{
  public:
    object() = default;
    object(const object &o) : handle(o.p) { Py_XINCREF(p); }
    object(object &&o) noexcept : handle(o.p) { o.p = nullptr; }
    object &operator=(const object &o)
    {
        Py_XINCREF(o.p);
        Py_XDECREF(std::exchange(p, o.p));
        return *this;
    }
    object &operator=(object &&o) noexcept
    {
        std::swap(p, o.p);
        return *this;
    }
    ~object() { Py_XDECREF(p); }
    static object steal(PyObject *q)
    {
        if (!q)
            throw error_already_set();
        object o;
        o.p = q;
        return o;
    }
    static object borrow(PyObject *q)
    {
        Py_XINCREF(q);
        object o;
        o.p = q;
        return o;
    }
    PyObject *release()
    {
        PyObject *q = p;
        p = nullptr;
        return q;
    }
};
template <class T> T reinterpret_steal(handle h)
{
    T t;
    static_cast<object &>(t) = object::steal(h.p);
    return t;
}
template <class T> T reinterpret_borrow(handle h)
{
    T t;
    static_cast<object &>(t) = object::borrow(h.p);
    return t;
}
class accessor : public object // an attribute or an item: its value now, or a place to assign to
{
    object of_, key_;
    bool item_;

  public:
    accessor(object of, object key, bool item) : of_(std::move(of)), key_(std::move(key)), item_(item)
    {
        p = item_ ? PyObject_GetItem(of_.p, key_.p) : PyObject_GetAttr(of_.p, key_.p);
        if (!p)
            PyErr_Clear();
    }
    void set(const object &v) const
    {
        if (item_ ? PyObject_SetItem(of_.p, key_.p, v.p) : PyObject_SetAttr(of_.p, key_.p, v.p))
            throw error_already_set();
    }
    template <class V> const accessor &operator=(V &&v) const;
    const accessor &operator=(const accessor &o) const { return set(o), *this; }
};
inline accessor handle::attr(const char *n) const { return accessor(object::borrow(p), object::steal(PyUnicode_FromString(n)), false); }
class iterator : public object // advances only when its value is asked for, or in a loop
{
    mutable object now_;
    mutable bool started_{};
    void start() const
    {
        if (p && !std::exchange(started_, true))
            const_cast<iterator &>(*this).advance();
    }
    void advance()
    {
        PyObject *q = PyIter_Next(p);
        if (!q && PyErr_Occurred())
            throw error_already_set();
        now_ = q ? object::steal(q) : object();
    }

  public:
    static bool check_(handle h) { return PyIter_Check(h.p); }
    using iterator_category = std::input_iterator_tag;
    using value_type = handle;
    using difference_type = Py_ssize_t;
    using reference = handle;
    using pointer = const handle *;
    iterator() = default;
    iterator(object it) : object(std::move(it)) {}
    iterator &operator++()
    {
        start();
        advance();
        return *this;
    }
    handle operator*() const { return start(), handle(now_.p); }
    bool operator==(const iterator &o) const { return start(), o.start(), now_.p == o.now_.p; }
    bool operator!=(const iterator &o) const { return !(*this == o); }
};
inline iterator handle::begin() const { return iterator(object::steal(PyObject_GetIter(p))); }
inline iterator handle::end() const { return iterator(); }
template <class K> accessor item(const object &of, K &&k);
inline size_t lengthOf(handle h)
{
    const Py_ssize_t n = PyObject_Size(h.p);
    if (n < 0)
        throw error_already_set();
    return static_cast<size_t>(n);
}

struct none : object
{
    none() { Py_INCREF(p = Py_None); }
    static bool check_(handle h) { return h.p == Py_None; }
};
struct tuple : object
{
    explicit tuple(size_t n = 0) { p = PyTuple_New(static_cast<Py_ssize_t>(n)); }
    tuple(object o) : object(PyTuple_Check(o.p) ? std::move(o) : object::steal(PySequence_Tuple(o.p))) {}
    size_t size() const { return static_cast<size_t>(PyTuple_Size(p)); }
    bool empty() const { return !size(); }
    object operator[](size_t i) const
    {
        PyObject *q = PyTuple_GetItem(p, static_cast<Py_ssize_t>(i));
        if (!q)
            throw error_already_set();
        return borrow(q);
    }
    static bool check_(handle h) { return PyTuple_Check(h.p); }
};
struct list : object
{
    explicit list(size_t n = 0)
    {
        p = PyList_New(static_cast<Py_ssize_t>(n));
        for (size_t i = 0; i < n; i++)
            PyList_SetItem(p, static_cast<Py_ssize_t>(i), (Py_INCREF(Py_None), Py_None));
    }
    list(object o) : object(PyList_Check(o.p) ? std::move(o) : object::steal(PySequence_List(o.p))) {}
    size_t size() const { return static_cast<size_t>(PyList_Size(p)); }
    bool empty() const { return !size(); }
    template <class V> void append(V &&v) const;
    template <class V> void insert(size_t i, V &&v) const;
    accessor operator[](size_t i) const { return accessor(*this, object::steal(PyLong_FromSize_t(i)), true); }
    static bool check_(handle h) { return PyList_Check(h.p); }
};
struct sequence : object
{
    sequence() = default;
    sequence(object o) : object(std::move(o)) {}
    size_t size() const { return lengthOf(*this); }
    bool empty() const { return !size(); }
    object operator[](size_t i) const { return object::steal(PySequence_GetItem(p, static_cast<Py_ssize_t>(i))); }
    static bool check_(handle h) { return PySequence_Check(h.p); }
};
struct iterable : object
{
    iterable() = default;
    iterable(object o) : object(std::move(o)) {}
    static bool check_(handle h)
    {
        PyObject *i = PyObject_GetIter(h.p);
        i ? Py_DECREF(i) : PyErr_Clear();
        return i;
    }
};
struct dict : object
{
    dict() { p = PyDict_New(); }
    dict(object o) : object(std::move(o)) {}
    size_t size() const { return static_cast<size_t>(PyDict_Size(p)); }
    bool empty() const { return !size(); }
    accessor operator[](const char *k) const { return accessor(*this, object::steal(PyUnicode_FromString(k)), true); }
    accessor operator[](const object &k) const { return accessor(*this, k, true); }
    static bool check_(handle h) { return PyDict_Check(h.p); }
};
struct set : object
{
    set() { p = PySet_New(nullptr); }
    set(object o) : object(std::move(o)) {}
    size_t size() const { return static_cast<size_t>(PySet_Size(p)); }
    template <class V> bool add(V &&v) const;
    static bool check_(handle h) { return PySet_Check(h.p); }
};
struct bytes : object
{
    bytes() { p = PyBytes_FromStringAndSize("", 0); }
    bytes(object o) : object(std::move(o)) {}
    bytes(const std::string &s) { p = PyBytes_FromStringAndSize(s.data(), static_cast<Py_ssize_t>(s.size())); }
    bytes(const char *s) : bytes(std::string(s)) {}
    bytes(const char *s, size_t n) : bytes(std::string(s, n)) {}
    operator std::string() const { return std::string(PyBytes_AsString(p), static_cast<size_t>(PyBytes_Size(p))); }
    size_t size() const { return static_cast<size_t>(PyBytes_Size(p)); }
    static bool check_(handle h) { return PyBytes_Check(h.p); }
};
class str : public object
{
  public:
    str() { p = PyUnicode_FromString(""); }
    str(object o) : object(PyUnicode_Check(o.p) ? std::move(o) : object::steal(PyObject_Str(o.p))) {}
    explicit str(handle h) : object(object::steal(PyObject_Str(h.p))) {}
    str(const std::string &s) : object(object::steal(PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), nullptr))) {}
    str(const char *s) : str(std::string(s)) {}
    str(const char *s, size_t n) : str(std::string(s, n)) {}
    operator std::string() const
    {
        Py_ssize_t n;
        const char *s = PyUnicode_AsUTF8AndSize(p, &n);
        if (!s)
            throw error_already_set();
        return std::string(s, static_cast<size_t>(n));
    }
    template <class... A> str format(A &&...a) const { return str(static_cast<const object &>(attr("format")(std::forward<A>(a)...))); }
    static bool check_(handle h) { return PyUnicode_Check(h.p) || PyBytes_Check(h.p); }
};
struct int_ : object
{
    int_() { p = PyLong_FromLong(0); }
    int_(object o) : object(PyLong_Check(o.p) ? std::move(o) : object::steal(PyNumber_Long(o.p))) {}
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>> int_(I i)
    {
        p = std::is_unsigned_v<I> ? PyLong_FromUnsignedLongLong(i) : PyLong_FromLongLong(static_cast<long long>(i));
    }
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>> operator I() const { return static_cast<I>(PyLong_AsLongLong(p)); }
    static bool check_(handle h) { return PyLong_Check(h.p); }
};
struct float_ : object
{
    float_(double d = 0) { p = PyFloat_FromDouble(d); }
    float_(object o) : object(PyFloat_Check(o.p) ? std::move(o) : object::steal(PyNumber_Float(o.p))) {}
    operator double() const { return PyFloat_AsDouble(p); }
    static bool check_(handle h) { return PyFloat_Check(h.p); }
};
struct bool_ : object
{
    bool_(bool b = false) { p = PyBool_FromLong(b); }
    bool_(object o) : object(std::move(o)) {}
    operator bool() const { return p == Py_True; }
    static bool check_(handle h) { return PyBool_Check(h.p); }
};
struct function : object
{
    function() = default;
    function(object o) : object(std::move(o)) {}
    static bool check_(handle h) { return PyCallable_Check(h.p); }
};
struct args : tuple
{
    using tuple::tuple;
};
struct kwargs : dict
{
    using dict::dict;
};
struct type : object
{
    type() = default;
    type(object o) : object(std::move(o)) {}
    static type of(handle h) { return type(object::borrow(reinterpret_cast<PyObject *>(Py_TYPE(h.p)))); }
    static bool check_(handle h) { return PyType_Check(h.p); }
};
struct capsule : object
{
    capsule() = default;
    capsule(const void *v, void (*)(void *) = nullptr) : object(object::steal(PyCapsule_New(const_cast<void *>(v), nullptr, nullptr))) {}
};
struct slice : object
{
    slice() = default;
    slice(object o) : object(std::move(o)) {}
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *len) const
    {
        Py_ssize_t a, b, c, n;
        if (PySlice_GetIndicesEx(p, static_cast<Py_ssize_t>(length), &a, &b, &c, &n))
            return false;
        *start = static_cast<size_t>(a), *stop = static_cast<size_t>(b), *step = static_cast<size_t>(c), *len = static_cast<size_t>(n);
        return true;
    }
    bool compute(Py_ssize_t length, Py_ssize_t *start, Py_ssize_t *stop, Py_ssize_t *step, Py_ssize_t *len) const
    {
        return PySlice_GetIndicesEx(p, length, start, stop, step, len) == 0;
    }
    static bool check_(handle h) { return PySlice_Check(h.p); }
};
struct gil_scoped_release
{
};
struct gil_scoped_acquire
{
};

// ------------------------------------------------------------------ registered types
namespace detail
{
struct Instance
{
    PyObject_HEAD
    void *ptr;
    std::shared_ptr<void> *holder;
};
struct Record;
struct TypeInfo
{
    PyTypeObject *type{};
    std::vector<std::function<bool(PyObject *)>> implicit; // can be converted from
    bool converting{};
};
inline std::unordered_map<std::type_index, TypeInfo> &types()
{
    static std::unordered_map<std::type_index, TypeInfo> t;
    return t;
}
inline TypeInfo *find(std::type_index i)
{
    auto it = types().find(i);
    return it == types().end() ? nullptr : &it->second;
}
inline PyObject *instance(std::type_index i, void *ptr, std::shared_ptr<void> holder)
{
    auto *t = find(i);
    if (!t)
    {
        PyErr_Format(PyExc_TypeError, "Unable to convert function return value to a Python type! (%s)", i.name());
        return nullptr;
    }
    auto *o = reinterpret_cast<Instance *>(t->type->tp_alloc(t->type, 0));
    if (!o)
        return nullptr;
    o->ptr = ptr;
    o->holder = new std::shared_ptr<void>(std::move(holder));
    return reinterpret_cast<PyObject *>(o);
}
template <class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template <class T> using intrinsic = std::remove_cv_t<std::remove_pointer_t<bare<T>>>;

// ------------------------------------------------------------------ arguments
template <class X, class = void> struct Caster // registered classes
{
    X *ptr{};
    object temp;
    bool load(handle h, bool convert)
    {
        auto *t = find(typeid(X));
        if (!t)
            return false;
        if (PyObject_TypeCheck(h.p, t->type))
        {
            ptr = static_cast<X *>(reinterpret_cast<Instance *>(h.p)->ptr);
            return ptr != nullptr;
        }
        if (!convert || t->converting)
            return false;
        for (auto &can : t->implicit)
            if (can(h.p))
            {
                t->converting = true;
                PyObject *made = PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(t->type), h.p, nullptr);
                t->converting = false;
                if (!made)
                {
                    PyErr_Clear();
                    continue;
                }
                temp = object::steal(made);
                ptr = static_cast<X *>(reinterpret_cast<Instance *>(made)->ptr);
                return true;
            }
        return false;
    }
    X &value() { return *ptr; }
};
template <class X> struct Caster<X, std::enable_if_t<std::is_arithmetic_v<X> && !std::is_same_v<X, char> && !std::is_same_v<X, bool>>>
{
    X v{};
    bool load(handle h, bool convert)
    {
        if constexpr (std::is_floating_point_v<X>)
        {
            if (!convert && !PyFloat_Check(h.p))
                return false;
            const double d = PyFloat_AsDouble(h.p);
            if (d == -1.0 && PyErr_Occurred())
            {
                PyErr_Clear();
                return false;
            }
            v = static_cast<X>(d);
            return true;
        }
        else
        {
            if (PyFloat_Check(h.p))
                return false;
            if (!convert && !PyLong_Check(h.p) && !PyIndex_Check(h.p))
                return false;
            PyObject *n = PyLong_Check(h.p) ? (Py_INCREF(h.p), h.p) : PyIndex_Check(h.p) ? PyNumber_Index(h.p) : PyNumber_Long(h.p);
            if (!n)
            {
                PyErr_Clear();
                return false;
            }
            object keep = object::steal(n);
            if constexpr (std::is_unsigned_v<X>)
            {
                const unsigned long long u = PyLong_AsUnsignedLongLong(n);
                if ((u == static_cast<unsigned long long>(-1) && PyErr_Occurred()) || u > std::numeric_limits<X>::max())
                {
                    PyErr_Clear();
                    return false;
                }
                v = static_cast<X>(u);
            }
            else
            {
                const long long s = PyLong_AsLongLong(n);
                if ((s == -1 && PyErr_Occurred()) || s > std::numeric_limits<X>::max() || s < std::numeric_limits<X>::min())
                {
                    PyErr_Clear();
                    return false;
                }
                v = static_cast<X>(s);
            }
            return true;
        }
    }
    X &value() { return v; }
};
template <> struct Caster<bool>
{
    bool v{};
    bool load(handle h, bool convert)
    {
        if (h.p == Py_True || h.p == Py_False)
        {
            v = h.p == Py_True;
            return true;
        }
        if (!convert && std::strcmp(Py_TYPE(h.p)->tp_name, "numpy.bool_") && std::strcmp(Py_TYPE(h.p)->tp_name, "numpy.bool"))
            return false;
        if (h.p != Py_None && !(Py_TYPE(h.p)->tp_as_number && Py_TYPE(h.p)->tp_as_number->nb_bool))
            return false;
        const int r = PyObject_IsTrue(h.p);
        if (r < 0)
            PyErr_Clear();
        v = r == 1;
        return r >= 0;
    }
    bool &value() { return v; }
};
template <> struct Caster<std::string>
{
    std::string v;
    bool load(handle h, bool)
    {
        if (PyUnicode_Check(h.p))
        {
            Py_ssize_t n;
            const char *s = PyUnicode_AsUTF8AndSize(h.p, &n);
            if (!s)
            {
                PyErr_Clear();
                return false;
            }
            v.assign(s, static_cast<size_t>(n));
            return true;
        }
        if (!PyBytes_Check(h.p))
            return false;
        v.assign(PyBytes_AsString(h.p), static_cast<size_t>(PyBytes_Size(h.p)));
        return true;
    }
    std::string &value() { return v; }
};
template <> struct Caster<char>
{
    char v{};
    bool load(handle h, bool)
    {
        if (!PyUnicode_Check(h.p) || PyUnicode_GetLength(h.p) != 1)
            return false;
        const Py_UCS4 c = PyUnicode_ReadChar(h.p, 0);
        if (c > 255)
            throw std::runtime_error("Character code point not in range(0x100)"); // ValueError in pybind11
        v = static_cast<char>(c);
        return true;
    }
    char &value() { return v; }
};
inline bool sequence(handle h)
{
    return PySequence_Check(h.p) && !PyUnicode_Check(h.p) && !PyBytes_Check(h.p);
}
template <class E> struct Caster<std::vector<E>, std::enable_if_t<!std::is_same_v<E, char>>>
{
    std::vector<E> v;
    bool load(handle h, bool convert)
    {
        if (!sequence(h))
            return false;
        const Py_ssize_t n = PySequence_Size(h.p);
        v.clear();
        for (Py_ssize_t i = 0; i < n; i++)
        {
            object item = object::steal(PySequence_GetItem(h.p, i));
            Caster<E> c;
            if (!c.load(item, convert))
                return false;
            v.push_back(c.value());
        }
        return true;
    }
    std::vector<E> &value() { return v; }
};
template <class E, size_t N> struct Caster<std::array<E, N>>
{
    std::array<E, N> v{};
    bool load(handle h, bool convert)
    {
        if (!sequence(h) || PySequence_Size(h.p) != static_cast<Py_ssize_t>(N))
            return false;
        for (size_t i = 0; i < N; i++)
        {
            object item = object::steal(PySequence_GetItem(h.p, static_cast<Py_ssize_t>(i)));
            Caster<E> c;
            if (!c.load(item, convert))
                return false;
            v[i] = c.value();
        }
        return true;
    }
    std::array<E, N> &value() { return v; }
};
template <class E> struct Caster<std::optional<E>>
{
    std::optional<E> v;
    bool load(handle h, bool convert)
    {
        if (h.p == Py_None)
        {
            v.reset();
            return true;
        }
        Caster<E> c;
        if (!c.load(h, convert))
            return false;
        v.emplace(c.value());
        return true;
    }
    std::optional<E> &value() { return v; }
};
template <class E> struct Caster<std::shared_ptr<E>>
{
    std::shared_ptr<E> v;
    Caster<E> c;
    bool load(handle h, bool convert)
    {
        if (h.p == Py_None)
            return convert;
        if (!c.load(h, convert))
            return false;
        PyObject *o = c.temp ? c.temp.p : h.p;
        v = std::shared_ptr<E>(*reinterpret_cast<Instance *>(o)->holder, c.ptr);
        return true;
    }
    std::shared_ptr<E> &value() { return v; }
};
template <class X, class = void> struct has_check : std::false_type
{
};
template <class X> struct has_check<X, std::void_t<decltype(X::check_(handle()))>> : std::true_type
{
};
template <class X> struct Caster<X, std::enable_if_t<std::is_base_of_v<handle, X>>>
{
    X v;
    bool load(handle h, bool)
    {
        if constexpr (has_check<X>::value)
            if (!X::check_(h))
                return false;
        if constexpr (std::is_same_v<X, handle>)
            v = h;
        else
            static_cast<object &>(v) = object::borrow(h.p);
        return true;
    }
    X &value() { return v; }
};
template <> struct Caster<std::string_view>
{
    Caster<std::string> s;
    std::string_view v;
    bool load(handle h, bool convert)
    {
        if (!s.load(h, convert))
            return false;
        v = s.v;
        return true;
    }
    std::string_view &value() { return v; }
};
template <class X> struct Caster<X, std::enable_if_t<std::is_enum_v<X>>>
{
    X v{};
    bool load(handle h, bool)
    {
        auto *t = find(typeid(X));
        if (!t || !PyObject_TypeCheck(h.p, t->type))
            return false;
        object n = object::steal(PyNumber_Long(h.p));
        v = static_cast<X>(PyLong_AsLongLong(n.p));
        return true;
    }
    X &value() { return v; }
};
template <class A, class B> struct Caster<std::pair<A, B>>
{
    std::pair<A, B> v;
    bool load(handle h, bool convert)
    {
        if (!sequence(h) || PySequence_Size(h.p) != 2)
            return false;
        object x = object::steal(PySequence_GetItem(h.p, 0)), y = object::steal(PySequence_GetItem(h.p, 1));
        Caster<A> a;
        Caster<B> b;
        if (!a.load(x, convert) || !b.load(y, convert))
            return false;
        v = {a.value(), b.value()};
        return true;
    }
    std::pair<A, B> &value() { return v; }
};
template <class... E> struct Caster<std::tuple<E...>>
{
    std::tuple<E...> v;
    template <size_t... I> bool each(handle h, bool convert, std::index_sequence<I...>)
    {
        bool ok = true;
        (void)std::initializer_list<int>{(ok = ok && one<I>(h, convert), 0)...};
        return ok;
    }
    template <size_t I> bool one(handle h, bool convert)
    {
        object x = object::steal(PySequence_GetItem(h.p, I));
        Caster<std::tuple_element_t<I, std::tuple<E...>>> c;
        if (!c.load(x, convert))
            return false;
        std::get<I>(v) = c.value();
        return true;
    }
    bool load(handle h, bool convert)
    {
        return sequence(h) && PySequence_Size(h.p) == sizeof...(E) && each(h, convert, std::index_sequence_for<E...>());
    }
    std::tuple<E...> &value() { return v; }
};
template <class M> struct MapCaster
{
    M v;
    bool load(handle h, bool convert)
    {
        if (!PyDict_Check(h.p))
            return false;
        v.clear();
        PyObject *k, *x;
        Py_ssize_t pos = 0;
        while (PyDict_Next(h.p, &pos, &k, &x))
        {
            Caster<typename M::key_type> a;
            Caster<typename M::mapped_type> b;
            if (!a.load(k, convert) || !b.load(x, convert))
                return false;
            v.emplace(a.value(), b.value());
        }
        return true;
    }
    M &value() { return v; }
};
template <class K, class V, class... R> struct Caster<std::map<K, V, R...>> : MapCaster<std::map<K, V, R...>>
{
};
template <class K, class V, class... R> struct Caster<std::unordered_map<K, V, R...>> : MapCaster<std::unordered_map<K, V, R...>>
{
};
template <class S> struct SetCaster
{
    S v;
    bool load(handle h, bool convert)
    {
        if (!PyAnySet_Check(h.p))
            return false;
        v.clear();
        for (handle e : h)
        {
            Caster<typename S::key_type> c;
            if (!c.load(e, convert))
                return false;
            v.insert(c.value());
        }
        return true;
    }
    S &value() { return v; }
};
template <class K, class... R> struct Caster<std::set<K, R...>> : SetCaster<std::set<K, R...>>
{
};
template <class K, class... R> struct Caster<std::unordered_set<K, R...>> : SetCaster<std::unordered_set<K, R...>>
{
};
template <class... E> struct Caster<std::variant<E...>>
{
    std::variant<E...> v;
    template <class A> bool one(handle h, bool convert)
    {
        Caster<A> c;
        if (!c.load(h, convert))
            return false;
        v = c.value();
        return true;
    }
    bool load(handle h, bool convert)
    {
        return (convert && (one<E>(h, false) || ...)) || (one<E>(h, convert) || ...);
    }
    std::variant<E...> &value() { return v; }
};
struct Self // the object being constructed
{
    Instance *i;
};
template <> struct Caster<Self>
{
    Self v{};
    bool load(handle h, bool)
    {
        v.i = reinterpret_cast<Instance *>(h.p);
        return true;
    }
    Self &value() { return v; }
};
template <class A, class C> A get(C &c)
{
    if constexpr (std::is_same_v<bare<A>, const char *>)
        return c.value().c_str();
    else if constexpr (std::is_pointer_v<bare<A>>)
        return &c.value();
    else if constexpr (std::is_rvalue_reference_v<A>)
        return std::move(c.value());
    else
        return static_cast<A>(c.value());
}

// ------------------------------------------------------------------ results
template <class E> struct is_vector : std::false_type
{
};
template <class E> struct is_vector<std::vector<E>> : std::bool_constant<!std::is_same_v<E, char>>
{
};
template <class E> struct is_array : std::false_type
{
};
template <class E, size_t N> struct is_array<std::array<E, N>> : std::true_type
{
};
template <class E> struct is_shared : std::false_type
{
};
template <class E> struct is_shared<std::shared_ptr<E>> : std::true_type
{
};
template <class E> struct is_optional : std::false_type
{
};
template <class E> struct is_optional<std::optional<E>> : std::true_type
{
};
template <class E> struct is_map : std::false_type
{
};
template <class... E> struct is_map<std::map<E...>> : std::true_type
{
};
template <class... E> struct is_map<std::unordered_map<E...>> : std::true_type
{
};
template <class E> struct is_set : std::false_type
{
};
template <class... E> struct is_set<std::set<E...>> : std::true_type
{
};
template <class... E> struct is_set<std::unordered_set<E...>> : std::true_type
{
};
template <class E> struct is_tuple : std::false_type
{
};
template <class... E> struct is_tuple<std::tuple<E...>> : std::true_type
{
};
template <class A, class B> struct is_tuple<std::pair<A, B>> : std::true_type
{
};
template <class E> struct is_variant : std::false_type
{
};
template <class... E> struct is_variant<std::variant<E...>> : std::true_type
{
};
template <class E> struct is_unique : std::false_type
{
};
template <class E, class D> struct is_unique<std::unique_ptr<E, D>> : std::true_type
{
};
template <class E> struct is_wrapper : std::false_type
{
};
template <class E> struct is_wrapper<std::reference_wrapper<E>> : std::true_type
{
};
template <class X>
constexpr bool isValue = std::is_arithmetic_v<X> || std::is_same_v<X, std::string> || is_vector<X>::value || is_array<X>::value ||
                         is_shared<X>::value || is_optional<X>::value || std::is_base_of_v<handle, X> || is_map<X>::value || is_set<X>::value ||
                         is_tuple<X>::value || is_variant<X>::value || is_unique<X>::value || std::is_enum_v<X> || std::is_same_v<X, const char *> ||
                         std::is_same_v<X, std::string_view> || std::is_null_pointer_v<X> || is_wrapper<X>::value;
template <class R> PyObject *give(R &&r);
template <class T, size_t... I> PyObject *giveTuple(const T &t, std::index_sequence<I...>)
{
    PyObject *out = PyTuple_New(sizeof...(I));
    bool ok = true;
    auto put = [&](size_t i, PyObject *o)
    {
        ok = ok && o;
        PyTuple_SetItem(out, static_cast<Py_ssize_t>(i), o ? o : (Py_INCREF(Py_None), Py_None));
    };
    (put(I, ok ? give(std::get<I>(t)) : nullptr), ...);
    if (ok)
        return out;
    Py_DECREF(out);
    return nullptr;
}
template <class R> PyObject *give(R &&r)
{
    using X = bare<R>;
    if constexpr (std::is_array_v<X>) // a string literal
        return PyUnicode_FromString(r);
    else if constexpr (std::is_same_v<X, const char *> || std::is_same_v<X, char *>)
    {
        if (!r)
            Py_RETURN_NONE;
        return PyUnicode_FromString(r);
    }
    else if constexpr (std::is_same_v<X, std::string_view>)
        return PyUnicode_DecodeUTF8(r.data(), static_cast<Py_ssize_t>(r.size()), nullptr);
    else if constexpr (std::is_null_pointer_v<X>)
        Py_RETURN_NONE;
    else if constexpr (is_wrapper<X>::value)
        return give(r.get());
    else if constexpr (std::is_enum_v<X>)
    {
        auto *t = find(typeid(X));
        if (!t)
        {
            PyErr_SetString(PyExc_TypeError, "Unregistered enumeration");
            return nullptr;
        }
        return PyObject_CallFunction(reinterpret_cast<PyObject *>(t->type), "L", static_cast<long long>(r));
    }
    else if constexpr (is_tuple<X>::value)
        return giveTuple(r, std::make_index_sequence<std::tuple_size_v<X>>());
    else if constexpr (is_variant<X>::value)
        return std::visit([](const auto &e) { return give(e); }, r);
    else if constexpr (is_unique<X>::value)
        return give(std::shared_ptr<typename X::element_type>(std::move(r)));
    else if constexpr (is_map<X>::value)
    {
        PyObject *d = PyDict_New();
        for (auto &e : r)
        {
            PyObject *k = give(e.first), *v = k ? give(e.second) : nullptr;
            const bool ok = v && !PyDict_SetItem(d, k, v);
            Py_XDECREF(k);
            Py_XDECREF(v);
            if (!ok)
            {
                Py_DECREF(d);
                return nullptr;
            }
        }
        return d;
    }
    else if constexpr (is_set<X>::value)
    {
        PyObject *d = PySet_New(nullptr);
        for (auto &e : r)
        {
            PyObject *k = give(e);
            const bool ok = k && !PySet_Add(d, k);
            Py_XDECREF(k);
            if (!ok)
            {
                Py_DECREF(d);
                return nullptr;
            }
        }
        return d;
    }
    else
    if constexpr (std::is_base_of_v<handle, X>)
    {
        Py_XINCREF(r.p);
        return r.p;
    }
    else if constexpr (std::is_same_v<X, bool>)
        return PyBool_FromLong(r);
    else if constexpr (std::is_same_v<X, char>)
        return PyUnicode_DecodeLatin1(&r, 1, nullptr);
    else if constexpr (std::is_floating_point_v<X>)
        return PyFloat_FromDouble(r);
    else if constexpr (std::is_arithmetic_v<X> && std::is_unsigned_v<X>)
        return PyLong_FromUnsignedLongLong(r);
    else if constexpr (std::is_arithmetic_v<X>)
        return PyLong_FromLongLong(r);
    else if constexpr (std::is_same_v<X, std::string>)
        return PyUnicode_DecodeUTF8(r.data(), static_cast<Py_ssize_t>(r.size()), nullptr);
    else if constexpr (is_vector<X>::value || is_array<X>::value)
    {
        PyObject *l = PyList_New(0);
        for (auto &&e : r)
        {
            PyObject *o = give(static_cast<const bare<decltype(e)> &>(e));
            if (!o)
            {
                Py_DECREF(l);
                return nullptr;
            }
            PyList_Append(l, o);
            Py_DECREF(o);
        }
        return l;
    }
    else if constexpr (is_optional<X>::value)
    {
        if (!r)
            Py_RETURN_NONE;
        return give(*r);
    }
    else if constexpr (is_shared<X>::value)
    {
        if (!r)
            Py_RETURN_NONE;
        using E = typename X::element_type;
        return instance(typeid(E), const_cast<std::remove_cv_t<E> *>(r.get()), std::const_pointer_cast<std::remove_cv_t<E>>(r));
    }
    else if constexpr (std::is_pointer_v<X>)
    {
        if (!r)
            Py_RETURN_NONE;
        using E = std::remove_pointer_t<X>;
        return instance(typeid(E), r, std::shared_ptr<E>(r));
    }
    else
    {
        auto s = std::make_shared<X>(std::forward<R>(r));
        void *ptr = s.get();
        return instance(typeid(X), ptr, s);
    }
}
// def_readwrite: a class member is returned as a reference into its owner
template <class D> PyObject *giveMember(PyObject *owner, D &d)
{
    if constexpr (isValue<D>)
        return give(static_cast<const D &>(d));
    else
    {
        auto *i = reinterpret_cast<Instance *>(owner);
        return instance(typeid(D), &d, std::shared_ptr<void>(*i->holder, &d));
    }
}

// ------------------------------------------------------------------ functions
struct Overload
{
    std::vector<std::string> names; // of the arguments, without self
    std::vector<object> defaults;
    size_t total{}; // arguments, with self
    bool method{};
    bool isOperator{};
    bool takesArgs{}, takesKwargs{};
    std::vector<bool> noconvert, notNone;
    return_value_policy policy{return_value_policy::automatic};
    bool policyGiven{};
    std::vector<std::pair<size_t, size_t>> keep; // nurse and patient: 0 is the result, 1 the first argument
    // args: borrowed references. nullptr without an exception: try the next overload
    std::function<PyObject *(const std::vector<PyObject *> &, bool)> call;
};
struct Record
{
    std::string name;
    std::vector<Overload> overloads;
    PyMethodDef def{};
};
inline PyObject *const NEXT = reinterpret_cast<PyObject *>(1);

inline void translate()
{
    try
    {
        throw;
    }
    catch (const error_already_set &)
    {
    }
    catch (const builtin_exception &e)
    {
        e.set_error();
    }
    catch (const std::bad_alloc &e)
    {
        PyErr_SetString(PyExc_MemoryError, e.what());
    }
    catch (const std::domain_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::invalid_argument &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::length_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::out_of_range &e)
    {
        PyErr_SetString(PyExc_IndexError, e.what());
    }
    catch (const std::range_error &e)
    {
        PyErr_SetString(PyExc_ValueError, e.what());
    }
    catch (const std::overflow_error &e)
    {
        PyErr_SetString(PyExc_OverflowError, e.what());
    }
    catch (const std::exception &e)
    {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    catch (...)
    {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}
// the call being made: whether lvalues are returned as references, and into what
struct Call
{
    return_value_policy policy{return_value_policy::automatic};
    PyObject *self{};
};
inline Call &current()
{
    static Call c;
    return c;
}
// patients of instances, released with them
inline std::multimap<PyObject *, object> &patients()
{
    static auto *m = new std::multimap<PyObject *, object>;
    return *m;
}
struct Iteration // the iterator that make_iterator returns
{
    PyObject_HEAD
    std::function<PyObject *()> *next;
};
inline PyTypeObject *iterationType();
inline void keepAlive(PyObject *nurse, PyObject *patient)
{
    if (nurse == Py_None || patient == Py_None)
        return;
    const bool ours = Py_TYPE(nurse) == iterationType() ||
                      std::any_of(types().begin(), types().end(),
                                  [&](auto &t) { return t.second.type && PyObject_TypeCheck(nurse, t.second.type); });
    if (!ours)
        throw std::runtime_error("keep_alive: the nurse can not be told of its end");
    patients().emplace(nurse, object::borrow(patient));
}
inline void dropPatients(PyObject *o)
{
    auto r = patients().equal_range(o);
    std::vector<object> gone; // dropping one may drop others
    for (auto i = r.first; i != r.second; i = patients().erase(i))
        gone.push_back(std::move(i->second));
}
inline PyObject *dispatch(PyObject *capsule, PyObject *args, PyObject *kwargs)
{
    auto *rec = static_cast<Record *>(PyCapsule_GetPointer(capsule, nullptr));
    const size_t given = static_cast<size_t>(PyTuple_Size(args)), named = kwargs ? static_cast<size_t>(PyDict_Size(kwargs)) : 0;
    for (int pass = 0; pass < 2; pass++)
        for (auto &o : rec->overloads)
        {
            const size_t fixed = o.total - o.takesArgs - o.takesKwargs;
            if ((given > fixed && !o.takesArgs) || (given + named > o.total && !o.takesArgs && !o.takesKwargs))
                continue;
            object extra = object::steal(o.takesArgs ? PyTuple_GetSlice(args, static_cast<Py_ssize_t>(std::min(fixed, given)),
                                                                        static_cast<Py_ssize_t>(given))
                                                     : PyTuple_New(0));
            object rest = object::steal(o.takesKwargs && kwargs ? PyDict_Copy(kwargs) : PyDict_New());
            std::vector<PyObject *> a;
            for (size_t i = 0; i < std::min(given, fixed); i++)
                a.push_back(PyTuple_GetItem(args, static_cast<Py_ssize_t>(i)));
            size_t used = 0;
            bool ok = true;
            for (size_t i = std::min(given, fixed); i < fixed && ok; i++)
            {
                const size_t k = i - (o.method ? 1 : 0);
                PyObject *v = nullptr;
                if (kwargs && k < o.names.size() && i >= (o.method ? 1u : 0u))
                    v = PyDict_GetItemString(kwargs, o.names[k].c_str());
                if (v)
                {
                    used++;
                    if (o.takesKwargs)
                        PyDict_DelItemString(rest.p, o.names[k].c_str());
                }
                else if (k < o.defaults.size() && o.defaults[k])
                    v = o.defaults[k].p;
                ok = v != nullptr;
                a.push_back(v);
            }
            if (!ok || (used != named && !o.takesKwargs))
                continue;
            for (size_t i = 0; i < a.size(); i++)
            {
                const size_t k = i - (o.method ? 1 : 0);
                if (k < o.notNone.size() && o.notNone[k] && a[i] == Py_None)
                    ok = false;
                if (k < o.noconvert.size() && o.noconvert[k] && pass == 1)
                    ok = false;
            }
            if (!ok)
                continue;
            if (o.takesArgs)
                a.push_back(extra.p);
            if (o.takesKwargs)
                a.push_back(rest.p);
            PyObject *r = nullptr;
            try
            {
                current() = Call{o.policy, a.empty() ? nullptr : a[0]};
                r = o.call(a, pass == 1);
                if (r && r != NEXT)
                    for (auto &k : o.keep)
                        if (std::max(k.first, k.second) <= a.size())
                            keepAlive(k.first ? a[k.first - 1] : r, k.second ? a[k.second - 1] : r);
            }
            catch (...)
            {
                translate();
                return nullptr;
            }
            if (r != NEXT)
                return r;
        }
    for (auto &o : rec->overloads)
        if (o.isOperator)
            Py_RETURN_NOTIMPLEMENTED;
    object text = object::steal(PyObject_Repr(args));
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments. Invoked with: %s", rec->name.c_str(), PyUnicode_AsUTF8(text.p));
    return nullptr;
}
inline PyObject *function(Record *rec)
{
    rec->def.ml_name = rec->name.c_str();
    rec->def.ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)(void)>(dispatch));
    rec->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    object cap = object::steal(PyCapsule_New(rec, nullptr, nullptr));
    return PyCFunction_New(&rec->def, cap.p); // keeps the capsule
}
template <class A> using argument = std::conditional_t<std::is_same_v<intrinsic<A>, char> && std::is_pointer_v<bare<A>>, std::string, intrinsic<A>>;
template <class F, class R, class... A, size_t... I>
PyObject *invoke(F &f, const std::vector<PyObject *> &args, bool convert, std::index_sequence<I...>)
{
    const Call call = current();
    std::tuple<Caster<argument<A>>...> c;
    (void)c;
    bool ok = true;
    ((ok = ok && std::get<I>(c).load(handle(args[I]), convert)), ...);
    if (!ok)
        return NEXT;
    if constexpr (std::is_void_v<R>)
    {
        f(get<A>(std::get<I>(c))...);
        Py_RETURN_NONE;
    }
    else
    {
        R r = f(get<A>(std::get<I>(c))...);
        using P = return_value_policy;
        if constexpr ((std::is_lvalue_reference_v<R> || std::is_pointer_v<bare<R>>) && !isValue<intrinsic<R>> && !isValue<bare<R>>)
            if (call.policy == P::reference || call.policy == P::reference_internal ||
                (std::is_pointer_v<bare<R>> && (call.policy == P::copy || call.policy == P::automatic_reference)))
            {
                using X = intrinsic<R>;
                X *ptr;
                if constexpr (std::is_pointer_v<bare<R>>)
                    ptr = const_cast<X *>(r);
                else
                    ptr = const_cast<X *>(&r);
                if (!ptr)
                    Py_RETURN_NONE;
                if constexpr (std::is_copy_constructible_v<X>)
                    if (call.policy == P::copy)
                        return give(static_cast<const X &>(*ptr));
                std::shared_ptr<void> owner;
                if (call.policy == P::reference_internal && call.self)
                {
                    Py_INCREF(call.self);
                    owner = std::shared_ptr<void>(call.self, [](void *q) { Py_DECREF(static_cast<PyObject *>(q)); });
                }
                return instance(typeid(X), ptr, std::shared_ptr<void>(owner, ptr));
            }
        return give(std::forward<R>(r));
    }
}
template <class F, class R, class... A> Overload overload(F f)
{
    Overload o;
    o.total = sizeof...(A);
    o.takesArgs = (std::is_same_v<bare<A>, args> || ...);
    o.takesKwargs = (std::is_same_v<bare<A>, kwargs> || ...);
    o.call = [f](const std::vector<PyObject *> &args, bool convert) mutable -> PyObject *
    { return invoke<F, R, A...>(f, args, convert, std::index_sequence_for<A...>()); };
    return o;
}
// callables -> overloads; for member functions self has the class's own type
template <class T, class F> struct Wrap;
template <class T, class R, class... A> Overload wrap(R (*f)(A...))
{
    return overload<R (*)(A...), R, A...>(f);
}
template <class T, class R, class... A> Overload wrap(R (*f)(A...) noexcept)
{
    return overload<R (*)(A...), R, A...>(f);
}
#define STANDIN_METHOD(QUALIFIERS, SELF)                                                                               \
    template <class T, class R, class C, class... A> Overload wrap(R (C::*f)(A...) QUALIFIERS)                         \
    {                                                                                                                  \
        using O = std::conditional_t<std::is_void_v<T>, C, T>;                                                         \
        auto g = [f](SELF O &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };                                \
        return overload<decltype(g), R, SELF O &, A...>(g);                                                            \
    }                                                                                                                  \
    template <class T, class L, class R, class... A> Overload wrapLambda(L l, R (L::*)(A...) QUALIFIERS)               \
    {                                                                                                                  \
        return overload<L, R, A...>(l);                                                                                \
    }
STANDIN_METHOD(, )
STANDIN_METHOD(const, const)
STANDIN_METHOD(noexcept, )
STANDIN_METHOD(const noexcept, const)
#undef STANDIN_METHOD
template <class T, class R, class C, class... A> Overload wrap(R (C::*f)(A...) &)
{
    using O = std::conditional_t<std::is_void_v<T>, C, T>;
    auto g = [f](O &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };
    return overload<decltype(g), R, O &, A...>(g);
}
template <class T, class R, class C, class... A> Overload wrap(R (C::*f)(A...) const &)
{
    using O = std::conditional_t<std::is_void_v<T>, C, T>;
    auto g = [f](const O &t, A... a) -> R { return (t.*f)(std::forward<A>(a)...); };
    return overload<decltype(g), R, const O &, A...>(g);
}
template <class T, class R, class... A> Overload wrap(std::function<R(A...)> f)
{
    return overload<std::function<R(A...)>, R, A...>(f);
}
template <class T, class L, class = decltype(&L::operator())> Overload wrap(L l) { return wrapLambda<T>(l, &L::operator()); }
} // namespace detail

// ------------------------------------------------------------------ what bindings say about functions
struct arg_v
{
    std::string name;
    object value;
    bool noconvert_{}, notNone_{};
    arg_v &noconvert(bool b = true) { return noconvert_ = b, *this; }
    arg_v &none(bool b = true) { return notNone_ = !b, *this; }
};
struct arg
{
    const char *name;
    bool noconvert_{}, notNone_{};
    constexpr explicit arg(const char *n) : name(n) {}
    arg &noconvert(bool b = true) { return noconvert_ = b, *this; }
    arg &none(bool b = true) { return notNone_ = !b, *this; }
    template <class V> arg_v operator=(V &&v) const
    {
        PyObject *o = detail::give(std::forward<V>(v));
        if (!o)
            throw error_already_set();
        return arg_v{name, object::steal(o), noconvert_, notNone_};
    }
    arg_v operator=(const char *v) const { return *this = std::string(v); }
};
inline namespace literals
{
constexpr arg operator"" _a(const char *n, size_t) { return arg(n); }
} // namespace literals
struct kw_only
{
};
struct pos_only
{
};
struct prepend
{
};
struct dynamic_attr
{
};
struct is_final
{
};
struct arithmetic
{
};
struct multiple_inheritance
{
};
struct module_local
{
    constexpr module_local(bool = true) {}
};
struct doc
{
    const char *text;
    constexpr explicit doc(const char *t) : text(t) {}
};
struct name
{
    const char *text;
    constexpr explicit name(const char *t) : text(t) {}
};
template <class... G> struct call_guard
{
};
struct is_operator
{
};
struct buffer_protocol
{
};
template <size_t, size_t> struct keep_alive
{
};
namespace detail
{
inline void apply(Overload &o, const arg &a)
{
    o.names.push_back(a.name);
    o.defaults.emplace_back();
    o.noconvert.push_back(a.noconvert_);
    o.notNone.push_back(a.notNone_);
}
inline void apply(Overload &o, const arg_v &a)
{
    o.names.push_back(a.name);
    o.defaults.push_back(a.value);
    o.noconvert.push_back(a.noconvert_);
    o.notNone.push_back(a.notNone_);
}
inline void apply(Overload &o, const is_operator &) { o.isOperator = true; }
inline void apply(Overload &o, const return_value_policy &p)
{
    o.policy = p;
    o.policyGiven = true;
}
inline void apply(Overload &, const char *const &) {}
inline void apply(Overload &, const doc &) {}
inline void apply(Overload &, const prepend &) {}
inline void apply(Overload &, const kw_only &) {}
inline void apply(Overload &, const pos_only &) {}
template <class... G> void apply(Overload &, const call_guard<G...> &) {}
inline void apply(Overload &, const buffer_protocol &) {}
template <size_t A, size_t B> void apply(Overload &o, const keep_alive<A, B> &) { o.keep.emplace_back(A, B); }

template <class... A> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R> constexpr auto operator()(R (*f)(A...) noexcept) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) noexcept, std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const noexcept, std::true_type) const { return f; }
};
struct SelfTag
{
};
struct HashTag
{
};
// an operator of two selves, of self and a value, of a value and self, or of one self
template <class Op, class Other, bool Reversed> struct OpTag
{
};
#define STANDIN_OPERATOR(SYMBOL, NAME, PY, RPY)                                                                        \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        static constexpr const char *forward = PY;                                                                     \
        static constexpr const char *reversed = RPY;                                                                   \
        template <class A, class B> static auto run(A &&a, B &&b) { return a SYMBOL b; }                               \
    };                                                                                                                 \
    inline OpTag<NAME, SelfTag, false> operator SYMBOL(SelfTag, SelfTag) { return {}; }                                \
    template <class O> OpTag<NAME, O, false> operator SYMBOL(SelfTag, const O &) { return {}; }                        \
    template <class O> OpTag<NAME, O, true> operator SYMBOL(const O &, SelfTag) { return {}; }
STANDIN_OPERATOR(==, OpEq, "__eq__", "__eq__")
STANDIN_OPERATOR(!=, OpNe, "__ne__", "__ne__")
STANDIN_OPERATOR(<, OpLt, "__lt__", "__gt__")
STANDIN_OPERATOR(>, OpGt, "__gt__", "__lt__")
STANDIN_OPERATOR(<=, OpLe, "__le__", "__ge__")
STANDIN_OPERATOR(>=, OpGe, "__ge__", "__le__")
STANDIN_OPERATOR(+, OpAdd, "__add__", "__radd__")
STANDIN_OPERATOR(-, OpSub, "__sub__", "__rsub__")
STANDIN_OPERATOR(*, OpMul, "__mul__", "__rmul__")
STANDIN_OPERATOR(/, OpDiv, "__truediv__", "__rtruediv__")
STANDIN_OPERATOR(%, OpMod, "__mod__", "__rmod__")
STANDIN_OPERATOR(&, OpAnd, "__and__", "__rand__")
STANDIN_OPERATOR(|, OpOr, "__or__", "__ror__")
STANDIN_OPERATOR(^, OpXor, "__xor__", "__rxor__")
#undef STANDIN_OPERATOR
#define STANDIN_ASSIGN(SYMBOL, NAME, PY)                                                                               \
    struct NAME                                                                                                        \
    {                                                                                                                  \
        static constexpr const char *forward = PY;                                                                     \
        static constexpr const char *reversed = PY;                                                                    \
        template <class A, class B> static auto run(A &&a, B &&b) { return const_cast<bare<A> &>(a) SYMBOL b; }        \
    };                                                                                                                 \
    inline OpTag<NAME, SelfTag, false> operator SYMBOL(SelfTag, SelfTag) { return {}; }                                \
    template <class O> OpTag<NAME, O, false> operator SYMBOL(SelfTag, const O &) { return {}; }
STANDIN_ASSIGN(+=, OpIAdd, "__iadd__")
STANDIN_ASSIGN(-=, OpISub, "__isub__")
STANDIN_ASSIGN(*=, OpIMul, "__imul__")
STANDIN_ASSIGN(/=, OpIDiv, "__itruediv__")
#undef STANDIN_ASSIGN
struct NegTag
{
};
inline NegTag operator-(SelfTag) { return {}; }
template <class... A> struct InitTag
{
};
template <class F> struct FactoryTag
{
    F f;
};
template <class G, class S> struct PickleTag
{
    G get;
    S set;
};
template <class L, class R, class A> bare<R> resultOf(R (L::*)(A) const);
} // namespace detail
template <class... A> static constexpr detail::overload_cast_impl<A...> overload_cast{};
static constexpr std::true_type const_{};
static constexpr detail::SelfTag self{};
inline detail::HashTag hash(detail::SelfTag) { return {}; }
template <class... A> detail::InitTag<A...> init() { return {}; }
template <class F> detail::FactoryTag<F> init(F f) { return {f}; }
template <class G, class S> detail::PickleTag<G, S> pickle(G g, S s) { return {g, s}; }

template <class... A> tuple make_tuple(A &&...a)
{
    object t = object::steal(PyTuple_New(sizeof...(A)));
    Py_ssize_t i = 0;
    auto put = [&](PyObject *o)
    {
        if (!o)
            throw error_already_set();
        PyTuple_SetItem(t.p, i++, o);
    };
    (put(detail::give(std::forward<A>(a))), ...);
    return tuple(t);
}
template <return_value_policy = return_value_policy::reference_internal, class It, class... X> object make_iterator(It a, It b, X &&...)
{
    // as in pybind11: over the range itself, which whoever makes it has to keep
    object o = object::steal(reinterpret_cast<PyObject *>(PyObject_New(detail::Iteration, detail::iterationType())));
    reinterpret_cast<detail::Iteration *>(o.p)->next =
        new std::function<PyObject *()>([a, b, state = 0]() mutable -> PyObject *
                                        {
                                            if (state == 1)
                                                ++a;
                                            state = a == b ? 2 : 1;
                                            return state == 2 ? nullptr : detail::give(*a);
                                        });
    return o;
}
template <class C, class... X, class = decltype(std::declval<C &>().begin())> object make_iterator(C &c, X &&...)
{
    return make_iterator(c.begin(), c.end());
}
template <class V> object cast(V &&v, return_value_policy = return_value_policy::automatic, handle = handle())
{
    return object::steal(detail::give(std::forward<V>(v)));
}
template <class T> T cast(const handle &h) { return h.cast<T>(); }
template <class T> bool isinstance(handle h)
{
    if constexpr (detail::has_check<T>::value)
        return T::check_(h);
    else if constexpr (std::is_base_of_v<handle, T>)
        return h.p != nullptr;
    else
    {
        auto *t = detail::find(typeid(T));
        return t && PyObject_TypeCheck(h.p, t->type);
    }
}
inline bool isinstance(handle h, handle t) { return PyObject_IsInstance(h.p, t.p) == 1; }
inline size_t len(handle h) { return lengthOf(h); }
inline str repr(handle h) { return str(object::steal(PyObject_Repr(h.p))); }
inline iterator iter(handle h) { return h.begin(); }
inline Py_hash_t hash(handle h) { return PyObject_Hash(h.p); }
inline bool hasattr(handle h, const char *n) { return PyObject_HasAttrString(h.p, n); }
inline object getattr(handle h, const char *n) { return object::steal(PyObject_GetAttrString(h.p, n)); }
template <class V> void setattr(handle h, const char *n, V &&v) { h.attr(n) = std::forward<V>(v); }
template <class V> const accessor &accessor::operator=(V &&v) const
{
    set(object::steal(detail::give(std::forward<V>(v))));
    return *this;
}
template <class V> void list::append(V &&v) const
{
    PyList_Append(p, object::steal(detail::give(std::forward<V>(v))).p);
}
template <class V> void list::insert(size_t i, V &&v) const
{
    PyList_Insert(p, static_cast<Py_ssize_t>(i), object::steal(detail::give(std::forward<V>(v))).p);
}
template <class V> bool set::add(V &&v) const { return PySet_Add(p, object::steal(detail::give(std::forward<V>(v))).p) == 0; }
template <class K> bool handle::contains(K &&k) const
{
    return PySequence_Contains(p, object::steal(detail::give(std::forward<K>(k))).p) == 1;
}
template <class... A> object handle::operator()(A &&...a) const
{
    return object::steal(PyObject_CallObject(p, pybind11::make_tuple(std::forward<A>(a)...).p));
}
template <class... A> void print(A &&...a)
{
    object out = object::steal(PyImport_ImportModule("builtins"));
    getattr(out, "print")(std::forward<A>(a)...);
}
template <class T> T handle::cast() const
{
    if constexpr (std::is_base_of_v<object, T>) // as constructing T from the object
    {
        if (detail::Caster<T> c; c.load(*this, true))
            return c.value();
        throw cast_error("Unable to cast Python instance to C++ type");
    }
    else
    {
    detail::Caster<detail::intrinsic<T>> c;
    if (!c.load(*this, true))
        throw cast_error("Unable to cast Python instance to C++ type");
    return detail::get<T>(c);
    }
}
// a callable as an object
class cpp_function : public function
{
  public:
    cpp_function() = default;
    template <class F, class... E> cpp_function(F f, const E &...e)
    {
        auto *rec = new detail::Record();
        auto o = detail::wrap<void>(f);
        (detail::apply(o, e), ...);
        rec->overloads.push_back(std::move(o));
        p = detail::function(rec);
    }
};

// ------------------------------------------------------------------ modules and classes
struct module_ : object
{
    std::string name;
    std::map<std::string, detail::Record *> functions;
    template <class F, class... E> module_ &def(const char *n, F f, const E &...e)
    {
        auto &rec = functions[n];
        const bool first = !rec;
        if (first)
        {
            rec = new detail::Record();
            rec->name = n;
        }
        auto o = detail::wrap<void>(f);
        (detail::apply(o, e), ...);
        rec->overloads.push_back(std::move(o));
        if (first)
            PyModule_AddObject(p, n, detail::function(rec));
        return *this;
    }
    module_ def_submodule(const char *n, const char * = nullptr)
    {
        module_ sub;
        sub.name = name + "." + n;
        PyObject *q = PyImport_AddModule(sub.name.c_str());
        Py_INCREF(q);
        sub.p = q;
        attr(n) = static_cast<const object &>(sub);
        return sub;
    }
    void add_object(const char *n, handle h, bool = false) { attr(n) = object::borrow(h.p); }
    static module_ import(const char *n)
    {
        module_ m;
        m.name = n;
        m.p = object::steal(PyImport_ImportModule(n)).release();
        return m;
    }
    const char *&doc()
    {
        static const char *d;
        return d;
    }
};
using module = module_;
template <class E> void register_exception(module_ &m, const char *n, handle base = handle(PyExc_Exception))
{
    m.attr(n) = object::steal(PyErr_NewException((m.name + "." + n).c_str(), base.p, nullptr));
}
namespace detail
{
inline PyObject *tpNew(PyTypeObject *t, PyObject *, PyObject *) { return t->tp_alloc(t, 0); }
inline void tpDealloc(PyObject *o)
{
    auto *i = reinterpret_cast<Instance *>(o);
    PyTypeObject *t = Py_TYPE(o);
    delete i->holder;
    dropPatients(o);
    t->tp_free(o);
    Py_DECREF(t);
}
inline PyTypeObject *iterationType()
{
    static PyTypeObject *type = []
    {
        static PyType_Slot slots[] = {
            {Py_tp_iter, reinterpret_cast<void *>(static_cast<PyObject *(*)(PyObject *)>(
                             [](PyObject *o)
                             {
                                 Py_INCREF(o);
                                 return o;
                             }))},
            {Py_tp_iternext, reinterpret_cast<void *>(static_cast<PyObject *(*)(PyObject *)>(
                                 [](PyObject *o) -> PyObject *
                                 {
                                     try
                                     {
                                         current() = Call{};
                                         return (*reinterpret_cast<Iteration *>(o)->next)();
                                     }
                                     catch (...)
                                     {
                                         translate();
                                         return nullptr;
                                     }
                                 }))},
            {Py_tp_dealloc, reinterpret_cast<void *>(static_cast<void (*)(PyObject *)>(
                                [](PyObject *o)
                                {
                                    PyTypeObject *t = Py_TYPE(o);
                                    delete reinterpret_cast<Iteration *>(o)->next;
                                    dropPatients(o);
                                    PyObject_Free(o);
                                    Py_DECREF(t);
                                }))},
            {0, nullptr}};
        static PyType_Spec spec{"pybind11.iterator", sizeof(Iteration), 0, Py_TPFLAGS_DEFAULT, slots};
        return reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
    }();
    return type;
}
} // namespace detail
template <class T, class... Extra> class class_ : public object
{
    std::map<std::string, detail::Record *> methods_;

    void add(const char *name, detail::Overload o, bool isStatic = false)
    {
        auto &rec = methods_[name];
        const bool first = !rec;
        if (first)
        {
            rec = new detail::Record();
            rec->name = name;
        }
        o.method = !isStatic;
        rec->overloads.push_back(std::move(o));
        if (!first)
            return;
        object f = object::steal(detail::function(rec));
        object m = object::steal(isStatic ? PyStaticMethod_New(f.p) : PyInstanceMethod_New(f.p));
        if (PyObject_SetAttrString(p, name, m.p))
            throw error_already_set();
    }
    template <class F, class... E> object accessorOf(const char *name, bool getter, F f, const E &...e)
    {
        if constexpr (std::is_base_of_v<handle, F>)
            return f ? object::steal(PyInstanceMethod_New(f.p)) : object();
        else
        {
            auto o = detail::wrap<T>(f);
            if (getter)
                o.policy = return_value_policy::reference_internal;
            (detail::apply(o, e), ...);
            return method(name, std::move(o));
        }
    }
    object method(const char *name, detail::Overload o)
    {
        auto *rec = new detail::Record();
        rec->name = name;
        o.method = true;
        rec->overloads.push_back(std::move(o));
        object f = object::steal(detail::function(rec));
        return object::steal(PyInstanceMethod_New(f.p));
    }
    void property(const char *name, object get, object set)
    {
        object prop = object::steal(PyObject_CallFunctionObjArgs(reinterpret_cast<PyObject *>(&PyProperty_Type), get ? get.p : Py_None,
                                                                 set ? set.p : Py_None, nullptr));
        if (PyObject_SetAttrString(p, name, prop.p))
            throw error_already_set();
    }
    template <class... A> static T *make(A... a)
    {
        if constexpr (std::is_constructible_v<T, A...>)
            return new T(std::forward<A>(a)...);
        else
            return new T{std::forward<A>(a)...};
    }

  public:
    template <class M, class... X> class_(M &m, const char *name, const X &...)
    {
        const std::string full = m.name + "." + name;
        PyType_Slot slots[] = {{Py_tp_new, reinterpret_cast<void *>(detail::tpNew)},
                               {Py_tp_dealloc, reinterpret_cast<void *>(detail::tpDealloc)},
                               {0, nullptr}};
        PyType_Spec spec{(new std::string(full))->c_str(), sizeof(detail::Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        p = PyType_FromSpec(&spec);
        if (!p)
            throw error_already_set();
        detail::types()[typeid(T)].type = reinterpret_cast<PyTypeObject *>(p);
        Py_INCREF(p);
        PyModule_AddObject(m.p, name, p);
    }
    template <class... A, class... E> class_ &def(detail::InitTag<A...>, const E &...e)
    {
        auto f = [](detail::Self s, A... a)
        {
            std::shared_ptr<T> t(make<A...>(std::forward<A>(a)...));
            s.i->ptr = t.get();
            delete s.i->holder;
            s.i->holder = new std::shared_ptr<void>(t);
        };
        auto o = detail::overload<decltype(f), void, detail::Self, A...>(f);
        (detail::apply(o, e), ...);
        add("__init__", std::move(o));
        return *this;
    }
    template <class F, class... E> class_ &def(const detail::FactoryTag<F> &t, const E &...e)
    {
        auto made = detail::wrap<void>(t.f);
        auto inner = made.call;
        // the factory's result is a new instance: its contents become this object's
        auto o = made;
        o.total = made.total + 1;
        o.call = [inner](const std::vector<PyObject *> &a, bool convert) mutable -> PyObject *
        {
            PyObject *r = inner(std::vector<PyObject *>(a.begin() + 1, a.end()), convert);
            if (r == detail::NEXT || !r)
                return r;
            object keep = object::steal(r);
            if (r == Py_None)
                throw type_error("pybind11::init(): factory function returned nullptr");
            auto *from = reinterpret_cast<detail::Instance *>(r);
            auto *to = reinterpret_cast<detail::Instance *>(a[0]);
            to->ptr = from->ptr;
            delete to->holder;
            to->holder = new std::shared_ptr<void>(*from->holder);
            Py_RETURN_NONE;
        };
        (detail::apply(o, e), ...);
        add("__init__", std::move(o));
        return *this;
    }
    template <class Op, class O, bool R, class... E> class_ &def(detail::OpTag<Op, O, R>, const E &...)
    {
        if constexpr (std::is_same_v<O, detail::SelfTag>)
            return def(Op::forward, [](const T &a, const T &b) { return Op::run(a, b); }, is_operator());
        else if constexpr (R)
            return def(Op::reversed, [](const T &a, const O &b) { return Op::run(b, a); }, is_operator());
        else
            return def(Op::forward, [](const T &a, const O &b) { return Op::run(a, b); }, is_operator());
    }
    template <class... E> class_ &def(detail::NegTag, const E &...)
    {
        return def("__neg__", [](const T &a) { return -a; }, is_operator());
    }
    class_ &def(detail::HashTag)
    {
        return def("__hash__", [](const T &a) { return static_cast<Py_hash_t>(std::hash<T>()(a)); });
    }
    template <class G, class S> class_ &def(const detail::PickleTag<G, S> &t)
    {
        def("__getstate__", t.get);
        auto set = t.set;
        auto f = [set](detail::Self s, const tuple &state)
        {
            using R = decltype(set(state));
            std::shared_ptr<T> made;
            if constexpr (std::is_convertible_v<R, std::shared_ptr<T>>)
                made = set(state);
            else if constexpr (std::is_pointer_v<R>)
                made.reset(set(state));
            else
                made = std::make_shared<T>(set(state));
            s.i->ptr = made.get();
            delete s.i->holder;
            s.i->holder = new std::shared_ptr<void>(made);
        };
        add("__setstate__", detail::overload<decltype(f), void, detail::Self, const tuple &>(f));
        return *this;
    }
    template <class F, class... E> class_ &def(const char *name, F f, const E &...e)
    {
        auto o = detail::wrap<T>(f);
        (detail::apply(o, e), ...);
        add(name, std::move(o));
        // a class with __eq__ and no __hash__ is not hashable
        if (!std::strcmp(name, "__eq__") && !methods_.count("__hash__"))
            PyObject_SetAttrString(p, "__hash__", Py_None);
        return *this;
    }
    template <class F, class... E> class_ &def_static(const char *name, F f, const E &...e)
    {
        auto o = detail::wrap<void>(f);
        (detail::apply(o, e), ...);
        add(name, std::move(o), true);
        return *this;
    }
    template <class C, class D> object memberGetter(const char *name, D C::*m)
    {
        detail::Overload g;
        g.total = 1;
        g.call = [m](const std::vector<PyObject *> &a, bool convert) -> PyObject *
        {
            detail::Caster<T> c;
            if (!c.load(handle(a[0]), convert))
                return detail::NEXT;
            return detail::giveMember(a[0], const_cast<std::remove_const_t<D> &>(c.value().*m));
        };
        return method(name, std::move(g));
    }
    template <class C, class D, class... E> class_ &def_readwrite(const char *name, D C::*m, const E &...)
    {
        auto s = [m](T &t, const D &d) { t.*m = d; };
        property(name, memberGetter(name, m), method(name, detail::overload<decltype(s), void, T &, const D &>(s)));
        return *this;
    }
    template <class C, class D, class... E> class_ &def_readonly(const char *name, D C::*m, const E &...)
    {
        property(name, memberGetter(name, m), object());
        return *this;
    }
    template <class G, class... E> class_ &def_property_readonly(const char *name, G g, const E &...e)
    {
        property(name, accessorOf(name, true, g, e...), object());
        return *this;
    }
    template <class G, class S, class... E> class_ &def_property(const char *name, G g, S s, const E &...e)
    {
        if constexpr (std::is_same_v<G, std::nullptr_t>)
            property(name, object(), accessorOf(name, false, s, e...));
        else if constexpr (std::is_same_v<S, std::nullptr_t>)
            property(name, accessorOf(name, true, g, e...), object());
        else
            property(name, accessorOf(name, true, g, e...), accessorOf(name, false, s, e...));
        return *this;
    }
    template <class D> class_ &def_readonly_static(const char *name, const D *d)
    {
        attr(name) = *d;
        return *this;
    }
    template <class G, class... E> class_ &def_property_readonly_static(const char *name, G g, const E &...)
    {
        // evaluated once: enough for constants
        attr(name) = object::steal(PyObject_CallFunctionObjArgs(cpp_function(g).p, p, nullptr));
        return *this;
    }
    const char *&doc()
    {
        static const char *d;
        return d;
    }
};
// enumerations are integers with names
template <class T> class enum_ : public object
{
    module_ *m_{};
    std::string name_;
    object members_ = object::steal(PyList_New(0));

    void build()
    {
        object lib = object::steal(PyImport_ImportModule("enum"));
        object cls = getattr(lib, "IntEnum")(name_, members_);
        Py_XDECREF(p);
        p = cls.release();
        detail::types()[typeid(T)].type = reinterpret_cast<PyTypeObject *>(p);
        Py_INCREF(p);
        m_->attr(name_.c_str()) = static_cast<const object &>(*this);
    }

  public:
    template <class... X> enum_(module_ &m, const char *n, const X &...) : m_(new module_(m)), name_(n) {}
    enum_ &value(const char *n, T v, const char * = nullptr)
    {
        object t = object::steal(Py_BuildValue("(sL)", n, static_cast<long long>(v)));
        PyList_Append(members_.p, t.p);
        build();
        return *this;
    }
    enum_ &export_values()
    {
        for (handle e : members_)
        {
            const char *n = PyUnicode_AsUTF8(PyTuple_GetItem(e.p, 0));
            m_->attr(n) = getattr(*this, n);
        }
        return *this;
    }
};
template <class From, class To> void implicitly_convertible()
{
    auto *t = detail::find(typeid(To));
    t->implicit.push_back(
        [](PyObject *o)
        {
            detail::Caster<From> c;
            return c.load(handle(o), false);
        });
}
template <class V, class M, class... X> class_<V> bind_vector(M &m, const char *name, const X &...)
{
    using E = typename V::value_type;
    class_<V> c(m, name);
    const auto at = [](const V &v, Py_ssize_t i)
    {
        if (i < 0)
            i += static_cast<Py_ssize_t>(v.size());
        if (i < 0 || i >= static_cast<Py_ssize_t>(v.size()))
            throw index_error();
        return static_cast<size_t>(i);
    };
    c.def(init<>());
    c.def(init<const V &>());
    c.def(init(
        [](const iterable &it)
        {
            V v;
            for (handle h : it)
                v.push_back(h.cast<E>());
            return v;
        }));
    c.def("extend", [](V &v, const V &o) { v.insert(v.end(), o.begin(), o.end()); });
    c.def("insert", [](V &v, Py_ssize_t i, const E &e)
          {
              if (i < 0)
                  i += static_cast<Py_ssize_t>(v.size());
              if (i < 0 || i > static_cast<Py_ssize_t>(v.size()))
                  throw index_error();
              v.insert(v.begin() + i, e);
          });
    c.def("pop", [](V &v)
          {
              if (v.empty())
                  throw index_error();
              E e = v.back();
              v.pop_back();
              return e;
          });
    c.def("__delitem__", [at](V &v, Py_ssize_t i) { v.erase(v.begin() + static_cast<Py_ssize_t>(at(v, i))); });
    c.def("__contains__", [](const V &v, const E &e) { return std::find(v.begin(), v.end(), e) != v.end(); });
    c.def("count", [](const V &v, const E &e) { return std::count(v.begin(), v.end(), e); });
    c.def("__getitem__", [](const V &v, const slice &s)
          {
              size_t a, b, st, n;
              if (!s.compute(v.size(), &a, &b, &st, &n))
                  throw error_already_set();
              V o;
              for (size_t i = 0; i < n; i++, a += st)
                  o.push_back(v[a]);
              return o;
          });
    c.def("append", [](V &v, const E &e) { v.push_back(e); });
    c.def("clear", [](V &v) { v.clear(); });
    c.def("__len__", [](const V &v) { return v.size(); });
    c.def("__bool__", [](const V &v) { return !v.empty(); });
    c.def(self == self);
    c.def(self != self);
    c.def("__iter__", [](V &v) { return make_iterator(v.begin(), v.end()); }, keep_alive<0, 1>());
    c.def("__getitem__",
          [](const V &v, Py_ssize_t i)
          {
              if (i < 0)
                  i += static_cast<Py_ssize_t>(v.size());
              if (i < 0 || i >= static_cast<Py_ssize_t>(v.size()))
                  throw index_error();
              return v[static_cast<size_t>(i)];
          });
    c.def("__setitem__",
          [](V &v, Py_ssize_t i, const E &e)
          {
              if (i < 0)
                  i += static_cast<Py_ssize_t>(v.size());
              if (i < 0 || i >= static_cast<Py_ssize_t>(v.size()))
                  throw index_error();
              v[static_cast<size_t>(i)] = e;
          });
    // pybind11 gives a buffer; the harness uses these two instead
    c.def("_bytes", [](const V &v) { return bytes(std::string(v.begin(), v.end())); });
    c.def("_assign", [](V &v, const std::string &s) { v.assign(s.begin(), s.end()); });
    return c;
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)
#define PYBIND11_MODULE(modname, m, ...)                                                                                                           \
    static void pybind11_init_##modname(pybind11::module_ &);                                                                                 \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##modname()                                                            \
    {                                                                                                                                      \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #modname, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr};                    \
        auto *mod = new pybind11::module_();                                                                                               \
        mod->name = "copclib." #modname;                                                                                                      \
        mod->p = PyModule_Create(&def);                                                                                                    \
        try                                                                                                                                \
        {                                                                                                                                  \
            pybind11_init_##modname(*mod);                                                                                                    \
        }                                                                                                                                  \
        catch (...)                                                                                                                        \
        {                                                                                                                                  \
            pybind11::detail::translate();                                                                                                 \
            return nullptr;                                                                                                                \
        }                                                                                                                                  \
        return mod->p;                                                                                                                     \
    }                                                                                                                                      \
    static void pybind11_init_##modname(pybind11::module_ &m)
