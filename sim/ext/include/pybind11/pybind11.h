/* A small stand-in for the part of pybind11 that pctsp/pypctsp.cpp uses (pybind11 is not installed here).
 * Conversions follow pybind11: integers are taken from int (and __index__), never from float or None; bool only from
 * True/False (and numpy bools); containers from any sequence / dict; C++ exceptions become Python exceptions. */
#pragma once
#include <Python.h>
#include <filesystem>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("python error") {} };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };

class object {
protected:
    PyObject* p = nullptr;
public:
    object() {}
    object(PyObject* o, bool steal) : p(o) { if (!steal) Py_XINCREF(p); }
    object(const object& o) : p(o.p) { Py_XINCREF(p); }
    object(object&& o) noexcept : p(o.p) { o.p = nullptr; }
    object& operator=(const object& o) { Py_XINCREF(o.p); Py_XDECREF(p); p = o.p; return *this; }
    object& operator=(object&& o) noexcept { std::swap(p, o.p); return *this; }
    ~object() { Py_XDECREF(p); }
    PyObject* ptr() const { return p; }
    bool is_none() const { return p == Py_None; }
    explicit operator bool() const { return p != nullptr; }
    PyObject* release() { PyObject* r = p; p = nullptr; return r; }
    object attr(const char* name) const { PyObject* r = PyObject_GetAttrString(p, name); if (!r) throw error_already_set(); return object(r, true); }
    template <typename... A> object operator()(A&&... a) const;
    template <typename T> T cast() const;
};
class handle : public object { using object::object; };
class bool_ : public object { public: bool_(bool b) : object(b ? Py_True : Py_False, false) {} };
class module : public object { public: module(const object& o) : object(o) {} static module import(const char* n) { PyObject* r = PyImport_ImportModule(n); if (!r) throw error_already_set(); return module(object(r, true)); } };
class str : public object { public: str(const char* s) : object(PyUnicode_FromString(s), true) {} };
template <typename T> T reinterpret_borrow(PyObject* o) { return T(o, false); }
template <typename T> T reinterpret_steal(PyObject* o) { return T(o, true); }
template <> inline object reinterpret_borrow<object>(PyObject* o) { return object(o, false); }
template <> inline object reinterpret_steal<object>(PyObject* o) { return object(o, true); }

namespace detail {
template <typename T, typename = void> struct caster;
/* load returns false when the object does not convert (the call then raises TypeError) */
template <typename T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static bool load(PyObject* o, T& v) {
        if (!o || PyFloat_Check(o) || o == Py_None) return false;
        PyObject* i = PyNumber_Index(o); if (!i) { PyErr_Clear(); return false; }
        bool ok;
        if constexpr (std::is_signed_v<T>) { long long x = PyLong_AsLongLong(i); ok = !(x == -1 && PyErr_Occurred()) && (long long)(T)x == x; v = (T)x; }
        else { unsigned long long x = PyLong_AsUnsignedLongLong(i); ok = !(x == (unsigned long long)-1 && PyErr_Occurred()) && (unsigned long long)(T)x == x; v = (T)x; }
        PyErr_Clear(); Py_DECREF(i); return ok; }
    static PyObject* store(T v) { if constexpr (std::is_signed_v<T>) return PyLong_FromLongLong(v); else return PyLong_FromUnsignedLongLong(v); }
};
template <> struct caster<bool> {
    static bool load(PyObject* o, bool& v) { if (o == Py_True) { v = true; return true; } if (o == Py_False) { v = false; return true; }
        const char* n = o ? Py_TYPE(o)->tp_name : ""; if (std::string(n) == "numpy.bool_" || std::string(n) == "numpy.bool") { int r = PyObject_IsTrue(o); if (r < 0) { PyErr_Clear(); return false; } v = r; return true; } return false; }
    static PyObject* store(bool v) { return PyBool_FromLong(v); }
};
template <typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static bool load(PyObject* o, T& v) { if (!o || o == Py_None) return false; double d = PyFloat_AsDouble(o); if (d == -1.0 && PyErr_Occurred()) { PyErr_Clear(); return false; } v = (T)d; return true; }
    static PyObject* store(T v) { return PyFloat_FromDouble((double)v); }
};
template <> struct caster<std::string> {
    static bool load(PyObject* o, std::string& v) { if (!o || !PyUnicode_Check(o)) return false; Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n); if (!s) { PyErr_Clear(); return false; } v.assign(s, n); return true; }
    static PyObject* store(const std::string& v) { return PyUnicode_FromStringAndSize(v.data(), v.size()); }
};
template <> struct caster<std::filesystem::path> {
    static bool load(PyObject* o, std::filesystem::path& v) { PyObject* f = PyOS_FSPath(o); if (!f) { PyErr_Clear(); return false; } std::string s; bool ok = caster<std::string>::load(f, s); Py_DECREF(f); v = s; return ok; }
    static PyObject* store(const std::filesystem::path& v) { PyObject* m = PyImport_ImportModule("pathlib"); if (!m) return nullptr; PyObject* r = PyObject_CallMethod(m, "Path", "s", v.c_str()); Py_DECREF(m); return r; }
};
template <> struct caster<object> {
    static bool load(PyObject* o, object& v) { v = object(o, false); return o != nullptr; }
    static PyObject* store(const object& v) { Py_XINCREF(v.ptr()); return v.ptr(); }
};
template <> struct caster<bool_> { static PyObject* store(const bool_& v) { Py_XINCREF(v.ptr()); return v.ptr(); } };
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static bool load(PyObject* o, std::pair<A, B>& v) { if (!o || !PySequence_Check(o) || PyUnicode_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
        PyObject *a = PySequence_GetItem(o, 0), *b = PySequence_GetItem(o, 1); bool ok = a && b && caster<A>::load(a, v.first) && caster<B>::load(b, v.second); Py_XDECREF(a); Py_XDECREF(b); PyErr_Clear(); return ok; }
    static PyObject* store(const std::pair<A, B>& v) { return Py_BuildValue("(NN)", caster<A>::store(v.first), caster<B>::store(v.second)); }
};
template <typename C> struct seq_caster {
    using E = typename C::value_type;
    static bool load(PyObject* o, C& v) { if (!o || !PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) return false; PyObject* f = PySequence_Fast(o, ""); if (!f) { PyErr_Clear(); return false; }
        v.clear(); for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(f); i++) { E e{}; if (!caster<E>::load(PySequence_Fast_GET_ITEM(f, i), e)) { Py_DECREF(f); return false; } v.push_back(std::move(e)); } Py_DECREF(f); return true; }
    static PyObject* store(const C& v) { PyObject* l = PyList_New(v.size()); Py_ssize_t i = 0; for (auto& e : v) PyList_SET_ITEM(l, i++, caster<E>::store(e)); return l; }
};
template <typename T> struct caster<std::vector<T>> : seq_caster<std::vector<T>> {};
template <typename T> struct caster<std::list<T>> : seq_caster<std::list<T>> {};
template <typename K, typename V> struct caster<std::map<K, V>> {
    static bool load(PyObject* o, std::map<K, V>& v) { if (!o || !PyDict_Check(o)) return false; v.clear(); PyObject *k, *x; Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &x)) { K kk{}; V vv{}; if (!caster<K>::load(k, kk) || !caster<V>::load(x, vv)) return false; v.emplace(std::move(kk), std::move(vv)); } return true; }
    static PyObject* store(const std::map<K, V>& v) { PyObject* d = PyDict_New(); for (auto& e : v) { PyObject *k = caster<K>::store(e.first), *x = caster<V>::store(e.second); PyDict_SetItem(d, k, x); Py_DECREF(k); Py_DECREF(x); } return d; }
};

using fn_t = std::function<PyObject*(PyObject*)>;
template <typename R, typename... A, size_t... I> PyObject* invoke(R (*f)(A...), PyObject* args, const char* name, std::index_sequence<I...>) {
    std::tuple<std::remove_cv_t<std::remove_reference_t<A>>...> t; size_t bad = 0;
    if (PyTuple_Size(args) != (Py_ssize_t)sizeof...(A) || !(true && ... && (caster<std::remove_cv_t<std::remove_reference_t<A>>>::load(PyTuple_GetItem(args, I), std::get<I>(t)) || (bad = I + 1, false)))) {
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (%zd given, %zu expected%s%zu)", name, PyTuple_Size(args), sizeof...(A), bad ? ", the first that does not convert is number " : ", bad ", bad); return nullptr; }
    if constexpr (std::is_void_v<R>) { f(static_cast<A>(std::get<I>(t))...); Py_RETURN_NONE; }
    else { R r = f(static_cast<A>(std::get<I>(t))...); return caster<std::remove_cv_t<std::remove_reference_t<R>>>::store(r); }
}
struct record { fn_t f; std::string name, doc; PyMethodDef def; };
inline PyObject* trampoline(PyObject* self, PyObject* args) {
    record* r = (record*)PyCapsule_GetPointer(self, "simpybind"); if (!r) return nullptr;
    try { return r->f(args); }
    catch (const error_already_set&) { return nullptr; }
    catch (const std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (const std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::overflow_error& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
    catch (const std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
    return nullptr; }
}

class module_ : public object {
public:
    module_(const object& o) : object(o) {}
    template <typename R, typename... A, typename... X> module_& def(const char* name, R (*f)(A...), X&&... extra) {
        auto* r = new detail::record; r->name = name; ((std::is_convertible_v<X, const char*> ? (void)(r->doc = doc_of(extra)) : (void)0), ...);
        const char* nm = r->name.c_str(); r->f = [f, nm](PyObject* a) { return detail::invoke(f, a, nm, std::index_sequence_for<A...>()); };
        r->def = PyMethodDef{r->name.c_str(), detail::trampoline, METH_VARARGS, r->doc.c_str()};
        PyObject* cap = PyCapsule_New(r, "simpybind", nullptr); PyObject* fn = PyCFunction_New(&r->def, cap); Py_DECREF(cap); PyModule_AddObject(p, name, fn); return *this; }
private:
    static std::string doc_of(const char* s) { return s; }
    template <typename T> static std::string doc_of(const T&) { return ""; }
};

namespace detail { template <typename T> PyObject* to_py(T&& v) { using U = std::remove_cv_t<std::remove_reference_t<T>>; if constexpr (std::is_base_of_v<object, U>) { Py_XINCREF(v.ptr()); return v.ptr(); } else if constexpr (std::is_convertible_v<U, const char*>) return PyUnicode_FromString(v); else return caster<U>::store(v); } }
template <typename... A> object object::operator()(A&&... a) const {
    PyObject* t = PyTuple_New(sizeof...(A)); Py_ssize_t i = 0; ((PyTuple_SET_ITEM(t, i++, detail::to_py(std::forward<A>(a)))), ...); (void)i;
    PyObject* r = PyObject_Call(p, t, nullptr); Py_DECREF(t); if (!r) throw error_already_set(); return object(r, true); }
template <typename T> T object::cast() const { T v{}; if (!detail::caster<T>::load(p, v)) throw cast_error("Unable to cast Python instance"); return v; }
}

#define PYBIND11_MODULE(NAME, VAR) \
    static void pybind11_init_##NAME(::pybind11::module_&); \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() { \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject* mod__ = PyModule_Create(&def); if (!mod__) return nullptr; \
        ::pybind11::module_ w__(::pybind11::object(mod__, false)); pybind11_init_##NAME(w__); return mod__; } \
    static void pybind11_init_##NAME(::pybind11::module_& VAR)
