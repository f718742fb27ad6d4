// A number that is either a plain double or a symbolic expression owned by the Python engine.
// Every arithmetic operation, comparison and library call of the code under test goes through it when the sources
// of the simulator are compiled with the keyword double replaced by SymD.
#pragma once
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <pybind11/functional.h>
#include <pybind11/complex.h>
#include <pybind11/numpy.h>
#include <pybind11/operators.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <random>
#include <set>
#include <tuple>
#include <type_traits>
#include <vector>

struct SymD;
namespace symd {
inline PyObject *glue(char const *name) {
    static PyObject *mod = nullptr;
    if (!mod) {
        mod = PyImport_ImportModule("vf.cppglue");
        if (!mod) throw pybind11::error_already_set();
    }
    PyObject *f = PyObject_GetAttrString(mod, name);
    if (!f) throw pybind11::error_already_set();
    return f;
}
}

struct SymD {
    double v;
    PyObject *o;
    SymD() : v(0.), o(nullptr) {}
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    SymD(T x) : v(static_cast<double>(x)), o(nullptr) {}
    SymD(SymD const &s) : v(s.v), o(s.o) { Py_XINCREF(o); }
    SymD(SymD &&s) noexcept : v(s.v), o(s.o) { s.o = nullptr; }
    ~SymD() { Py_XDECREF(o); }
    SymD &operator=(SymD const &s) {
        Py_XINCREF(s.o);
        Py_XDECREF(o);
        v = s.v;
        o = s.o;
        return *this;
    }
    SymD &operator=(SymD &&s) noexcept {
        std::swap(v, s.v);
        std::swap(o, s.o);
        return *this;
    }
    // takes ownership
    static SymD steal(PyObject *p) {
        if (!p) throw pybind11::error_already_set();
        SymD r;
        if (PyFloat_Check(p) || PyLong_Check(p)) {
            r.v = PyFloat_AsDouble(p);
            Py_DECREF(p);
            if (r.v == -1. && PyErr_Occurred()) throw pybind11::error_already_set();
        } else
            r.o = p;
        return r;
    }
    PyObject *py() const {   // new reference
        if (o) {
            Py_INCREF(o);
            return o;
        }
        return PyFloat_FromDouble(v);
    }
    explicit operator bool() const { return cmp(SymD(0.), Py_NE); }
    // a truncating conversion to any whole number type, but not to other floating-point types (keeps a ? x : 0. well-formed)
    template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
    operator T() const { return static_cast<T>(whole()); }
    long whole() const {
        if (!o) return static_cast<long>(v);
        PyObject *f = symd::glue("whole");
        PyObject *r = PyObject_CallFunctionObjArgs(f, o, nullptr);
        Py_DECREF(f);
        if (!r) throw pybind11::error_already_set();
        long l = PyLong_AsLong(r);
        Py_DECREF(r);
        return l;
    }
    static SymD call(char const *name, SymD const &a) {
        PyObject *f = symd::glue(name), *x = a.py();
        PyObject *r = PyObject_CallFunctionObjArgs(f, x, nullptr);
        Py_DECREF(f);
        Py_DECREF(x);
        return steal(r);
    }
    static SymD bin(SymD const &a, SymD const &b, PyObject *(*f)(PyObject *, PyObject *)) {
        PyObject *x = a.py(), *y = b.py();
        PyObject *r = f(x, y);
        Py_DECREF(x);
        Py_DECREF(y);
        return steal(r);
    }
    bool cmp(SymD const &b, int op) const {
        PyObject *x = py(), *y = b.py();
        PyObject *r = PyObject_RichCompare(x, y, op);
        Py_DECREF(x);
        Py_DECREF(y);
        if (!r) throw pybind11::error_already_set();
        int t = PyObject_IsTrue(r);
        Py_DECREF(r);
        if (t < 0) throw pybind11::error_already_set();
        return t;
    }
    SymD &operator+=(SymD const &b) { return *this = add(*this, b); }
    SymD &operator-=(SymD const &b) { return *this = sub(*this, b); }
    SymD &operator*=(SymD const &b) { return *this = mul(*this, b); }
    SymD &operator/=(SymD const &b) { return *this = div(*this, b); }
    static SymD add(SymD const &a, SymD const &b) {
        if (!a.o && !b.o) return SymD(a.v + b.v);
        if (!a.o && a.v == 0.) return b;
        if (!b.o && b.v == 0.) return a;
        return bin(a, b, PyNumber_Add);
    }
    static SymD sub(SymD const &a, SymD const &b) {
        if (!a.o && !b.o) return SymD(a.v - b.v);
        if (!b.o && b.v == 0.) return a;
        return bin(a, b, PyNumber_Subtract);
    }
    static SymD mul(SymD const &a, SymD const &b) {
        if (!a.o && !b.o) return SymD(a.v * b.v);
        if (!a.o && a.v == 0.) return a;
        if (!b.o && b.v == 0.) return b;
        if (!a.o && a.v == 1.) return b;
        if (!b.o && b.v == 1.) return a;
        return bin(a, b, PyNumber_Multiply);
    }
    static SymD div(SymD const &a, SymD const &b) {
        if (!a.o && !b.o) return SymD(a.v / b.v);
        return bin(a, b, PyNumber_TrueDivide);
    }
};
#define SYMD_OP(op, fn)                                                                                                \
    inline SymD operator op(SymD const &a, SymD const &b) { return SymD::fn(a, b); }                                   \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline SymD operator op(SymD const &a, T b) { return SymD::fn(a, SymD(b)); }                                       \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline SymD operator op(T a, SymD const &b) { return SymD::fn(SymD(a), b); }
SYMD_OP(+, add)
SYMD_OP(-, sub)
SYMD_OP(*, mul)
SYMD_OP(/, div)
inline SymD operator-(SymD const &a) { return SymD::mul(SymD(-1.), a); }
inline SymD operator+(SymD const &a) { return a; }
#define SYMD_CMP(op, code)                                                                                             \
    inline bool operator op(SymD const &a, SymD const &b) { return (a.o || b.o) ? a.cmp(b, code) : a.v op b.v; }       \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline bool operator op(SymD const &a, T b) { return a op SymD(b); }                                               \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline bool operator op(T a, SymD const &b) { return SymD(a) op b; }
SYMD_CMP(<, Py_LT)
SYMD_CMP(<=, Py_LE)
SYMD_CMP(>, Py_GT)
SYMD_CMP(>=, Py_GE)
SYMD_CMP(==, Py_EQ)
SYMD_CMP(!=, Py_NE)

namespace std {
#define SYMD_FN(name)                                                                                                  \
    inline SymD name(SymD const &a) { return a.o ? SymD::call(#name, a) : SymD(std::name(a.v)); }
SYMD_FN(sqrt)
SYMD_FN(abs)
SYMD_FN(fabs)
SYMD_FN(exp)
SYMD_FN(cos)
SYMD_FN(sin)
SYMD_FN(floor)
SYMD_FN(ceil)
#define SYMD_MIX(name)                                                                                                 \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline SymD name(SymD const &a, T b) { return name(a, SymD(b)); }                                                  \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline SymD name(T a, SymD const &b) { return name(SymD(a), b); }
SYMD_MIX(max)
SYMD_MIX(min)
inline SymD fmax(SymD const &a, SymD const &b) { return a < b ? b : a; }
inline SymD fmin(SymD const &a, SymD const &b) { return b < a ? b : a; }
SYMD_MIX(fmax)
SYMD_MIX(fmin)
inline SymD trunc(SymD const &a) { return a.o ? SymD(a.whole()) : SymD(std::trunc(a.v)); }
inline SymD fma(SymD const &a, SymD const &b, SymD const &c) { return a * b + c; }
inline SymD hypot(SymD const &a, SymD const &b) { return sqrt(a * a + b * b); }
inline SymD pow(SymD const &a, int n) {
    SymD r(1.);
    for (int i = 0; i < (n < 0 ? -n : n); ++i) r *= a;
    return n < 0 ? SymD(1.) / r : r;
}
inline bool isnan(SymD const &a) { return !a.o && std::isnan(a.v); }
inline bool isfinite(SymD const &a) { return a.o || std::isfinite(a.v); }
inline bool isinf(SymD const &a) { return !a.o && std::isinf(a.v); }

template <> class complex<SymD> {
    SymD r, i;

public:
    typedef SymD value_type;
    complex() {}
    complex(SymD const &a) : r(a) {}
    complex(SymD const &a, SymD const &b) : r(a), i(b) {}
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    complex(T a) : r(a) {}
    complex(complex<double> const &a) : r(a.real()), i(a.imag()) {}
    SymD real() const { return r; }
    SymD imag() const { return i; }
    void real(SymD const &x) { r = x; }
    void imag(SymD const &x) { i = x; }
    complex &operator+=(SymD const &b) { r += b; return *this; }
    complex &operator-=(SymD const &b) { r -= b; return *this; }
    complex &operator*=(SymD const &b) { r *= b; i *= b; return *this; }
    complex &operator/=(SymD const &b) { r /= b; i /= b; return *this; }
    complex &operator+=(complex const &b) { r += b.r; i += b.i; return *this; }
    complex &operator-=(complex const &b) { r -= b.r; i -= b.i; return *this; }
    complex &operator*=(complex const &b) {
        SymD x = r * b.r - i * b.i;
        i = r * b.i + i * b.r;
        r = x;
        return *this;
    }
    complex &operator/=(complex const &b) {
        SymD n = b.r * b.r + b.i * b.i;
        SymD x = (r * b.r + i * b.i) / n;
        i = (i * b.r - r * b.i) / n;
        r = x;
        return *this;
    }
};
inline SymD norm(complex<SymD> const &z) { return z.real() * z.real() + z.imag() * z.imag(); }
inline SymD abs(complex<SymD> const &z) { return sqrt(norm(z)); }
inline complex<SymD> exp(complex<SymD> const &z) {
    SymD m = exp(z.real());
    return complex<SymD>(m * cos(z.imag()), m * sin(z.imag()));
}
#define SYMD_CMIX(op)                                                                                                  \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline complex<SymD> operator op(complex<SymD> const &a, T b) { complex<SymD> c(a); c op##= SymD(b); return c; }
SYMD_CMIX(*)
SYMD_CMIX(/)
SYMD_CMIX(+)
SYMD_CMIX(-)
#define SYMD_CMIX2(op)                                                                                                 \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>                            \
    inline complex<SymD> operator op(T a, complex<SymD> const &b) { complex<SymD> c((SymD(a))); c op##= b; return c; }
SYMD_CMIX2(*)
SYMD_CMIX2(/)
SYMD_CMIX2(+)
SYMD_CMIX2(-)
} // namespace std

namespace pybind11 {
struct sym_no_release {};
namespace detail {
template <> struct type_caster<SymD> {
    PYBIND11_TYPE_CASTER(SymD, const_name("float"));
    bool load(handle src, bool) {
        PyObject *p = src.ptr();
        if (PyFloat_Check(p) || PyLong_Check(p)) {
            value = SymD(PyFloat_AsDouble(p));
            return !PyErr_Occurred();
        }
        PyObject *f = symd::glue("as_real");
        PyObject *r = PyObject_CallFunctionObjArgs(f, p, nullptr);
        Py_DECREF(f);
        if (!r) {
            PyErr_Clear();
            return false;
        }
        value = SymD::steal(r);
        return true;
    }
    static handle cast(SymD const &s, return_value_policy, handle) { return handle(s.py()); }
};
template <> struct type_caster<std::complex<SymD>> {
    PYBIND11_TYPE_CASTER(std::complex<SymD>, const_name("complex"));
    bool load(handle src, bool) {
        PyObject *f = symd::glue("as_pair");
        PyObject *r = PyObject_CallFunctionObjArgs(f, src.ptr(), nullptr);
        Py_DECREF(f);
        if (!r) {
            PyErr_Clear();
            return false;
        }
        PyObject *a = PyTuple_GetItem(r, 0), *b = PyTuple_GetItem(r, 1);
        Py_INCREF(a);
        Py_INCREF(b);
        Py_DECREF(r);
        SymD x = SymD::steal(a), y = SymD::steal(b);
        value = std::complex<SymD>(x, y);
        return true;
    }
    static handle cast(std::complex<SymD> const &z, return_value_policy, handle) {
        PyObject *f = symd::glue("from_pair"), *a = z.real().py(), *b = z.imag().py();
        PyObject *r = PyObject_CallFunctionObjArgs(f, a, b, nullptr);
        Py_DECREF(f);
        Py_DECREF(a);
        Py_DECREF(b);
        if (!r) throw error_already_set();
        return handle(r);
    }
};
} // namespace detail
} // namespace pybind11
