// the simulator's random numbers come from the harness
#pragma once
#include <pybind11/pybind11.h>
namespace std {
template <class T> class vf_distribution {
public:
    typedef T result_type;
    vf_distribution(T = T(0), T = T(1)) {}
    template <class E> T operator()(E &) {
        pybind11::object r = pybind11::module_::import("vf.cppglue").attr("random")();
        return r.cast<T>();
    }
};
}
