// the current source of the compiled simulator; only the random numbers come from the harness
#include <pybind11/pybind11.h>
#include <random>
#include "random.hpp"
#define uniform_real_distribution vf_distribution
#include VF_SOURCE
