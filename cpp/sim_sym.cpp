// the current source of the compiled simulator with its floating-point type replaced by symbolic numbers
#include "symd.hpp"
#include "random.hpp"
#define double SymD
#define gil_scoped_release sym_no_release
#define uniform_real_distribution vf_distribution
#include VF_SOURCE
