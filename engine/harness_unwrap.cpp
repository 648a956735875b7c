// the C++ object behind a Python object, for the replays
#include <pybind11/pybind11.h>
#include "booz_xform.hpp"
extern "C" __attribute__((visibility("default"))) void* h_unwrap(PyObject* o) { return pybind11::cast<booz_xform::Booz_xform*>(pybind11::handle(o)); }
extern "C" __attribute__((visibility("default"))) int h_omp_max_threads() { return booz_xform::omp_max_threads(); }
