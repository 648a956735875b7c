// Library templates that the compiler would take from the C++ runtime: instantiated here, so that the symbolic executor has their bodies.
#include <string>
#include <vector>
#include <algorithm>
template class std::__cxx11::basic_string<char>;
