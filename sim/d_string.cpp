// std::string is precompiled in libstdc++; this instance is compiled with instrumentation, so that
// accesses to string contents are seen by the race and lifetime checks.
#include <string>
template class std::__cxx11::basic_string<char>;
