// included first when the library is compiled with clang for the symbolic executor; keeps the sources on
// the path they take under gcc (the library refuses to build when it sees __clang__)
#ifdef __cplusplus
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <climits>
#include <limits>
#include <algorithm>
#include <new>
#include <type_traits>
#include <utility>
#include <memory>
#endif
#undef __clang__
