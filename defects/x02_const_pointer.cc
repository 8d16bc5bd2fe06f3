// Before the fix this compiles and prints "true"; a raw pointer that is not a C string must be rejected.
#include <type_traits>
#include "rst/strings/arg.h"
int main() { return std::is_constructible_v<rst::internal::Arg, const int*> ? 1 : 0; }
