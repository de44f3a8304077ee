// forced include of every engine compilation: instantiate all library templates in this module
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstdint>
