// symbolic builds of stream code: instantiate the stream templates in the translation unit instead of using the compiled ones
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
