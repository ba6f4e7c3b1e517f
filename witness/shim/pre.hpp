// first include of every stream witness: instantiate std::string in the witness, so that its code is interpreted
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
