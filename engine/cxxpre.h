// Forced first include of symbolic builds: std::string's members are
// instantiated, and so instrumented, here instead of being taken from libstdc++.
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
