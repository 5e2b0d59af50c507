#ifdef SIM_STUB // this signature does not build with the library
#include "wapi.h"
ISut* sut_v4() { return nullptr; }
#else
#include "sut.h"
static sutns::Sut<sutns::V4> g_s;
ISut* sut_v4() { return &g_s; }
#endif
