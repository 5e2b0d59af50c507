#ifdef SIM_STUB // this signature does not build with the library
#include "wapi.h"
ISut* sut_v3() { return nullptr; }
#else
#include "sut.h"
static sutns::Sut<sutns::V3> g_s;
ISut* sut_v3() { return &g_s; }
#endif
