#ifdef SIM_STUB // this signature does not build with the library
#include "wapi.h"
ISut* sut_v2() { return nullptr; }
#else
#include "sut.h"
static sutns::Sut<sutns::V2> g_s;
ISut* sut_v2() { return &g_s; }
#endif
