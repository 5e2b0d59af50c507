#ifdef SIM_STUB // this signature does not build with the library
#include "wapi.h"
ISut* sut_v5() { return nullptr; }
#else
#include "sut.h"
static sutns::Sut<sutns::V5> g_s;
ISut* sut_v5() { return &g_s; }
#endif
