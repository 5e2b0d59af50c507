// Force-included into the instrumented translation units: their static data goes into sections the
// simulator saves and restores, so that every simulated run starts as a fresh process would.
#pragma once
#pragma clang section bss = "sutbss" data = "sutdata"
