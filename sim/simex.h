// The exceptions simulated user code throws: the same identity carried by objects of several types,
// as real user code throws anything from an int-like tag to standard library exceptions.
#pragma once
#include <exception>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include "simcore.h"

struct SimEx {
    int id;
};
template<class B> struct SimExOf : B, SimEx {
    template<class... A> explicit SimExOf(int i, A&&... a) : B(static_cast<A&&>(a)...), SimEx{i} {}
};
struct SimExInt { int id; };          // unrelated to SimEx: only catch (...) and an exact handler see it
#ifdef SIMEX_LIB
#include <signals.hpp>
#endif
[[noreturn]] static inline void sim_throw(int id, int kind)
{
    sim::Harness h;                   // what the exception itself allocates is not the library's
    switch (kind & 15) {
    case 1: throw SimExOf<std::exception>(id);
    case 2: throw SimExOf<std::runtime_error>(id, "simulated failure in user code");
    case 3: throw SimExOf<std::bad_alloc>(id);
    case 4: throw SimExOf<std::bad_weak_ptr>(id);
    case 5: throw SimExOf<std::logic_error>(id, "simulated misuse in user code");
    case 6: throw SimExInt{id};
#ifdef SIMEX_LIB
    case 7: throw SimExOf<sig::not_comparable_exception>(id);
#endif
    case 8: throw SimExOf<std::system_error>(id, std::make_error_code(std::errc::resource_deadlock_would_occur));
    case 9: throw SimExOf<std::out_of_range>(id, "simulated index in user code");
    case 10: throw SimExOf<std::length_error>(id, "simulated size in user code");
    case 11: throw SimExOf<std::bad_function_call>(id);
    case 12: throw SimExOf<std::bad_array_new_length>(id);
    case 13: throw SimExOf<std::bad_cast>(id);
#ifdef SIMEX_LIB
    case 14: throw SimExOf<opt::bad_optional_access>(id, "simulated access in user code");
#endif
    default: throw SimEx{id};
    }
}
#define SIM_CATCH(assign) catch (const SimEx& e) { assign; } catch (const SimExInt& e) { assign; }
