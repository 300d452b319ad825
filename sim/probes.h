// "User-supplied components": the library's own terms, norms, hedges, defuzzifiers and activation methods, each of whose
// evaluations is a point at which a fault can be injected. Registered in the factories under the library's names.
#pragma once
#include <stdexcept>
#include "fuzzylite/Headers.h"

namespace probes {
    struct Injected : std::runtime_error {
        Injected() : std::runtime_error("injected failure") {}
    };
    extern long seen;      // evaluations since reset
    extern long failAt;    // the evaluation that fails (1-based), 0 for none
    extern bool fired;
    extern const char* where;
    extern void (*hook)();  // called at every point (preemption in threaded simulations)
    void point(const char* kind);
    void install();  // into FactoryManager
}
