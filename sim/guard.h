// Runs an operation of the library and says how it ended.
#pragma once
#include <exception>
#include <new>
#include <string>

#include "core.h"
#include "probes.h"

namespace sim {
    struct Ended {
        bool threw = false, oom = false, injected = false;
        std::string what;
        bool ok() const {
            return not threw;
        }
    };
    template <class F>
    Ended guarded(F f) {
        Ended e;
        try {
            f();
        } catch (probes::Injected&) {
            mem::Off off;
            e.threw = e.injected = true;
            e.what = "injected exception";
        } catch (std::bad_alloc&) {
            mem::Off off;
            e.threw = e.oom = true;
            e.what = "out of memory";
        } catch (std::exception& x) {
            mem::Off off;
            e.threw = true;
            e.what = x.what();
        }
        mem::failNever();
        return e;
    }
}
