// Real threads of which exactly one runs at a time; who runs, and for how many basic blocks, is drawn.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
    namespace sched {
        struct Plan {
            int threads = 2;
            uint32_t skip = 0;      // basic blocks before the first drawn switch
            uint32_t mean = 40;     // mean quantum, in basic blocks, of a busy period
            uint32_t busy = 200;    // drawn quanta per busy period
            uint32_t calm = 20000;  // mean quantum between busy periods
            int stalled = -1;       // a thread that gets no turn ...
            uint32_t stall = 0;     // ... from its turn number `stallFrom`, for that many turns of others
            uint32_t stallFrom = 0;
        };
        struct Stats {
            uint64_t blocks = 0, preemptions = 0, waits = 0, stalls = 0, dropped = 0, insideInit = 0;
        };
        void init();  // once per process, before forking
        // Runs body(0) … body(n-1), each in a thread of its own; returns when all have ended.
        Stats run(const Plan& plan, void (*body)(int));
        // how the last run of this process or of a child of it switched
        std::string rendered();
        std::string race();  // the data race that was reported
        uint64_t hash();
        std::vector<uint64_t> states();
    }
}
