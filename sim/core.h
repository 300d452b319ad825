// Core of the simulator: one source of choices per run, trace, verdicts, coverage counters.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

    // ---------------------------------------------------------------- shared with the parent process
    const uint32_t MAX_CHOICES = 1 << 18;
    const uint32_t MAX_TRACE = 1 << 17;
    const uint32_t MAX_COUNTERS = 512;
    const uint32_t MAX_STATES = 4096;

    enum Status { RUNNING = 0, OK = 1, VIOLATION = 2, HARNESS_ERROR = 3 };

    struct Counter {
        char name[56];
        uint64_t value;
    };

    struct Shared {
        volatile uint32_t status;
        uint32_t replaying;
        uint64_t seed;
        uint64_t hash;         // of the trace
        uint64_t evaluations;  // oracle evaluations
        uint64_t simTimeNs;    // simulated time covered
        uint32_t nchoices;
        uint32_t ncounters;
        uint32_t nstates;
        uint32_t traceLen;
        uint32_t traceTruncated;
        uint32_t nontrivial;
        char cls[96];
        char detail[8192];
        char report[16384];  // sanitizer report
        Counter counters[MAX_COUNTERS];
        uint64_t states[MAX_STATES];
        uint32_t choices[MAX_CHOICES];
        char trace[MAX_TRACE];
    };

    extern Shared* shared;

    // ---------------------------------------------------------------- choices
    // Uniform in [0, n). Everything random in a run goes through this function; when replaying beyond the
    // recorded choices it gives 0, which every caller treats as "simplest".
    uint32_t draw(uint32_t n);
    inline bool chance(uint32_t num, uint32_t den) {
        return draw(den) >= den - num;
    }
    inline int range(int lo, int hi) {
        return lo + (int)draw((uint32_t)(hi - lo + 1));
    }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[draw((uint32_t)v.size())];
    }
    // Draws give again what they gave from that mark on, and nothing is traced, until rereadDone().
    uint32_t mark();
    void reread(uint32_t from);
    void rereadDone();
    // weighted choice, index 0 is the simplest
    int weighted(std::initializer_list<int> weights);

    // ---------------------------------------------------------------- trace and verdicts
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // in the trace, not in the hash
    void hashMix(uint64_t x);
    void hashStr(const std::string& s);
    void hashNum(double d);
    uint64_t hashOf(const std::string& s);
    void state(uint64_t h);  // a state or interleaving reached, for the distinct count
    void count(const char* name, uint64_t n = 1);
    void evaluated(uint64_t n = 1);
    void nontrivial();

    struct Violation {};  // deliberately no std::exception
    // Records the violation (the first one counts) and ends the run.
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool hasFailed();
    bool thorough();

    // ---------------------------------------------------------------- scenarios
    typedef void (*Scenario)();
    struct Property {
        const char* id;
        Scenario run;
        Scenario warmup;  // in the parent, before forking
        Property* next;
        Property(const char* id, Scenario run, Scenario warmup = nullptr);
    };

    // Of a violating run, asked for in the parent process: more of its trace, its hash, and what the sanitizer reported.
    struct Extra {
        std::string (*trace)();
        std::string (*report)();
        uint64_t (*hash)();
        void (*reset)();  // before every run
    };
    extern Extra extra;

    // ---------------------------------------------------------------- memory (alloc.cpp)
    namespace mem {
        // Turns counting and tracking of allocations on for the calling scope.
        void warmup();                // once, in the parent process
        void begin();                 // reset the counters and start tracking
        void end();                   // stop tracking (live set is kept)
        uint64_t allocations();       // since begin()
        uint64_t live();              // tracked blocks that are still allocated
        uint64_t liveBytes();
        void forget();                // drop the live set
        void failAt(uint64_t n, bool persistent);  // fail the n-th (1-based) eligible allocation after this call
        void failNever();
        bool fired();                 // whether an injected failure happened since failAt
        bool firedInStream();
        std::string firedWhere();     // symbol names of the stack of the first failing allocation
        std::string liveSummary(int max = 4);
        void setStreamExempt(bool exempt);
        struct Off {  // allocations of the harness itself are neither tracked nor failed
            Off();
            ~Off();
        };
        struct On {  // within Off: a call of the library
            On();
            ~On();
        };
    }
}
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
