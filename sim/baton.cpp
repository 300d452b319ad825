// This file is compiled without instrumentation: the hand-over between threads must be invisible to ThreadSanitizer,
// otherwise the order that the simulator imposes would look like synchronisation made by the library.
#include "baton.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cxxabi.h>

#include "core.h"

extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
}

namespace sim {
    namespace sched {
        static const int MAXT = 8;
        static const uint32_t MAXS = 1 << 15;  // recorded switches
        struct Switch {
            uint8_t from, to, why, init;
            uint32_t block;
            void *at, *resumed;
        };
        struct Access {
            int thread, size;
            bool write, atomic;
            void* stack[12];
        };
        struct Log {
            uint32_t n, naccesses;
            Access accesses[4];
            uint64_t hash;
            Switch s[MAXS];
        };
        static Log* log_ = nullptr;  // shared with the parent process
        struct Thread {
            std::atomic<int> go;
            bool started, done, waiting;
            void* at;
            int initDepth;  // static initialisations in progress
            pthread_t id;
        };
        static Thread T[MAXT];
        static std::atomic<int> mainGo(0);
        static bool active = false;
        static __thread int self = -1;
        static int64_t quantum = 0;
        static bool inHook = false;
        static Plan plan;
        static Stats st;
        static uint32_t left = 0;  // drawn quanta of this busy period
        static uint32_t turn = 0, drawn = 0;
        static uint64_t before = 0;
        static void (*body_)(int) = nullptr;
        static pthread_key_t key;
        static const uint32_t MAX_DRAWN = 12000;
        static const int64_t LONG = 1 << 20;

        static void futexWait(std::atomic<int>& a) {
            while (a.load(std::memory_order_acquire) == 0)
                syscall(SYS_futex, (int*)&a, FUTEX_WAIT, 0, nullptr, nullptr, 0);
            a.store(0, std::memory_order_relaxed);
        }
        static void futexWake(std::atomic<int>& a) {
            a.store(1, std::memory_order_release);
            syscall(SYS_futex, (int*)&a, FUTEX_WAKE, 1, nullptr, nullptr, 0);
        }

        static int64_t nextQuantum() {
            if (drawn > MAX_DRAWN)
                return LONG;
            ++drawn;
            uint32_t mean = left ? plan.mean : plan.calm;
            if (left)
                --left;
            else
                left = plan.busy;
            return 2 * mean - draw(2 * mean);
        }
        // a thread other than `me` if possible; -1 if none can go on
        static int choose(int me, bool meToo) {
            int c[MAXT], n = 0;
            if (meToo)
                c[n++] = me;
            for (int k = 1; k < plan.threads; ++k) {
                int i = (me + k) % plan.threads;
                if (T[i].done or T[i].waiting)
                    continue;
                c[n++] = i;
            }
            if (n == 0)
                return -1;
            ++turn;
            bool stalling = plan.stalled >= 0 and turn >= plan.stallFrom and turn < plan.stallFrom + plan.stall;
            if (stalling and n > 1) {
                int m = 0;
                for (int i = 0; i < n; ++i)
                    if (c[i] != plan.stalled)
                        c[m++] = c[i];
                if (m < n)
                    ++st.stalls;
                n = m;
            }
            return c[n > 1 and drawn <= MAX_DRAWN ? draw(n) : n > 1 ? turn % n : 0];
        }
        enum Why { PREEMPTED, WAITING, ENDED, STARTED };
        static void record(int from, int to, Why why) {
            if (log_->n < MAXS) {
                Switch& s = log_->s[log_->n++];
                s.from = from;
                s.to = to;
                s.why = why;
                s.init = from < MAXT ? T[from].initDepth : 0;
                s.block = (uint32_t)st.blocks;
                s.at = from < MAXT ? T[from].at : nullptr;
                s.resumed = T[to].at;
            } else
                ++st.dropped;
        }
        static void handOver(int from, int to, Why why) {
            record(from, to, why);
            before = quantum;
            inHook = false;
            futexWake(T[to].go);
            futexWait(T[from].go);
            inHook = false;
        }
        static __attribute__((noinline)) void preempt(void* at) {
            inHook = true;
            int me = self;
            st.blocks += before;
            T[me].at = at;
            int to = choose(me, true);
            quantum = nextQuantum();
            before = quantum;
            if (to != me) {
                ++st.preemptions;
                if (T[me].initDepth)
                    ++st.insideInit;
                handOver(me, to, PREEMPTED);
            }
            inHook = false;
        }
        // the running thread cannot go on until another one has done something
        static void wait() {
            inHook = true;
            int me = self;
            ++st.waits;
            T[me].waiting = true;
            int to = choose(me, false);
            if (to < 0)
                fail("C03:deadlock", "all threads wait for each other");
            st.blocks += before - quantum;
            quantum = nextQuantum();
            handOver(me, to, WAITING);
        }
        static void progress() {
            for (int i = 0; i < plan.threads; ++i)
                T[i].waiting = false;
        }
        static bool simulated() {
            return active and self >= 0 and not inHook;
        }

        static void ended(void* v) {
            int me = (int)(intptr_t)v - 1;
            inHook = true;
            T[me].done = true;
            self = -1;
            futexWake(mainGo);
        }
        static void* start(void* arg) {
            int me = (int)(intptr_t)arg;
            pthread_setspecific(key, (void*)(intptr_t)(me + 1));
            T[me].started = true;
            futexWake(mainGo);
            futexWait(T[me].go);
            self = me;
            inHook = false;
            body_(me);
            return nullptr;
        }

        void init() {
            if (not log_)
                log_ = (Log*)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            log_->n = log_->naccesses = 0;
        }

        Stats run(const Plan& p, void (*body)(int)) {
            plan = p;
            st = Stats();
            body_ = body;
            log_->n = log_->naccesses = 0;
            pthread_key_create(&key, ended);
            inHook = true;
            left = plan.busy;
            for (int i = 0; i < plan.threads; ++i) {
                pthread_create(&T[i].id, nullptr, start, (void*)(intptr_t)i);
                futexWait(mainGo);
            }
            active = true;
            int at = (int)draw(plan.threads), running = plan.threads;
            quantum = plan.skip ? plan.skip : nextQuantum();
            before = quantum;
            record(MAXT, at, STARTED);
            futexWake(T[at].go);
            while (true) {
                futexWait(mainGo);
                st.blocks += before - quantum;
                // the thread really ends before another one goes on
                pthread_join(T[at = [] {
                    for (int i = 0; i < plan.threads; ++i)
                        if (T[i].done and T[i].id) 
                            return i;
                    return 0;
                }()].id, nullptr);
                T[at].id = 0;
                T[at].at = nullptr;
                if (--running == 0)
                    break;
                progress();
                int to = choose(at, false);
                if (to < 0)
                    fail("C03:deadlock", "all remaining threads wait for each other");
                quantum = nextQuantum();
                before = quantum;
                record(at, to, ENDED);
                futexWake(T[to].go);
            }
            active = false;
            return st;
        }

        static std::string name(void* p) {
            Dl_info info;
            if (not p or not dladdr(p, &info) or not info.dli_sname)
                return p ? "?" : "the start";
            int status = 0;
            char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
            std::string r = d ? d : info.dli_sname;
            free(d);
            size_t q = r.find('(');
            if (q != std::string::npos and q > 0)
                r = r.substr(0, q);
            if (r.size() > 90)
                r = r.substr(0, 87) + "...";
            return r;
        }
        std::string rendered() {
            std::string r;
            if (not log_)
                return r;
            for (uint32_t i = 0; i < log_->n and r.size() < 60000; ++i) {
                const Switch& s = log_->s[i];
                if (s.why == STARTED)
                    r += "thread " + std::to_string(s.to) + " starts";
                else
                    r += "block " + std::to_string(s.block) + ": thread " + std::to_string(s.from)
                         + (s.why == ENDED     ? " ended"
                            : s.why == WAITING ? " waits in "
                            : s.init           ? " preempted within a static initialisation in "
                                               : " preempted in ")
                         + (s.why == ENDED ? "" : name(s.at)) + ", thread " + std::to_string(s.to) + " goes on from " + name(s.resumed);
                r += "\n";
            }
            if (log_->n >= MAXS)
                r += "(further switches not recorded)\n";
            return r;
        }
        std::string race() {
            std::string r;
            for (uint32_t i = 0; log_ and i < log_->naccesses; ++i) {
                const Access& a = log_->accesses[i];
                r += std::string(i ? "; and " : "unsynchronised accesses to the same memory: ") + (a.atomic ? "atomic " : "")
                     + (a.write ? "write" : "read") + " of " + std::to_string(a.size) + " bytes in ";
                int shown = 0;
                for (int k = 0; k < 12 and a.stack[k] and shown < 7; ++k) {
                    std::string s = name((char*)a.stack[k] - 1);
                    r += (shown++ ? " < " : "") + s;
                }
            }
            return r;
        }
        static uint64_t mix(uint64_t h, uint64_t x) {
            h = (h ^ x) * 0x9e3779b97f4a7c15ull;
            return h ^ (h >> 29);
        }
        uint64_t hash() {
            uint64_t h = 1;
            for (uint32_t i = 0; log_ and i < log_->n; ++i) {
                const Switch& s = log_->s[i];
                h = mix(mix(mix(h, (uint64_t)s.at), s.block), s.from * 16 + s.to);
            }
            return h;
        }
        std::vector<uint64_t> states() {
            std::vector<uint64_t> r;
            for (uint32_t i = 0; log_ and i < log_->n; ++i) {
                const Switch& s = log_->s[i];
                if (s.why == PREEMPTED)
                    r.push_back(mix((uint64_t)s.at, (uint64_t)s.resumed));
            }
            return r;
        }

        // ------------------------------------------------------------ static initialisation
        // The initialisations in progress are kept here, so that a thread can be preempted within one.
        static uint64_t* inProgress[64];
        static int nInProgress = 0;
        static bool isInProgress(uint64_t* g) {
            for (int i = 0; i < nInProgress; ++i)
                if (inProgress[i] == g)
                    return true;
            return false;
        }
        static void enterInit(uint64_t* g) {
            if (nInProgress < 64)
                inProgress[nInProgress++] = g;
            if (self >= 0)
                ++T[self].initDepth;
        }
        static void leaveInit(uint64_t* g) {
            for (int i = 0; i < nInProgress; ++i)
                if (inProgress[i] == g) {
                    inProgress[i] = inProgress[--nInProgress];
                    break;
                }
            if (self >= 0)
                --T[self].initDepth;
            progress();
        }
    }
}

using namespace sim::sched;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    for (uint32_t* p = start; p < stop; ++p)
        *p = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*) {
    if (not active or self < 0 or inHook)
        return;
    if (--quantum > 0)
        return;
    preempt(__builtin_return_address(0));
}

int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (not simulated())
        return __real___cxa_guard_acquire(g);
    void* at = __builtin_return_address(0);
    while (isInProgress(g)) {
        T[self].at = at;
        wait();
    }
    int r = __real___cxa_guard_acquire(g);
    if (r) {
        enterInit(g);
        __tsan_acquire(g);
    }
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g) {
    __real___cxa_guard_release(g);
    if (simulated())
        leaveInit(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    __tsan_release(g);  // the sanitizer does not know that an initialisation that failed precedes the next attempt
    __real___cxa_guard_abort(g);
    if (simulated())
        leaveInit(g);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (not simulated())
        return __real_pthread_once(o, f);
    void* at = __builtin_return_address(0);
    while (isInProgress((uint64_t*)o)) {
        T[self].at = at;
        wait();
    }
    enterInit((uint64_t*)o);
    int r;
    try {
        r = __real_pthread_once(o, f);
    } catch (...) {
        leaveInit((uint64_t*)o);
        throw;
    }
    leaveInit((uint64_t*)o);
    return r;
}

// ---------------------------------------------------------------- locks: blocked threads give way
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    if (not simulated())
        return __real_pthread_mutex_lock(m);
    void* at = __builtin_return_address(0);
    int r;
    while ((r = __real_pthread_mutex_trylock(m)) == EBUSY) {
        T[self].at = at;
        wait();
    }
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock(m);
    if (simulated())
        progress();
    return r;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (not simulated())
        return __real_pthread_rwlock_rdlock(m);
    int r;
    while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY)
        wait();
    return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (not simulated())
        return __real_pthread_rwlock_wrlock(m);
    int r;
    while ((r = pthread_rwlock_trywrlock(m)) == EBUSY)
        wait();
    return r;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    int r = __real_pthread_rwlock_unlock(m);
    if (simulated())
        progress();
    return r;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (not simulated())
        return __real_pthread_cond_wait(c, m);
    __wrap_pthread_mutex_unlock(m);
    wait();  // as if woken up spuriously
    return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (simulated())
        progress();
    return __real_pthread_cond_signal(c);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (simulated())
        progress();
    return __real_pthread_cond_broadcast(c);
}

// ---------------------------------------------------------------- ThreadSanitizer
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count,
                           int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace,
                          unsigned long trace_size);
void __tsan_on_report(void* report) {
    if (not log_)
        return;
    const char* description = nullptr;
    int n[7] = {};
    void* sleep[1];
    __tsan_get_report_data(report, &description, n, n + 1, n + 2, n + 3, n + 4, n + 5, n + 6, sleep, 1);
    for (int i = 0; i < n[2] and i < 4; ++i) {
        Access& a = log_->accesses[i];
        memset(&a, 0, sizeof a);
        void* address;
        int write = 0, atomic = 0;
        __tsan_get_report_mop(report, i, &a.thread, &address, &a.size, &write, &atomic, a.stack, 12);
        a.write = write;
        a.atomic = atomic;
        log_->naccesses = i + 1;
    }
}
const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0:report_signal_unsafe=0:symbolize=0:report_destroy_locked=0:"
           "history_size=2:atexit_sleep_ms=0:detect_deadlocks=0";
}
}
