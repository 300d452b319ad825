// Memory under the control of the simulator: every operator new and delete of the process.
#include <dlfcn.h>
#include <execinfo.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <cxxabi.h>

#include <new>

#include "core.h"

namespace sim {
    namespace mem {
        static bool tracking = false;
        static uint64_t nAllocs = 0, nLive = 0, bytesLive = 0;
        static uint64_t failAfter = 0;  // 0: never
        static bool failPersistent = false, hasFired = false, streamExempt = true;
        static __thread int off = 0;
        static void* firedStack[48];
        static int firedDepth = 0;

        struct Entry {
            void* p;
            uint64_t seq;
            size_t size;
            void* stack[16];
        };
        static size_t CAP = 1 << 17;  // doubled when a quarter is taken by blocks that are alive
        static Entry* table = nullptr;
        static uint32_t* used = nullptr;  // slots that were ever taken since the last forget()
        static size_t nUsed = 0;
        static const uintptr_t TOMB = 1;

        static inline size_t slot(void* p) {
            uint64_t x = (uint64_t)p;
            x ^= x >> 33;
            x *= 0xff51afd7ed558ccdull;
            x ^= x >> 33;
            return (size_t)x & (CAP - 1);
        }
        static void ensure() {
            if (!table) {
                table = (Entry*)mmap(nullptr, CAP * sizeof(Entry), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                used = (uint32_t*)mmap(nullptr, CAP * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            }
        }
        static void frames(void** out, int n) {
            int got = backtrace(out, n);
            for (int i = got; i < n; ++i)
                out[i] = nullptr;
        }
        // drops the entries of released blocks
        static void sweep() {
            Entry* live = (Entry*)malloc((nLive + 1) * sizeof(Entry));
            size_t n = 0;
            for (size_t k = 0; k < nUsed; ++k) {
                Entry& e = table[used[k]];
                if (e.p && (uintptr_t)e.p != TOMB)
                    live[n++] = e;
                e.p = nullptr;
            }
            nUsed = 0;
            for (size_t k = 0; k < n; ++k) {
                size_t i = slot(live[k].p);
                while (table[i].p)
                    i = (i + 1) & (CAP - 1);
                table[i] = live[k];
                used[nUsed++] = (uint32_t)i;
            }
            free(live);
        }
        static void grow() {
            Entry* before = table;
            uint32_t* usedBefore = used;
            size_t nBefore = nUsed, capBefore = CAP;
            CAP *= 2;
            table = nullptr;
            ensure();
            nUsed = 0;
            for (size_t k = 0; k < nBefore; ++k) {
                Entry& e = before[usedBefore[k]];
                if (not e.p or (uintptr_t)e.p == TOMB)
                    continue;
                size_t i = slot(e.p);
                while (table[i].p)
                    i = (i + 1) & (CAP - 1);
                table[i] = e;
                used[nUsed++] = (uint32_t)i;
            }
            munmap(before, capBefore * sizeof(Entry));
            munmap(usedBefore, capBefore * sizeof(uint32_t));
        }
        static void insert(void* p, size_t size) {
            ensure();
            if (nLive > CAP / 4)
                grow();
            if (nUsed > CAP / 2)
                sweep();
            size_t i = slot(p);
            while (table[i].p && (uintptr_t)table[i].p != TOMB)
                i = (i + 1) & (CAP - 1);
            if (!table[i].p) {
                used[nUsed++] = (uint32_t)i;
            }
            table[i].p = p;
            table[i].seq = nAllocs;
            table[i].size = size;
            if (shared->replaying)
                frames(table[i].stack, 16);
            else
                table[i].stack[0] = nullptr;
            ++nLive;
            bytesLive += size;
        }
        static void remove(void* p) {
            if (!table || !nLive)
                return;
            size_t i = slot(p);
            while (table[i].p) {
                if (table[i].p == p) {
                    table[i].p = (void*)TOMB;
                    --nLive;
                    bytesLive -= table[i].size;
                    return;
                }
                i = (i + 1) & (CAP - 1);
            }
        }
        // names of code addresses, kept across the runs of a worker
        struct Sym {
            void* p;
            const char* name;
        };
        static const size_t SYMS = 1 << 16;
        static Sym* syms = nullptr;
        void warmup() {
            if (!syms)
                syms = (Sym*)mmap(nullptr, SYMS * sizeof(Sym), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        }
        static const char* symbol(void* p) {
            size_t i = slot(p) & (SYMS - 1);
            for (int probe = 0; syms && probe < 8; ++probe, i = (i + 1) & (SYMS - 1)) {
                if (syms[i].p == p)
                    return syms[i].name;
                if (!syms[i].p)
                    break;
            }
            Dl_info info;
            const char* name = dladdr(p, &info) && info.dli_sname ? info.dli_sname : "?";
            if (syms && !syms[i].p) {
                syms[i].name = name;
                syms[i].p = p;
            }
            return name;
        }
        // Allocations that the C++ stream classes perform inside a formatted operation: the standard library
        // itself turns their failure into a stream state instead of an exception.
        static bool insideStream(void** stack, int n) {
            for (int i = 0; i < n && stack[i]; ++i) {
                const char* s = symbol(stack[i]);
                if (strstr(s, "basic_stringbuf") || strstr(s, "ostream_insert") || strstr(s, "NSolsE") || strstr(s, "NSo9_M_insert")
                    || strstr(s, "St7getline") || strstr(s, "StrsIc") || strstr(s, "Stls") || strstr(s, "NSirs") || strstr(s, "basic_filebuf")
                    || strstr(s, "_M_extract") || strstr(s, "7num_get") || strstr(s, "7num_put"))
                    return true;
            }
            return false;
        }

        // The allocation with the given number fails, or the first eligible one after it.
        static __attribute__((noinline)) bool shouldFailNow() {
            ++off;
            void* st[48];
            frames(st, 48);
            bool exempt = streamExempt && insideStream(st, 48);
            --off;
            if (exempt)
                return false;
            if (!hasFired) {
                memcpy(firedStack, st, sizeof st);
                firedDepth = 48;
            }
            hasFired = true;
            if (!failPersistent)
                failAfter = 0;
            return true;
        }

        static inline bool shouldFail() {
            if (!failAfter)
                return false;
            if (failAfter > 1) {
                --failAfter;
                return false;
            }
            return shouldFailNow();
        }

        static void* get(size_t size, bool nothrow) {
            if (tracking && !off) {
                ++nAllocs;
                if (shouldFail()) {
                    count("fault.alloc");
                    if (nothrow)
                        return nullptr;
                    throw std::bad_alloc();
                }
            }
            void* p = malloc(size ? size : 1);
            if (!p) {
                if (nothrow)
                    return nullptr;
                throw std::bad_alloc();
            }
            if (tracking && !off)
                insert(p, size);
            return p;
        }
        static void put(void* p) {
            if (!p)
                return;
            if (nLive)
                remove(p);
            free(p);
        }

        void begin() {
            nAllocs = 0;
            tracking = true;
        }
        void end() {
            tracking = false;
        }
        uint64_t allocations() {
            return nAllocs;
        }
        uint64_t live() {
            return nLive;
        }
        uint64_t liveBytes() {
            return bytesLive;
        }
        void forget() {
            while (nUsed)
                table[used[--nUsed]].p = nullptr;
            nLive = 0;
            bytesLive = 0;
        }
        void failAt(uint64_t n, bool persistent) {
            failAfter = n;
            failPersistent = persistent;
            hasFired = false;
            firedDepth = 0;
        }
        void failNever() {
            failAfter = 0;
        }
        bool fired() {
            return hasFired;
        }
        void setStreamExempt(bool exempt) {
            streamExempt = exempt;
        }
        static std::string pretty(void* p) {
            const char* s = symbol(p);
            int st = 0;
            char* d = abi::__cxa_demangle(s, nullptr, nullptr, &st);
            std::string r = d ? d : s;
            free(d);
            if (r.size() > 120)
                r = r.substr(0, 117) + "...";
            return r;
        }
        static std::string describe(void** st, int n) {
            std::string r;
            int shown = 0;
            for (int i = 0; i < n && st[i] && shown < 8; ++i) {
                std::string s = pretty(st[i]);
                if (s.find("fuzzylite::") == std::string::npos || s.find("std::") == 0)
                    continue;
                size_t q = s.find('(');
                if (q != std::string::npos)
                    s = s.substr(0, q);
                r += (r.empty() ? "" : " < ") + s;
                ++shown;
            }
            return r.empty() ? "?" : r;
        }
        std::string firedWhere() {
            Off o;
            return describe(firedStack, firedDepth);
        }
        bool firedInStream() {
            return insideStream(firedStack, firedDepth);
        }
        std::string liveSummary(int max) {
            Off o;
            std::string r;
            for (size_t k = 0, i; k < nUsed && max > 0; ++k)
                if (i = used[k], table[i].p && (uintptr_t)table[i].p != TOMB) {
                    r += "[" + std::to_string(table[i].size) + " bytes from " + describe(table[i].stack, 16) + "] ";
                    --max;
                }
            return r;
        }
        Off::Off() {
            ++off;
        }
        Off::~Off() {
            --off;
        }
        On::On() {
            --off;
        }
        On::~On() {
            ++off;
        }
    }
}

#ifdef FLAVOUR_TSAN
// The sanitizer's runtime defines these operators itself.
extern "C" {
void* __wrap__Znwm(size_t n) {
    return sim::mem::get(n, false);
}
void* __wrap__Znam(size_t n) {
    return sim::mem::get(n, false);
}
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) {
    return sim::mem::get(n, true);
}
void* __wrap__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t&) {
    return sim::mem::get(n, true);
}
void __wrap__ZdlPv(void* p) {
    sim::mem::put(p);
}
void __wrap__ZdaPv(void* p) {
    sim::mem::put(p);
}
void __wrap__ZdlPvm(void* p, size_t) {
    sim::mem::put(p);
}
void __wrap__ZdaPvm(void* p, size_t) {
    sim::mem::put(p);
}
void __wrap__ZdlPvRKSt9nothrow_t(void* p, const std::nothrow_t&) {
    sim::mem::put(p);
}
void __wrap__ZdaPvRKSt9nothrow_t(void* p, const std::nothrow_t&) {
    sim::mem::put(p);
}
}
#else
void* operator new(size_t n) {
    return sim::mem::get(n, false);
}
void* operator new[](size_t n) {
    return sim::mem::get(n, false);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
    return sim::mem::get(n, true);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
    return sim::mem::get(n, true);
}
void operator delete(void* p) noexcept {
    sim::mem::put(p);
}
void operator delete[](void* p) noexcept {
    sim::mem::put(p);
}
void operator delete(void* p, size_t) noexcept {
    sim::mem::put(p);
}
void operator delete[](void* p, size_t) noexcept {
    sim::mem::put(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
    sim::mem::put(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
    sim::mem::put(p);
}
#endif
