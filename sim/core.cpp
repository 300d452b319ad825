#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);

namespace sim {
    Shared* shared = nullptr;
    Extra extra = {nullptr, nullptr, nullptr, nullptr};
    static Property* properties = nullptr;
    static bool isThorough = false;
    bool thorough() {
        return isThorough;
    }

    Property::Property(const char* id, Scenario run, Scenario warmup) : id(id), run(run), warmup(warmup), next(properties) {
        properties = this;
    }

    // ------------------------------------------------------------ PRNG: xoshiro256**
    static uint64_t S[4];
    static inline uint64_t rotl(uint64_t x, int k) {
        return (x << k) | (x >> (64 - k));
    }
    static uint64_t splitmix(uint64_t& x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    static void seedRng(uint64_t seed) {
        for (int i = 0; i < 4; ++i)
            S[i] = splitmix(seed);
    }
    static uint64_t nextRandom() {
        const uint64_t result = rotl(S[1] * 5, 7) * 9;
        const uint64_t t = S[1] << 17;
        S[2] ^= S[0];
        S[3] ^= S[1];
        S[1] ^= S[2];
        S[0] ^= S[3];
        S[2] ^= t;
        S[3] = rotl(S[3], 45);
        return result;
    }

    static const std::vector<uint32_t>* replayChoices = nullptr;

    // going through the same choices once more
    static uint32_t rereadAt = 0, rereadEnd = 0;
    static bool rereading = false;

    uint32_t mark() {
        return shared->nchoices;
    }
    void reread(uint32_t from) {
        rereading = true;
        rereadAt = from;
        rereadEnd = shared->nchoices;
    }
    void rereadDone() {
        rereading = false;
    }

    uint32_t draw(uint32_t n) {
        if (n <= 1)
            return 0;
        if (rereading)
            return rereadAt < rereadEnd ? shared->choices[rereadAt++] % n : 0;
        uint32_t index = shared->nchoices;
        uint32_t value;
        if (shared->replaying)
            value = index < replayChoices->size() ? (*replayChoices)[index] % n : 0;
        else
            value = (uint32_t)(nextRandom() >> 11) % n;
        if (index < MAX_CHOICES)
            shared->choices[index] = value;
        else
            harnessError("too many choices");
        shared->nchoices = index + 1;
        return value;
    }

    int weighted(std::initializer_list<int> weights) {
        int total = 0;
        for (int w : weights)
            total += w;
        int x = (int)draw((uint32_t)total), i = 0;
        for (int w : weights) {
            if (x < w)
                return i;
            x -= w;
            ++i;
        }
        return 0;
    }

    // ------------------------------------------------------------ trace
    void hashMix(uint64_t x) {
        uint64_t h = shared->hash;
        h ^= x;
        h *= 0x100000001b3ull;
        h ^= h >> 29;
        shared->hash = h;
    }
    uint64_t hashOf(const std::string& s) {
        uint64_t h = 0xcbf29ce484222325ull;
        for (size_t i = 0; i < s.size(); ++i) {
            h ^= (unsigned char)s[i];
            h *= 0x100000001b3ull;
        }
        h ^= h >> 31;
        return h;
    }
    void hashStr(const std::string& s) {
        hashMix(hashOf(s));
    }
    void hashNum(double d) {
        uint64_t u;
        if (d != d)
            u = 0x7ff8ull;
        else {
            memcpy(&u, &d, 8);
        }
        hashMix(u);
    }
    static void append(const char* buf) {
        size_t n = strlen(buf);
        if (shared->traceLen + n + 2 < MAX_TRACE) {
            memcpy(shared->trace + shared->traceLen, buf, n);
            shared->traceLen += n;
            shared->trace[shared->traceLen++] = '\n';
            shared->trace[shared->traceLen] = 0;
        } else
            shared->traceTruncated = 1;
    }
    void trace(const char* fmt, ...) {
        if (rereading)
            return;
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        for (const char* p = buf; *p; ++p)
            hashMix((unsigned char)*p);
        append(buf);
    }
    void note(const char* fmt, ...) {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        append(buf);
    }
    void state(uint64_t h) {
        if (shared->nstates < MAX_STATES)
            shared->states[shared->nstates++] = h;
    }
    void count(const char* name, uint64_t n) {
        for (uint32_t i = 0; i < shared->ncounters; ++i)
            if (strcmp(shared->counters[i].name, name) == 0) {
                shared->counters[i].value += n;
                return;
            }
        if (shared->ncounters < MAX_COUNTERS) {
            Counter& c = shared->counters[shared->ncounters++];
            snprintf(c.name, sizeof c.name, "%s", name);
            c.value = n;
        }
    }
    void evaluated(uint64_t n) {
        shared->evaluations += n;
    }
    void nontrivial() {
        shared->nontrivial = 1;
    }
    bool hasFailed() {
        return shared->status == VIOLATION;
    }
    void fail(const char* cls, const char* fmt, ...) {
        mem::failNever();
        if (shared->status == RUNNING) {
            snprintf(shared->cls, sizeof shared->cls, "%s", cls);
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(shared->detail, sizeof shared->detail, fmt, ap);
            va_end(ap);
            note("VIOLATION %s: %s", cls, shared->detail);
            hashStr(cls);
            shared->status = VIOLATION;
        }
        _exit(0);
    }
    void harnessError(const char* fmt, ...) {
        mem::failNever();
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(shared->detail, sizeof shared->detail, fmt, ap);
        va_end(ap);
        snprintf(shared->cls, sizeof shared->cls, "harness");
        shared->status = HARNESS_ERROR;
        _exit(0);
    }
}

// ---------------------------------------------------------------- sanitizer reports
extern "C" __attribute__((weak)) void __asan_set_error_report_callback(void (*)(const char*));
#ifdef FLAVOUR_ASAN
// The C++ runtime is linked statically, which AddressSanitizer cannot intercept: exceptions thrown by the standard library
// itself would leave the marks of the frames they leave.
extern "C" void __asan_handle_no_return();
extern "C" [[noreturn]] void __real___cxa_throw(void*, void*, void (*)(void*));
extern "C" [[noreturn]] void __real___cxa_rethrow();
extern "C" [[noreturn]] void __wrap___cxa_throw(void* object, void* type, void (*destroy)(void*)) {
    __asan_handle_no_return();
    __real___cxa_throw(object, type, destroy);
}
extern "C" [[noreturn]] void __wrap___cxa_rethrow() {
    __asan_handle_no_return();
    __real___cxa_rethrow();
}
#endif
static void onAsanReport(const char* text) {
    if (sim::shared)
        snprintf(sim::shared->report, sizeof sim::shared->report, "%s", text);
}

namespace sim {
    // ------------------------------------------------------------ one run in a child process
    struct Outcome {
        Status status;
        std::string cls, detail;
        uint64_t hash;
        std::vector<uint32_t> choices;
        std::string trace;
        uint64_t evaluations;
    };

    static const char* sanitizerKind(const char* report, std::string& out) {
        const char* p = strstr(report, "AddressSanitizer: ");
        if (p) {
            p += 18;
            const char* e = p;
            while (*e && *e != ' ' && *e != '\n')
                ++e;
            out.assign(p, e);
            return out.c_str();
        }
        p = strstr(report, "ThreadSanitizer: ");
        if (p) {
            p += 17;
            out.clear();
            while (*p && *p != '(' && *p != '\n')
                out += *p++;
            while (!out.empty() && out.back() == ' ')
                out.pop_back();
            std::replace(out.begin(), out.end(), ' ', '-');
            return out.c_str();
        }
        return nullptr;
    }

    static FILE* childErr = nullptr;
    static int cpuLimit = 30;

    static Outcome execute(Property* p, uint64_t seed, const std::vector<uint32_t>* choices) {
        memset((void*)shared, 0, offsetof(Shared, states));
        shared->trace[0] = 0;
        shared->hash = 0xcbf29ce484222325ull;
        shared->seed = seed;
        shared->replaying = choices != nullptr;
        replayChoices = choices;
        if (extra.reset)
            extra.reset();
        fflush(stdout);
        fflush(stderr);
        if (childErr) {
            rewind(childErr);
            if (ftruncate(fileno(childErr), 0)) {}
        }
        pid_t pid = fork();
        if (pid < 0) {
            perror("fork");
            exit(3);
        }
        if (pid == 0) {
            signal(SIGPIPE, SIG_DFL);
            struct rlimit rl = {(rlim_t)cpuLimit, (rlim_t)cpuLimit + 5};
            setrlimit(RLIMIT_CPU, &rl);
            alarm((unsigned)cpuLimit * 8);
            struct rlimit core = {0, 0};
            setrlimit(RLIMIT_CORE, &core);
            if (childErr) {
                dup2(fileno(childErr), 2);
                dup2(fileno(childErr), 1);
            }
            seedRng(seed);
            if (__asan_set_error_report_callback)
                __asan_set_error_report_callback(onAsanReport);
            p->run();
            if (shared->status == RUNNING)
                shared->status = OK;
            _exit(0);
        }
        int st = 0;
        struct rusage ru;
        while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
        Outcome o;
        o.status = (Status)shared->status;
        o.cls = shared->cls;
        o.detail = shared->detail;
        o.hash = shared->hash;
        o.trace = shared->trace;
        o.evaluations = shared->evaluations;
        o.choices.assign(shared->choices, shared->choices + std::min(shared->nchoices, MAX_CHOICES));
        if (o.status == RUNNING || (WIFSIGNALED(st)) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            if (o.status != VIOLATION && o.status != HARNESS_ERROR) {
                std::string kind;
                std::string err;
                if (childErr) {
                    rewind(childErr);
                    char buf[8192];
                    size_t n;
                    while ((n = fread(buf, 1, sizeof buf, childErr)) > 0 && err.size() < 12000000)
                        err.append(buf, n);
                    size_t at = err.find("WARNING: ThreadSanitizer");
                    if (at != std::string::npos)
                        err.erase(0, at);
                    err = err.substr(0, 12000);
                }
                std::string report = shared->report[0] ? std::string(shared->report) : err;
                o.status = VIOLATION;
                if (sanitizerKind(report.c_str(), kind))
                    o.cls = "sanitizer:" + kind;
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec < cpuLimit - 1) {
                    o.status = HARNESS_ERROR;  // ended from outside
                    o.detail = "the run was killed from outside";
                } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM))
                    o.cls = "hang";
                else if (WIFSIGNALED(st))
                    o.cls = "crash:" + std::to_string(WTERMSIG(st));
                else
                    o.cls = "abnormal-exit:" + std::to_string(WEXITSTATUS(st));
                if (o.status != HARNESS_ERROR) {
                    o.detail = report.substr(0, 6000);
                    std::string more = extra.report ? extra.report() : "";
                    if (!more.empty())
                        o.detail = more;
                }
            }
        }
        if (o.status == VIOLATION) {
            if (extra.hash)
                o.hash ^= extra.hash();
            if (extra.trace)
                o.trace += extra.trace();
        }
        return o;
    }

    static uint64_t runSeed(uint64_t seed, const char* id, uint64_t index) {
        uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ hashOf(id) ^ (index * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull);
        return splitmix(x);
    }

    static std::string jsonStr(const std::string& s) {
        std::string r = "\"";
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c >= 127) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else
                r += c;
        }
        return r + "\"";
    }

    static void writeReplay(const std::string& path, const Property* p, uint64_t seed, uint64_t index, uint64_t rseed, const Outcome& o) {
        std::ofstream f(path.c_str());
        f << "{\n \"property\": " << jsonStr(p->id) << ",\n \"seed\": " << seed << ",\n \"run\": " << index
          << ",\n \"run_seed\": \"" << rseed << "\",\n \"thorough\": " << (isThorough ? "true" : "false")
          << ",\n \"class\": " << jsonStr(o.cls) << ",\n \"hash\": \"" << o.hash << "\",\n \"detail\": " << jsonStr(o.detail)
          << ",\n \"choices\": [";
        for (size_t i = 0; i < o.choices.size(); ++i)
            f << (i ? "," : "") << o.choices[i];
        f << "],\n \"trace\": [";
        std::istringstream is(o.trace);
        std::string line;
        bool first = true;
        while (std::getline(is, line)) {
            f << (first ? "\n  " : ",\n  ") << jsonStr(line);
            first = false;
        }
        f << "]\n}\n";
    }

    static double now() {
        struct timespec ts;
        __real_clock_gettime(CLOCK_MONOTONIC, &ts);
        return ts.tv_sec + ts.tv_nsec * 1e-9;
    }

    static bool same(const Outcome& a, const Outcome& b) {
        return a.status == b.status && a.cls == b.cls;
    }

    // Chunk-wise deletion and lowering of choices while the same violation class persists.
    static Outcome shrink(Property* p, uint64_t rseed, Outcome best, double budget) {
        double deadline = now() + budget;
        auto trim = [](std::vector<uint32_t>& c) {
            while (!c.empty() && c.back() == 0)
                c.pop_back();
        };
        auto attempt = [&](std::vector<uint32_t> c) -> bool {
            if (now() > deadline)
                return false;
            trim(c);
            if (c.size() > best.choices.size() || c == best.choices)
                return false;
            Outcome o = execute(p, rseed, &c);
            if (!same(o, best))
                return false;
            trim(o.choices);
            // shortlex order
            if (o.choices.size() < best.choices.size()
                || (o.choices.size() == best.choices.size() && o.choices < best.choices)) {
                best = o;
                return true;
            }
            return false;
        };
        trim(best.choices);
        bool improved = true;
        while (improved && now() < deadline) {
            improved = false;
            for (size_t chunk = std::max<size_t>(1, best.choices.size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < best.choices.size() && now() < deadline;) {
                    std::vector<uint32_t> c = best.choices;
                    size_t e = std::min(c.size(), i + chunk);
                    c.erase(c.begin() + i, c.begin() + e);
                    if (attempt(c)) {
                        improved = true;
                        continue;
                    }
                    c = best.choices;
                    bool any = false;
                    for (size_t j = i; j < std::min(c.size(), i + chunk); ++j) {
                        any = any || c[j];
                        c[j] = 0;
                    }
                    if (any && attempt(c))
                        improved = true;
                    i += chunk;
                }
                if (chunk == 1)
                    break;
            }
            for (size_t i = 0; i < best.choices.size() && now() < deadline; ++i) {
                uint32_t lo = 0, hi = best.choices[i];
                while (lo < hi && now() < deadline) {
                    uint32_t mid = lo + (hi - lo) / 2;
                    std::vector<uint32_t> c = best.choices;
                    if (i >= c.size())
                        break;
                    c[i] = mid;
                    if (attempt(c)) {
                        improved = true;
                        if (i >= best.choices.size())
                            break;
                        hi = best.choices[i];
                    } else
                        lo = mid + 1;
                }
            }
        }
        // the final outcome, from its choices
        std::vector<uint32_t> c = best.choices;
        Outcome o = execute(p, rseed, &c);
        return same(o, best) ? o : best;
    }

    static Property* find(const std::string& id) {
        for (Property* p = properties; p; p = p->next)
            if (id == p->id)
                return p;
        return nullptr;
    }

    // A minimal reader for our own replay files.
    static std::string jsonField(const std::string& text, const std::string& key) {
        size_t i = text.find("\"" + key + "\":");
        if (i == std::string::npos)
            return "";
        i += key.size() + 3;
        while (text[i] == ' ')
            ++i;
        if (text[i] == '"') {
            size_t e = text.find('"', i + 1);
            return text.substr(i + 1, e - i - 1);
        }
        if (text[i] == '[') {
            size_t e = text.find(']', i);
            return text.substr(i + 1, e - i - 1);
        }
        size_t e = text.find_first_of(",\n", i);
        return text.substr(i, e - i);
    }

    int mainLoop(int argc, char** argv) {
        std::map<std::string, std::string> opt;
        std::string mode = argc > 1 ? argv[1] : "", arg = argc > 2 ? argv[2] : "";
        for (int i = 3; i + 1 < argc; i += 2)
            opt[argv[i]] = argv[i + 1];
        shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (opt.count("--cpu"))
            cpuLimit = atoi(opt["--cpu"].c_str());
        childErr = tmpfile();
        isThorough = opt["--tier"] == "thorough";
        if (mode == "list") {
            for (Property* p = properties; p; p = p->next)
                printf("%s\n", p->id);
            return 0;
        }
        if (mode == "replay") {
            std::ifstream f(arg.c_str());
            std::stringstream ss;
            ss << f.rdbuf();
            std::string text = ss.str();
            Property* p = find(jsonField(text, "property"));
            if (!p) {
                fprintf(stderr, "unknown property in %s\n", arg.c_str());
                return 3;
            }
            isThorough = jsonField(text, "thorough") == "true";
            std::vector<uint32_t> choices;
            std::istringstream cs(jsonField(text, "choices"));
            std::string tok;
            while (std::getline(cs, tok, ','))
                choices.push_back((uint32_t)strtoul(tok.c_str(), nullptr, 10));
            mem::warmup();
            if (p->warmup)
                p->warmup();
            Outcome o = execute(p, strtoull(jsonField(text, "run_seed").c_str(), nullptr, 10), &choices);
            bool agrees = o.status == VIOLATION && o.cls == jsonField(text, "class");
            bool exact = agrees && std::to_string(o.hash) == jsonField(text, "hash");
            printf("status=%d class=%s hash=%llu reproduced=%s exact=%s\n", (int)o.status, o.cls.c_str(),
                   (unsigned long long)o.hash, agrees ? "yes" : "no", exact ? "yes" : "no");
            if (opt.count("--verbose"))
                printf("%s\n%s\n", o.trace.c_str(), o.detail.c_str());
            return agrees ? 1 : 0;
        }
        if (mode == "run") {
            Property* p = find(arg);
            if (!p) {
                fprintf(stderr, "unknown property %s\n", arg.c_str());
                return 3;
            }
            uint64_t seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
            uint64_t first = strtoull(opt["--first"].c_str(), nullptr, 10);
            uint64_t step = opt.count("--step") ? strtoull(opt["--step"].c_str(), nullptr, 10) : 1;
            uint64_t maxRuns = opt.count("--count") ? strtoull(opt["--count"].c_str(), nullptr, 10) : 1;
            double seconds = opt.count("--seconds") ? atof(opt["--seconds"].c_str()) : 1e9;
            double shrinkSeconds = opt.count("--shrink") ? atof(opt["--shrink"].c_str()) : 20;
            uint64_t recheck = opt.count("--recheck") ? strtoull(opt["--recheck"].c_str(), nullptr, 10) : 20;
            std::string dir = opt["--out"];
            std::set<std::string> known;
            {
                std::istringstream ks(opt["--known"]);
                std::string k;
                while (std::getline(ks, k, ','))
                    if (!k.empty())
                        known.insert(k);
            }
            bool hashes = opt.count("--hashes") != 0;
            double start = now();
            mem::warmup();
            if (p->warmup)
                p->warmup();
            std::map<std::string, uint64_t> counters;
            std::unordered_set<uint64_t> states, runs;
            double simTime = 0;
            uint64_t n = 0, evals = 0, steps = 0, nontriv = 0, rechecked = 0, mismatches = 0, unconfirmed = 0;
            std::map<std::string, uint64_t> knownSeen;
            std::vector<std::string> samples;
            std::string violationFile, violationCls, violationDetail, harness;
            for (uint64_t k = 0; k < maxRuns && now() - start < seconds; ++k) {
                uint64_t index = first + k * step;
                uint64_t rseed = runSeed(seed, p->id, index);
                Outcome o = execute(p, rseed, nullptr);
                ++n;
                evals += shared->evaluations;
                steps += o.choices.size();
                simTime += (double)shared->simTimeNs / 1e9;
                for (uint32_t i = 0; i < shared->ncounters; ++i)
                    counters[shared->counters[i].name] += shared->counters[i].value;
                for (uint32_t i = 0; i < shared->nstates; ++i)
                    states.insert(shared->states[i]);
                if (shared->nontrivial && runs.insert(o.hash).second)
                    ++nontriv;
                if (samples.size() < 2 && shared->nontrivial && o.trace.size() < 6000 && o.trace.size() > 200)
                    samples.push_back("run " + std::to_string(index) + " (run seed " + std::to_string(rseed) + ")\n" + o.trace);
                if (hashes)
                    printf("HASH %llu %llu %d\n", (unsigned long long)index, (unsigned long long)o.hash, (int)o.status);
                if (o.status == HARNESS_ERROR) {
                    harness = "run " + std::to_string(index) + ": " + o.detail;
                    writeReplay(dir + "/harness-" + std::to_string(index) + ".json", p, seed, index, rseed, o);
                    break;
                }
                if (recheck && k % recheck == recheck / 2) {
                    Outcome o2 = execute(p, rseed, nullptr);
                    ++rechecked;
                    if (o2.hash != o.hash || o2.status != o.status || o2.choices != o.choices) {
                        ++mismatches;
                        writeReplay(dir + "/mismatch-" + std::to_string(index) + "-a.json", p, seed, index, rseed, o);
                        writeReplay(dir + "/mismatch-" + std::to_string(index) + "-b.json", p, seed, index, rseed, o2);
                    }
                }
                if (o.status == VIOLATION) {
                    if (known.count(o.cls)) {
                        ++knownSeen[o.cls];
                        continue;
                    }
                    // gate 1: the same seed again
                    Outcome again = execute(p, rseed, nullptr);
                    if (!same(o, again)) {
                        ++unconfirmed;
                        writeReplay(dir + "/unconfirmed-" + std::to_string(index) + ".json", p, seed, index, rseed, o);
                        continue;
                    }
                    Outcome small = shrink(p, rseed, o, shrinkSeconds);
                    violationFile = dir + "/" + p->id + "-seed" + std::to_string(seed) + "-run" + std::to_string(index) + ".json";
                    writeReplay(violationFile, p, seed, index, rseed, small);
                    violationCls = small.cls;
                    violationDetail = small.detail;
                    break;
                }
            }
            std::ostringstream js;
            js << "{\"runs\":" << n << ",\"evaluations\":" << evals << ",\"choices\":" << steps << ",\"nontrivial\":" << nontriv
               << ",\"states\":" << states.size() << ",\"sim_time_s\":" << simTime << ",\"rechecked\":" << rechecked
               << ",\"mismatches\":" << mismatches << ",\"unconfirmed\":" << unconfirmed << ",\"wall\":" << (now() - start)
               << ",\"harness\":" << jsonStr(harness) << ",\"violation\":" << jsonStr(violationFile)
               << ",\"violation_class\":" << jsonStr(violationCls) << ",\"violation_detail\":" << jsonStr(violationDetail);
            js << ",\"counters\":{";
            bool c1 = true;
            for (auto& kv : counters) {
                js << (c1 ? "" : ",") << jsonStr(kv.first) << ":" << kv.second;
                c1 = false;
            }
            js << "},\"known\":{";
            c1 = true;
            for (auto& kv : knownSeen) {
                js << (c1 ? "" : ",") << jsonStr(kv.first) << ":" << kv.second;
                c1 = false;
            }
            js << "},\"samples\":[";
            for (size_t i = 0; i < samples.size(); ++i)
                js << (i ? "," : "") << jsonStr(samples[i]);
            js << "],\"state_hashes\":[";
            size_t lim = 0;
            for (uint64_t h : states) {
                if (lim >= 200000)
                    break;
                js << (lim++ ? "," : "") << h;
            }
            js << "]}";
            std::string out = opt["--summary"];
            if (!out.empty()) {
                std::ofstream f(out.c_str());
                f << js.str() << "\n";
            } else
                printf("%s\n", js.str().c_str());
            return 0;
        }
        fprintf(stderr, "usage: flsim list | run ID ... | replay FILE\n");
        return 3;
    }
}

int main(int argc, char** argv) {
    prctl(PR_SET_THP_DISABLE, 1, 0, 0, 0);  // huge pages make forked children slow
    // the same addresses in every process, so that a run is repeatable even where it depends on them
    int persona = personality(0xffffffff);
    if (persona != -1 && !(persona & ADDR_NO_RANDOMIZE) && !getenv("FLSIM_NO_REEXEC")
        && personality(persona | ADDR_NO_RANDOMIZE) != -1) {
        setenv("FLSIM_NO_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    return sim::mainLoop(argc, argv);
}
