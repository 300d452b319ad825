#include "env.h"

#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <sstream>

// The simulated disk is no part of what the detector of data races is to look at.
extern "C" {
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
}
namespace {
    struct Quiet {
        Quiet() {
            if (AnnotateIgnoreReadsBegin) {
                AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
                AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
            }
        }
        ~Quiet() {
            if (AnnotateIgnoreReadsBegin) {
                AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
                AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
            }
        }
    };
}

namespace sim {
    namespace disk {
        struct Node {
            std::string data;
            bool dir = false;
        };
        struct Handle {
            std::string path;
            long pos = 0;
            bool read = false, write = false, append = false, open = false;
        };
        struct State {
            std::map<std::string, Node> files;
            std::vector<Handle> handles;
            std::map<FILE*, int> streams;
            std::vector<Op> log;
            int faultOp = -1, err = 0;
            Kind kind = FAIL;
            long arg = 0;
            bool persistent = false, failNext = false, full = false;
            long room = 0;
            int nfired = 0;
            unsigned firedMask = 0;
            std::string onlyPath;
            bool shorts = false, intr = false;
            int lastIntr = 0;
            bool snap = false;
            std::map<std::string, Node> snapshot;
        };
        static State* st = nullptr;
        static State& S() {
            if (!st) {
                mem::Off off;
                st = new State;
            }
            return *st;
        }
        static const int FD0 = 100000;

        const char* opName(OpType t) {
            static const char* n[] = {"open-read", "open-write", "read", "write", "close", "seek", "stat", "flush", "other"};
            return n[t];
        }
        static bool simulated(const char* path) {
            return path && strncmp(path, "/sim/", 5) == 0;
        }
        static void fire(const char* what, OpType type) {
            ++S().nfired;
            S().firedMask |= 1u << type;
            char b[56];
            snprintf(b, sizeof b, "fault:disk %s", what);
            count(b);
        }
        // Returns the errno to fail with, or 0
        static int enter(OpType type, const std::string& path, long bytes) {
            State& s = S();
            if (!s.onlyPath.empty() && path != s.onlyPath)
                return 0;
            int index = (int)s.log.size();
            if (index > 200000)
                harnessError("too many file operations");
            Op op;
            op.type = type;
            op.path = path;
            op.bytes = bytes;
            s.log.push_back(op);
            if (s.failNext && (type == WRITE || type == READ)) {
                if (!s.persistent)
                    s.failNext = false;
                fire(type == WRITE ? "torn-write" : "torn-read", type);
                return s.err;
            }
            if (s.faultOp >= 0 && (index == s.faultOp || (index > s.faultOp && s.persistent && s.kind == FAIL))) {
                switch (s.kind) {
                    case FAIL:
                        fire(opName(type), type);
                        return s.err;
                    case TORN_FAIL:
                        break;  // handled by the transfer
                    case FULL:
                        s.full = true;
                        s.room = s.arg;
                        break;
                    case CRASH:
                        if (!s.snap) {
                            s.snap = true;
                            s.snapshot = s.files;
                            fire("crash", OTHER);
                        }
                        break;
                }
            }
            return 0;
        }
        static bool tearing() {
            State& s = S();
            return s.faultOp == (int)s.log.size() - 1 && s.kind == TORN_FAIL && !s.failNext;
        }

        static int openHandle(const char* path, bool rd, bool wr, bool trunc, bool create, bool append) {
            mem::Off off;
            State& s = S();
            int e = enter(wr ? OPEN_WRITE : OPEN_READ, path, 0);
            if (e) {
                errno = e;
                return -1;
            }
            auto it = s.files.find(path);
            if (it == s.files.end()) {
                if (!create) {
                    errno = ENOENT;
                    return -1;
                }
                std::string p = path;
                std::string parent = p.substr(0, p.rfind('/'));
                if (parent != "/sim" && (!s.files.count(parent) || !s.files[parent].dir)) {
                    errno = ENOENT;
                    return -1;
                }
                it = s.files.insert(std::make_pair(p, Node())).first;
            }
            if (it->second.dir && wr) {
                errno = EISDIR;
                return -1;
            }
            if (wr && trunc)
                it->second.data.clear();
            Handle h;
            h.path = path;
            h.read = rd;
            h.write = wr;
            h.append = append;
            h.open = true;
            for (size_t i = 0; i < s.handles.size(); ++i)
                if (!s.handles[i].open) {
                    s.handles[i] = h;
                    return FD0 + (int)i;
                }
            s.handles.push_back(h);
            return FD0 + (int)s.handles.size() - 1;
        }
        static Handle* handle(int fd) {
            if (fd < FD0 || !st || fd - FD0 >= (int)st->handles.size() || !st->handles[fd - FD0].open)
                return nullptr;
            return &st->handles[fd - FD0];
        }
        static bool interrupted() {
            State& s = S();
            if (s.intr && s.lastIntr < 2 && draw(5) == 4) {
                ++s.lastIntr;
                count("fault:disk eintr");
                errno = EINTR;
                return true;
            }
            s.lastIntr = 0;
            return false;
        }
        static ssize_t doRead(int fd, void* buf, size_t n) {
            mem::Off off;
            Handle* h = handle(fd);
            if (!h || !h->read) {
                errno = EBADF;
                return -1;
            }
            int e = enter(READ, h->path, (long)n);
            if (e) {
                errno = e;
                return -1;
            }
            if (S().files[h->path].dir) {
                errno = EISDIR;
                return -1;
            }
            if (interrupted())
                return -1;
            const std::string& d = S().files[h->path].data;
            size_t avail = h->pos < (long)d.size() ? d.size() - h->pos : 0;
            size_t k = n < avail ? n : avail;
            if (tearing()) {
                if ((long)k > S().arg)
                    k = S().arg;
                S().failNext = true;
                if (k == 0) {
                    S().failNext = S().persistent;
                    fire("torn-read", READ);
                    errno = S().err;
                    return -1;
                }
            } else if (S().shorts && k > 1 && draw(3) != 0) {
                k = 1 + draw(k < 64 ? (uint32_t)k : 64);
                if (k > avail)
                    k = avail;
                count("fault:disk short-read");
            }
            memcpy(buf, d.data() + h->pos, k);
            h->pos += k;
            return (ssize_t)k;
        }
        static ssize_t doWrite(int fd, const char* buf, size_t n) {
            mem::Off off;
            Handle* h = handle(fd);
            if (!h || !h->write) {
                errno = EBADF;
                return -1;
            }
            State& s = S();
            int e = enter(WRITE, h->path, (long)n);
            if (e) {
                errno = e;
                return -1;
            }
            if (interrupted())
                return -1;
            size_t k = n;
            if (tearing()) {
                if ((long)k > s.arg)
                    k = s.arg;
                s.failNext = true;
                if (k == 0) {
                    s.failNext = s.persistent;
                    fire("torn-write", WRITE);
                    errno = s.err;
                    return -1;
                }
            } else if (s.full) {
                if (s.room <= 0) {
                    fire("full", WRITE);
                    errno = ENOSPC;
                    return -1;
                }
                if ((long)k > s.room)
                    k = s.room;
                s.room -= k;
            } else if (s.shorts && k > 1 && draw(3) != 0) {
                k = 1 + draw(k < 256 ? (uint32_t)k : 256);
                if (k > n)
                    k = n;
                count("fault:disk short-write");
            }
            std::string& d = s.files[h->path].data;
            if (h->append)
                h->pos = (long)d.size();
            if ((long)d.size() < h->pos + (long)k)
                d.resize(h->pos + k);
            memcpy(&d[h->pos], buf, k);
            h->pos += k;
            return (ssize_t)k;
        }
        static int doClose(int fd) {
            mem::Off off;
            Handle* h = handle(fd);
            if (!h) {
                errno = EBADF;
                return -1;
            }
            int e = enter(CLOSE, h->path, 0);
            h->open = false;  // as on Linux, the descriptor is gone even if close reports an error
            if (e) {
                errno = e;
                return -1;
            }
            return 0;
        }
        static long doSeek(int fd, long off64, int whence) {
            mem::Off off;
            Handle* h = handle(fd);
            if (!h) {
                errno = EBADF;
                return -1;
            }
            int e = enter(SEEK, h->path, off64);
            if (e) {
                errno = e;
                return -1;
            }
            long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? h->pos : (long)S().files[h->path].data.size();
            if (base + off64 < 0) {
                errno = EINVAL;
                return -1;
            }
            return h->pos = base + off64;
        }

        void reset() {
            mem::Off off;
            delete st;
            st = nullptr;
            S();
        }
        void put(const std::string& path, const std::string& content) {
            mem::Off off;
            S().files[path].data = content;
        }
        void mkdir(const std::string& path) {
            mem::Off off;
            S().files[path].dir = true;
        }
        bool exists(const std::string& path) {
            return S().files.count(path) > 0;
        }
        std::string content(const std::string& path) {
            Quiet quiet;
            auto it = S().files.find(path);
            return it == S().files.end() ? std::string() : it->second.data;
        }
        void erase(const std::string& path) {
            S().files.erase(path);
        }
        std::vector<std::string> list() {
            std::vector<std::string> r;
            for (auto& kv : S().files)
                if (!kv.second.dir)
                    r.push_back(kv.first);
            return r;
        }
        void clearLog() {
            S().log.clear();
        }
        const std::vector<Op>& log() {
            return S().log;
        }
        void inject(int op, Kind kind, int err, long arg, bool persistent) {
            State& s = S();
            s.faultOp = op;
            s.kind = kind;
            s.err = err;
            s.arg = arg;
            s.persistent = persistent;
            s.failNext = false;
            s.full = false;
            s.nfired = 0;
            s.firedMask = 0;
            s.snap = false;
        }
        void only(const std::string& path) {
            mem::Off off;
            S().onlyPath = path;
        }
        bool firedOn(OpType type) {
            return S().firedMask >> type & 1;
        }
        void noFaults() {
            State& s = S();
            s.faultOp = -1;
            s.failNext = false;
            s.full = false;
            s.shorts = s.intr = false;
            s.nfired = 0;
            s.firedMask = 0;
            s.onlyPath.clear();
        }
        int fired() {
            return S().nfired;
        }
        void benign(bool shortTransfers, bool interrupts) {
            S().shorts = shortTransfers;
            S().intr = interrupts;
            S().lastIntr = 0;
        }
        bool snapshotTaken() {
            return S().snap;
        }
        void restoreSnapshot() {
            mem::Off off;
            S().files = S().snapshot;
            for (Handle& h : S().handles)
                h.open = false;
        }
        int openHandles() {
            int n = 0;
            for (const Handle& h : S().handles)
                n += h.open;
            return n;
        }
        void closeAll() {
            for (Handle& h : S().handles)
                h.open = false;
        }
    }

    // ------------------------------------------------------------------------------------------ clock
    namespace clk {
        static Mode mode = OFF;
        static int64_t t = 0, start = 0;
        static uint64_t n = 0;
        void set(Mode m) {
            mode = m;
            t = start = 1700000000ll * 1000000000ll;
            n = 0;
        }
        uint64_t readings() {
            return n;
        }
        int64_t nowNs() {
            return t;
        }
        static int64_t read(bool monotonic) {
            ++n;
            static const int64_t unit[] = {1, 1000, 1000000, 1000000000, 3600ll * 1000000000};
            int64_t d = 0;
            switch (mode) {
                case OFF:
                    break;
                case STEADY:
                    d = 1000 + draw(1000);
                    break;
                case FROZEN:
                    d = 0;
                    break;
                case JUMPS:
                    d = (int64_t)draw(1000) * unit[draw(5)];
                    if (d > 1000000)
                        count("fault:clock jump");
                    break;
                case BACKWARDS:
                    d = (int64_t)draw(1000) * unit[draw(5)];
                    if (!monotonic && chance(1, 3)) {
                        d = -d;
                        count("fault:clock backwards");
                    }
                    break;
            }
            static int64_t mono = 0;
            if (monotonic) {
                mono = mono < t ? t : mono;
                mono += d < 0 ? 0 : d;
                shared->simTimeNs += d < 0 ? 0 : d;
                return mono;
            }
            t += d;
            shared->simTimeNs += d < 0 ? -d : d;
            return t;
        }
    }

    // ------------------------------------------------------------------------------------------ terminal
    namespace tty {
        static bool active = false, terminal = true;
        static std::vector<int>* keys = nullptr;
        static size_t pos = 0;
        static struct termios current, original;
        static int gets = 0, sets = 0, failGet = 0, failSet = 0;
        static uint64_t nreads = 0;
        static bool raw = true;
        void reset(bool isTerminal) {
            active = true;
            terminal = isTerminal;
            if (!keys)
                keys = new std::vector<int>;
            keys->clear();
            pos = 0;
            memset(&original, 0, sizeof original);
            original.c_lflag = ICANON | ECHO | ISIG | IEXTEN;
            original.c_iflag = ICRNL | IXON;
            original.c_oflag = OPOST | ONLCR;
            original.c_cc[VMIN] = 1;
            current = original;
            gets = sets = failGet = failSet = 0;
            nreads = 0;
            raw = true;
        }
        void feed(const std::vector<int>& k) {
            *keys = k;
        }
        void failCalls(int get, int set) {
            failGet = get;
            failSet = set;
        }
        bool pristine() {
            return memcmp(&current, &original, sizeof current) == 0;
        }
        size_t consumed() {
            return pos;
        }
        uint64_t reads() {
            return nreads;
        }
        bool rawDuringReads() {
            return raw;
        }
        static int next() {
            ++nreads;
            if (nreads > 100000)
                fail("console-does-not-terminate", "more than 100000 reads after %zu keystrokes", keys->size());
            if (terminal && (current.c_lflag & (ICANON | ECHO)))
                raw = false;
            if (pos >= keys->size()) {
                count("fault:tty eof");
                return EOF;
            }
            return (*keys)[pos++];
        }
    }

    struct Capture::Impl {
        std::ostringstream o, e;
        std::streambuf *oo, *oe;
    };
    Capture::Capture() {
        mem::Off off;
        impl = new Impl;
        impl->oo = std::cout.rdbuf(impl->o.rdbuf());
        impl->oe = std::cerr.rdbuf(impl->e.rdbuf());
    }
    Capture::~Capture() {
        std::cout.rdbuf(impl->oo);
        std::cerr.rdbuf(impl->oe);
        std::cout.clear();
        std::cerr.clear();
        mem::Off off;
        delete impl;
    }
    std::string Capture::out() const {
        return impl->o.str();
    }
    std::string Capture::err() const {
        return impl->e.str();
    }
}

// ---------------------------------------------------------------------------------------------- interposition
using namespace sim;
using namespace sim::disk;

static ssize_t cookieRead(void* c, char* b, size_t n) {
    return doRead((int)(long)c, b, n);
}
static ssize_t cookieWrite(void* c, const char* b, size_t n) {
    ssize_t r = doWrite((int)(long)c, b, n);
    return r < 0 ? 0 : r;
}
static int cookieSeek(void* c, off64_t* o, int w) {
    long r = doSeek((int)(long)c, *o, w);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int cookieClose(void* c) {
    return doClose((int)(long)c);
}

extern "C" {
FILE* __real_fopen(const char*, const char*);
FILE* __real_fopen64(const char*, const char*);
static FILE* simFopen(const char* path, const char* mode) {
    bool plus = strchr(mode, '+') != nullptr;
    bool r = mode[0] == 'r', w = mode[0] == 'w', a = mode[0] == 'a';
    int fd = openHandle(path, r || plus, w || a || plus, w, w || a, a);
    if (fd < 0)
        return nullptr;
    cookie_io_functions_t f = {cookieRead, cookieWrite, cookieSeek, cookieClose};
    mem::Off off;
    FILE* file = fopencookie((void*)(long)fd, mode, f);
    S().streams[file] = fd;
    return file;
}
FILE* __wrap_fopen(const char* p, const char* m) {
    Quiet quiet;
    return simulated(p) ? simFopen(p, m) : __real_fopen(p, m);
}
FILE* __wrap_fopen64(const char* p, const char* m) {
    Quiet quiet;
    return simulated(p) ? simFopen(p, m) : __real_fopen64(p, m);
}
FILE* __real_fdopen(int, const char*);
FILE* __wrap_fdopen(int fd, const char* m) {
    Quiet quiet;
    if (handle(fd)) {
        cookie_io_functions_t f = {cookieRead, cookieWrite, cookieSeek, cookieClose};
        mem::Off off;
        FILE* file = fopencookie((void*)(long)fd, m, f);
        S().streams[file] = fd;
        return file;
    }
    return __real_fdopen(fd, m);
}
int __real_fclose(FILE*);
int __wrap_fclose(FILE* f) {
    Quiet quiet;
    if (st) {
        mem::Off off;
        st->streams.erase(f);
    }
    return __real_fclose(f);
}
int __real_fileno(FILE*);
int __wrap_fileno(FILE* f) {
    Quiet quiet;
    if (st) {
        auto it = st->streams.find(f);
        if (it != st->streams.end())
            return it->second;
    }
    return __real_fileno(f);
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) {
    Quiet quiet;
    return __real_fflush(f);
}
ssize_t __real_read(int, void*, size_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
    Quiet quiet;
    if (handle(fd))
        return doRead(fd, b, n);
    if (fd == 0 && tty::active) {
        if (n == 0)
            return 0;
        int c = tty::next();
        if (c == EOF)
            return 0;
        *(char*)b = (char)c;
        return 1;
    }
    return __real_read(fd, b, n);
}
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    Quiet quiet;
    return handle(fd) ? doWrite(fd, (const char*)b, n) : __real_write(fd, b, n);
}
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) {
    Quiet quiet;
    if (!handle(fd))
        return __real_writev(fd, v, n);
    mem::Off off;
    std::string all;
    for (int i = 0; i < n; ++i)
        all.append((const char*)v[i].iov_base, v[i].iov_len);
    return doWrite(fd, all.data(), all.size());
}
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) {
    Quiet quiet;
    return handle(fd) ? doSeek(fd, o, w) : __real_lseek(fd, o, w);
}
off64_t __real_lseek64(int, off64_t, int);
off64_t __wrap_lseek64(int fd, off64_t o, int w) {
    Quiet quiet;
    return handle(fd) ? doSeek(fd, o, w) : __real_lseek64(fd, o, w);
}
int __real_fstat(int, struct stat*);
int __wrap_fstat(int fd, struct stat* s) {
    Quiet quiet;
    Handle* h = handle(fd);
    if (!h)
        return __real_fstat(fd, s);
    memset(s, 0, sizeof *s);
    s->st_mode = S().files[h->path].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    s->st_size = S().files[h->path].data.size();
    return 0;
}
int __real_fstat64(int, struct stat64*);
int __wrap_fstat64(int fd, struct stat64* s) {
    Quiet quiet;
    Handle* h = handle(fd);
    if (!h)
        return __real_fstat64(fd, s);
    memset(s, 0, sizeof *s);
    s->st_mode = S().files[h->path].dir ? S_IFDIR | 0755 : S_IFREG | 0644;
    s->st_size = S().files[h->path].data.size();
    return 0;
}
int __real_ioctl(int, unsigned long, void*);
int __wrap_ioctl(int fd, unsigned long r, void* a) {
    Quiet quiet;
    if (handle(fd)) {
        errno = ENOTTY;
        return -1;
    }
    return __real_ioctl(fd, r, a);
}
int __real_poll(struct pollfd*, nfds_t, int);
int __wrap_poll(struct pollfd* f, nfds_t n, int t) {
    Quiet quiet;
    if (n == 1 && handle(f[0].fd)) {
        f[0].revents = f[0].events;
        return 1;
    }
    return __real_poll(f, n, t);
}
int __real_open(const char*, int, ...);
int __real_open64(const char*, int, ...);
static int simOpen(const char* p, int flags) {
    int acc = flags & O_ACCMODE;
    return openHandle(p, acc != O_WRONLY, acc != O_RDONLY, flags & O_TRUNC, flags & O_CREAT, flags & O_APPEND);
}
int __wrap_open(const char* p, int flags, ...) {
    Quiet quiet;
    va_list ap;
    va_start(ap, flags);
    int m = va_arg(ap, int);
    va_end(ap);
    return simulated(p) ? simOpen(p, flags) : __real_open(p, flags, m);
}
int __wrap_open64(const char* p, int flags, ...) {
    Quiet quiet;
    va_list ap;
    va_start(ap, flags);
    int m = va_arg(ap, int);
    va_end(ap);
    return simulated(p) ? simOpen(p, flags) : __real_open64(p, flags, m);
}
int __real_close(int);
int __wrap_close(int fd) {
    Quiet quiet;
    return handle(fd) ? doClose(fd) : __real_close(fd);
}
int __real_fsync(int);
int __wrap_fsync(int fd) {
    Quiet quiet;
    Handle* h = handle(fd);
    if (!h)
        return __real_fsync(fd);
    int e = enter(FLUSH, h->path, 0);
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
int __real_unlink(const char*);
int __wrap_unlink(const char* p) {
    Quiet quiet;
    if (!simulated(p))
        return __real_unlink(p);
    mem::Off off;
    int e = enter(OTHER, p, 0);
    if (e || !S().files.erase(p)) {
        errno = e ? e : ENOENT;
        return -1;
    }
    return 0;
}
int __real_remove(const char*);
int __wrap_remove(const char* p) {
    Quiet quiet;
    return simulated(p) ? __wrap_unlink(p) : __real_remove(p);
}
int __real_rename(const char*, const char*);
int __wrap_rename(const char* a, const char* b) {
    Quiet quiet;
    if (!simulated(a))
        return __real_rename(a, b);
    mem::Off off;
    int e = enter(OTHER, a, 0);
    if (e || !S().files.count(a)) {
        errno = e ? e : ENOENT;
        return -1;
    }
    Node n = S().files[a];
    S().files.erase(a);
    S().files[b] = n;
    return 0;
}

int __real_clock_gettime(clockid_t, struct timespec*);
int __wrap_clock_gettime(clockid_t c, struct timespec* ts) {
    if (clk::mode == clk::OFF)
        return __real_clock_gettime(c, ts);
    int64_t t = clk::read(c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
int __real_gettimeofday(struct timeval*, void*);
int __wrap_gettimeofday(struct timeval* tv, void* z) {
    if (clk::mode == clk::OFF)
        return __real_gettimeofday(tv, z);
    int64_t t = clk::read(false);
    tv->tv_sec = t / 1000000000;
    tv->tv_usec = t % 1000000000 / 1000;
    return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* p) {
    if (clk::mode == clk::OFF)
        return __real_time(p);
    time_t t = clk::read(false) / 1000000000;
    if (p)
        *p = t;
    return t;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
    if (clk::mode == clk::OFF)
        return __real_nanosleep(a, b);
    clk::t += a->tv_sec * 1000000000ll + a->tv_nsec;
    return 0;
}

int __real_tcgetattr(int, struct termios*);
int __wrap_tcgetattr(int fd, struct termios* t) {
    if (!tty::active)
        return __real_tcgetattr(fd, t);
    ++tty::gets;
    if (!tty::terminal) {
        errno = ENOTTY;
        return -1;
    }
    if (tty::gets == tty::failGet) {
        count("fault:tty tcgetattr");
        errno = EIO;
        return -1;
    }
    *t = tty::current;
    return 0;
}
int __real_tcsetattr(int, int, const struct termios*);
int __wrap_tcsetattr(int fd, int a, const struct termios* t) {
    if (!tty::active)
        return __real_tcsetattr(fd, a, t);
    ++tty::sets;
    if (!tty::terminal) {
        errno = ENOTTY;
        return -1;
    }
    if (tty::sets == tty::failSet) {
        count("fault:tty tcsetattr");
        errno = EINTR;
        return -1;
    }
    tty::current = *t;
    return 0;
}
int __real_getchar();
int __wrap_getchar() {
    return tty::active ? tty::next() : __real_getchar();
}
int __real_getc(FILE*);
int __wrap_getc(FILE* f) {
    return tty::active && f == stdin ? tty::next() : __real_getc(f);
}
int __real_fgetc(FILE*);
int __wrap_fgetc(FILE* f) {
    return tty::active && f == stdin ? tty::next() : __real_fgetc(f);
}
// the library's signal handlers would hide crashes from the simulator
typedef void (*Handler)(int);
Handler __real_signal(int, Handler);
Handler __wrap_signal(int s, Handler h) {
    return nullptr;
}
}
