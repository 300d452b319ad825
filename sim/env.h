// The environment of the process under the simulator: disk, clock, terminal.
#pragma once
#include <string>
#include <vector>

#include "core.h"

namespace sim {
    // Files whose path starts with /sim/ live on the simulated disk.
    namespace disk {
        enum OpType { OPEN_READ, OPEN_WRITE, READ, WRITE, CLOSE, SEEK, STAT, FLUSH, OTHER };
        enum Kind { FAIL, FULL, TORN_FAIL, CRASH };
        struct Op {
            OpType type;
            std::string path;
            long bytes;  // requested
        };
        void reset();
        void put(const std::string& path, const std::string& content);
        void mkdir(const std::string& path);
        bool exists(const std::string& path);
        std::string content(const std::string& path);
        void erase(const std::string& path);
        std::vector<std::string> list();
        void clearLog();                  // restart the numbering of operations
        const std::vector<Op>& log();     // operations since then
        // At operation number `op` (0-based since clearLog) ...
        // FAIL: fails with err; TORN_FAIL: a write (read) transfers `arg` bytes first, the following one fails;
        // FULL: from there on at most `arg` more bytes fit on the disk; CRASH: snapshot of what survives a process crash
        void inject(int op, Kind kind, int err, long arg, bool persistent);
        void noFaults();
        void only(const std::string& path);  // operations on other files are neither numbered nor failed, until noFaults()
        bool firedOn(OpType type);        // whether an injected failure hit an operation of that type
        int fired();                      // injected failures that happened
        void benign(bool shortTransfers, bool interrupts);  // drawn at each transfer, must be invisible
        bool snapshotTaken();
        void restoreSnapshot();
        int openHandles();
        void closeAll();
        const char* opName(OpType t);
    }
    namespace clk {
        enum Mode { OFF, STEADY, FROZEN, JUMPS, BACKWARDS };
        void set(Mode mode);
        uint64_t readings();
        int64_t nowNs();
    }
    namespace tty {
        void reset(bool isTerminal);
        void feed(const std::vector<int>& keys);  // then end of input
        void failCalls(int get, int set);         // the n-th call (1-based) of tcgetattr/tcsetattr fails
        bool pristine();                          // attributes are those set at reset
        int outstanding();                        // changes not undone
        size_t consumed();
        uint64_t reads();
        bool rawDuringReads();                    // all reads happened in character mode
    }
    // Captures std::cout and std::cerr
    struct Capture {
        Capture();
        ~Capture();
        std::string out() const;
        std::string err() const;
        struct Impl;
        Impl* impl;
    };
}
