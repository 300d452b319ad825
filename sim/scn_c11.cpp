// C11: the interactive console under arbitrary keystrokes and interruptions.
#include <iostream>
#include <sstream>

#include "probes.h"
#include "session.h"

using namespace sim;
using namespace session;

namespace {
    struct Console : fl::Console {
        using fl::Console::interactive;
    };
}

static void run() {
    probes::install();
    gen::Options g;
    g.missing = chance(1, 8);
    g.maxResolution = 12;
    gen::EngineSpec s = ops::spec(g);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    int sessions = range(1, thorough() ? 5 : 3);
    for (int i = 0; i < sessions; ++i) {
        for (int k = range(0, 2); k > 0; --k) {
            for (size_t v = 0; v < s.inputs.size(); ++v)
                e->getInputVariable(v)->setValue(gen::sensor(s.inputs[v], chance(1, 4)));
            guarded([&] { e->process(); });
        }
        std::vector<int> keys = keystrokes(s, range(0, thorough() ? 120 : 40));
        if (not keys.empty() and chance(1, 4))  // cut off anywhere
            keys.resize(draw((uint32_t)keys.size() + 1));
        std::string text;
        for (int k : keys)
            text += k > 32 and k < 127 ? std::string(1, (char)k) : k == ' ' ? "_" : "<" + std::to_string(k) + ">";
        bool terminal = chance(3, 4);
        int failGet = 0, failSet = 0;
        if (terminal and chance(1, 3) and not keys.empty()) {
            if (chance(1, 2))
                failGet = range(1, (int)keys.size());
            else
                failSet = 2 * (int)draw((uint32_t)keys.size()) + 1;  // entering character mode
        }
        long failAt = chance(1, 4) ? 1 + draw(chance(1, 3) ? 30 : 600) : 0;
        trace("session %d:%s%s%s keys %s", i + 1, terminal ? "" : " no terminal", failGet or failSet ? " failing terminal call" : "", failAt ? " failing evaluation" : "", text.c_str());
        std::unique_ptr<fl::Engine> twin(e->clone());
        probes::seen = 0;
        probes::fired = false;
        probes::failAt = failAt;
        Session expected = play(*twin, keys);
        bool expectedFired = probes::fired;
        if (expectedFired)
            count("fault:exception in a cycle");
        tty::reset(terminal);
        tty::feed(keys);
        tty::failCalls(failGet, failSet);
        bool own = chance(1, 2);
        std::ostringstream writer;
        std::string screen;
        probes::seen = 0;
        probes::fired = false;
        probes::failAt = failAt;
        Ended x;
        {
            Capture capture;
            Console console;
            x = guarded([&] { console.interactive(own ? (std::ostream&)writer : std::cout, e.get()); });
            screen = capture.out();
        }
        probes::failAt = 0;
        if (x.threw)
            fail("C11:session aborted", "%s", x.what.c_str());
        if (not tty::pristine())
            fail("C11:terminal not restored", "the attributes of the terminal differ from those found (%zu reads)", (size_t)tty::reads());
        if (terminal and not failGet and not failSet and not tty::rawDuringReads())
            fail("C11:not in character mode", "a keystroke was read in line mode");
        if (tty::consumed() != expected.consumed)
            fail("C11:keystrokes", "%zu keystrokes were read instead of %zu", tty::consumed(), expected.consumed);
        if (tty::reads() != expected.consumed + (expected.quit ? 0 : 1))
            fail("C11:keystrokes", "%llu reads for %zu keystrokes", (unsigned long long)tty::reads(), expected.consumed);
        check(screen, expected, "the screen", "C11");
        if (own)
            check(writer.str(), expected, "the destination", "C11");
        if (util::values(*e) != util::values(*twin))
            fail("C11:engine differs", "after the session the engine is not as the keystrokes prescribe: %s",
                 util::difference(util::values(*e), util::values(*twin)).c_str());
        trace("%zu results, %s", expected.results.size(), expected.quit ? "quit" : "end of input");
        state(hashOf("session") + (expected.results.size() > 6 ? 6 : expected.results.size()) * 8 + own + terminal * 2 + expected.quit * 4
              + (expected.restarts > 0) * 64 + (expected.discards > 0) * 128 + (expected.helps > 0) * 256 + expectedFired * 512
              + (failGet ? 1024 : 0) + (failSet ? 2048 : 0) + s.inputs.size() * 4096 + s.outputs.size() * 65536);
        evaluated();
    }
    nontrivial();
}
static Property p("C11", run);
