// C02: cycles aborted at an arbitrary evaluation or allocation.
#include "guard.h"
#include "ops.h"
#include "probes.h"

using namespace sim;

static void run() {
    probes::install();
    gen::Options g;
    g.missing = chance(1, 8);
    g.inactiveRules = true;
    bool viaText = chance(1, 3);
    g.forward = not viaText;
    g.constants = not viaText;
    gen::EngineSpec s = ops::spec(g);
    model::Model m(s);
    std::unique_ptr<fl::Engine> e;
    if (viaText) {
        e.reset(fl::FllImporter().fromString(gen::fll(s)));
        for (auto& b : m.s.blocks) {
            for (auto& r : b.rules)
                r.enabled = true;
            if (b.activation.cls.empty())
                b.activation.cls = "General";
        }
    } else
        e = gen::build(s);
    ops::Options o;
    o.missing = g.missing;
    o.gen = g;
    long points = 30, allocations = 20;
    int steps = range(2, thorough() ? 30 : 12);
    for (int i = 0; i < steps; ++i) {
        for (int k = weighted({6, 3, 1}); k > 0; --k)
            ops::mutate(m, *e, o);
        if (chance(9, 10))
            model::setInputs(m, *e, chance(1, 3));
        int kind = i == 0 ? 0 : weighted({4, 5, 2});
        probes::seen = 0;
        probes::fired = false;
        probes::failAt = kind == 1 ? 1 + draw((uint32_t)points + 2) : 0;
        if (kind == 2) {
            mem::begin();
            mem::failAt(1 + draw((uint32_t)allocations + 2), chance(1, 3));
        } else
            mem::begin();
        Ended x = guarded([&] { e->process(); });
        bool memFired = kind == 2 and mem::fired();
        if (kind != 2)
            allocations = (long)mem::allocations();
        mem::failNever();
        mem::end();
        probes::failAt = 0;
        if (not probes::fired and kind != 1 and not x.threw)
            points = std::max(1l, probes::seen);
        if (probes::fired) {
            count((std::string("fault:exception in ") + probes::where).c_str());
            trace("process: exception in %s, evaluation %ld", probes::where, probes::seen);
            if (not x.injected)
                fail("C02:exception swallowed", "an exception thrown by a %s did not reach the caller (%s)", probes::where,
                     x.threw ? x.what.c_str() : "the cycle ended normally");
            model::judgeAborted(m, *e, "C02:aborted cycle");
        } else if (memFired and x.threw) {
            count("fault:out of memory in a cycle");
            trace("process: out of memory");
            model::judgeAborted(m, *e, "C02:aborted cycle");
        } else {
            trace("process");
            model::judge(m, *e, memFired ? "C02:out of memory ignored" : "C02:cycle", x.threw, x.what);
        }
    }
    // the last cycle is a regular one
    model::setInputs(m, *e, false);
    trace("process");
    model::cycle(m, *e, "C02:cycle");
    nontrivial();
}
static Property p("C02", run);
