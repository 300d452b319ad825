// C01: process history against the reference model.
#include "ops.h"
#include "env.h"
#include <cmath>

using namespace sim;

static void run() {
    gen::Disguise disguise;
    gen::Options g;
    g.missing = chance(1, 6);
    g.inactiveRules = true;
    g.large = true;
    bool viaText = chance(1, 3);
    g.forward = not viaText;
    g.constants = not viaText;
    gen::EngineSpec s = ops::spec(g);
    model::Model m(s);
    std::unique_ptr<fl::Engine> e;
    if (viaText) {
        e.reset(fl::FllImporter().fromString(gen::fll(s)));
        for (auto& b : m.s.blocks)
            for (auto& r : b.rules)
                r.enabled = true;
        for (auto& b : m.s.blocks)
            if (b.activation.cls.empty())
                b.activation.cls = "General";
    } else
        e = gen::build(s);
    trace("built %s", viaText ? "from text" : "through the API");
    ops::Options o;
    o.missing = g.missing;
    o.gen = g;
    o.structure = true;
    int steps = range(1, thorough() ? 40 : 14);
    for (int i = 0; i < steps; ++i) {
        for (int k = weighted({5, 4, 2, 1}); k > 0; --k)
            ops::mutate(m, *e, o);
        if (chance(9, 10))
            model::setInputs(m, *e, chance(1, 2));
        trace("process");
        model::cycle(m, *e, "C01:cycle");
        if (chance(1, 8)) {
            // looking at the engine changes nothing
            trace("look");
            for (size_t k = 0; k < e->numberOfOutputVariables(); ++k)
                e->getOutputVariable(k)->fuzzyOutputValue();
            e->toString();
            e->isReady();
            model::compare(m, *e, "C01:looking changed the engine", true);
        }
    }
    if (chance(1, 40)) {
        // a long life
        int cycles = range(100, thorough() ? 3000 : 600);
        trace("%d cycles", cycles);
        for (int i = 0; i < cycles; ++i) {
            if (i % 4 == 0)
                model::setInputs(m, *e, chance(1, 8));
            model::cycle(m, *e, "C01:cycle");
        }
        count("history:long");
    }
    nontrivial();
}
static Property p("C01", run);
