// C09: generations of saving, dying and loading.
#include "env.h"
#include "guard.h"
#include "ops.h"
#include "util.h"

using namespace sim;

namespace {
    struct Format {
        const char* name;
        std::unique_ptr<fl::Exporter> exporter;
        std::unique_ptr<fl::Importer> importer;
    };
    Format format(int k) {
        Format f;
        if (k == 0) {
            f.name = "FLL";
            f.exporter.reset(new fl::FllExporter);
            f.importer.reset(new fl::FllImporter);
        } else if (k == 1) {
            f.name = "FIS";
            f.exporter.reset(new fl::FisExporter);
            f.importer.reset(new fl::FisImporter);
        } else {
            f.name = "FCL";
            f.exporter.reset(chance(1, 4) ? new fl::FclExporter(pick(std::vector<std::string>{"", "\t", "        "})) : new fl::FclExporter);
            f.importer.reset(new fl::FclImporter);
        }
        if (k == 0 and chance(1, 4)) {  // in other characters
            std::string indent = pick(std::vector<std::string>{"", " ", "\t", "      "}), separator = pick(std::vector<std::string>{";", "; ", " | ", "\r\n", "\n\n", "@@"});
            if (chance(1, 2)) {
                f.exporter.reset(new fl::FllExporter(indent, separator));
                f.importer.reset(new fl::FllImporter(separator));
            } else {
                fl::FllExporter* e = new fl::FllExporter;
                fl::FllImporter* i = new fl::FllImporter;
                f.exporter.reset(e);
                f.importer.reset(i);
                e->setIndent(indent);
                e->setSeparator(separator);
                i->setSeparator(separator);
            }
            count("format:other separators");
        }
        if (chance(1, 4)) {
            f.exporter.reset(f.exporter->clone());
            f.importer.reset(f.importer->clone());
        }
        return f;
    }
    // what the saved text says: nothing of the history remains, every rule is loaded as written
    void forgetHistory(model::Model& m) {
        m.restart();
        for (auto& v : m.in)
            v = NAN;
        for (size_t b = 0; b < m.s.blocks.size(); ++b)
            for (size_t r = 0; r < m.s.blocks[b].rules.size(); ++r) {
                gen::RuleSpec& k = m.s.blocks[b].rules[r];
                m.rules[b][r] = model::RuleState();
                k.enabled = true;
                k.weight = k.weightInText ? k.textWeight : 1.0;
            }
    }
    std::string imprecise(const std::string& parameters) {
        std::string r;
        for (const std::string& p : fl::Op::split(parameters, " ")) {
            double d = atof(p.c_str());
            char b[64];
            if (p.find_first_not_of("0123456789.-") == std::string::npos and p.find('.') != std::string::npos and d == d)
                snprintf(b, sizeof b, "%.6f", d + range(-400, 400) * 1e-6);
            else
                snprintf(b, sizeof b, "%s", p.c_str());
            r += (r.empty() ? "" : " ") + std::string(b);
        }
        return r;
    }
}

static void run() {
    disk::reset();
    int kind = weighted({4, 1, 1});
    gen::Options g;
    g.style = kind == 1 ? "fis" : kind == 2 ? "fcl" : "";
    g.weightsInText = true;
    g.heights = kind != 1;  // not part of the format
    if (kind == 1)
        g.maxBlocks = 1;
    g.missing = chance(1, 10) and kind == 0;
    fl::IntegralDefuzzifier::setDefaultResolution(chance(1, 4) ? pick(std::vector<int>{100, 200, 1000}) : range(10, 40));  // the same in each process
    if (chance(1, 8))
        g.maxResolution = pick(std::vector<int>{200, 3000});
    gen::EngineSpec s = ops::spec(g);
    model::Model m(s);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    Format f = format(kind);
    ops::Options o;
    o.gen = g;
    o.missing = g.missing;
    // digits beyond the saved precision, or up to it
    bool inexact = chance(1, 5), exact = inexact and chance(1, 2);
    if (inexact) {
        auto digits = [](double d) {
            char b[64];
            snprintf(b, sizeof b, "%.6f", d + range(-400, 400) * 1e-6);
            return atof(b);
        };
        fl::fuzzylite::setDecimals(exact ? range(6, 9) : range(3, 6));
        for (auto* v : e->variables()) {
            if (chance(1, 2) and std::isfinite(v->getMinimum()))
                v->setMinimum(digits(v->getMinimum()));
            for (auto* t : v->terms())
                if (chance(1, 2) and not dynamic_cast<fl::Function*>(t))
                    guarded([&] { t->configure(imprecise(t->parameters())); });
        }
        for (auto* v : e->outputVariables())
            if (chance(1, 2) and v->getDefaultValue() == v->getDefaultValue())
                v->setDefaultValue(digits(v->getDefaultValue()));
    } else if (chance(1, 4))
        fl::fuzzylite::setDecimals(range(3, 9));
    int generations = range(1, thorough() ? 6 : 4);
    std::string text;
    for (int n = 0; n < generations; ++n) {
        int steps = range(0, thorough() ? 10 : 5);
        for (int i = 0; i < steps; ++i) {
            if (inexact) {  // the model knows nothing of the hidden digits
                for (size_t k = 0; k < m.in.size(); ++k)
                    e->getInputVariable(k)->setValue(gen::sensor(s.inputs[k], true));
                guarded([&] { e->process(); });
                continue;
            }
            if (kind == 0 and n == 0)
                for (int k = weighted({2, 2, 1}); k > 0; --k)
                    ops::mutate(m, *e, o);
            model::setInputs(m, *e, chance(1, 3));
            trace("process");
            model::cycle(m, *e, n == 0 ? "C09:cycle" : "C09:behaves differently");
        }
        if (not inexact and n > 0 and kind == 0 and chance(1, 3)) {  // reconfigured after loading: a new text
            ops::mutate(m, *e, o);
            text.clear();
        }
        for (size_t b = 0; b < m.s.blocks.size(); ++b)  // no method means General, which is what is loaded
            if (not e->getRuleBlock(b)->getActivation()) {
                e->getRuleBlock(b)->setActivation(new fl::General);
                m.s.blocks[b].activation = gen::ActivationSpec();
                m.s.blocks[b].activation.cls = "General";
                text.clear();
            }
        if (chance(1, 10)) {  // a name that texts cannot hold is theirs to change, not the engine's
            fl::Variable* v = pick(e->variables());
            if (v->numberOfTerms()) {
                fl::Term* t = v->getTerm(draw((uint32_t)v->numberOfTerms()));
                std::string name = t->getName(), odd = name + pick(std::vector<std::string>{" (1)", "-", "%"});
                t->setName(odd);
                guarded([&] { f.exporter->toString(e.get()); });
                guarded([&] { f.exporter->toFile("/sim/other", e.get()); });
                if (t->getName() != odd)
                    fail("C09:original changed", "saving renamed a term from '%s' to '%s'", odd.c_str(), t->getName().c_str());
                t->setName(name);
            }
        }
        std::string before = util::snapshot(*e);
        std::string saved = f.exporter->toString(e.get());
        if (auto* fll = dynamic_cast<fl::FllExporter*>(f.exporter.get())) {  // saved part by part, the parts are those of the whole
            const fl::Engine& k = *e;
            std::string parts[] = {fll->toString(k.inputVariables()), fll->toString(k.outputVariables()), fll->toString(k.ruleBlocks()),
                                   fll->toString(pick(k.variables())->terms())};
            size_t at = 0;
            for (int i = 0; i < 4; ++i) {
                size_t found = i == 3 ? (parts[i].find(fll->getSeparator()) == std::string::npos ? saved.find(parts[i]) : 0) : saved.find(parts[i], at);
                if (found == std::string::npos)
                    fail("C09:parts differ", "saved part by part, part %d is <%s>; as a whole <%s>", i, parts[i].c_str(), saved.c_str());
                if (i < 3) {
                    if (not parts[i].empty() and (saved.substr(at, found - at).find("Variable: ") != std::string::npos or saved.substr(at, found - at).find("RuleBlock: ") != std::string::npos))
                        fail("C09:parts differ", "saved part by part, part %d is <%s>; as a whole <%s>", i, parts[i].c_str(), saved.c_str());
                    at = found + parts[i].size();
                }
            }
            fl::FllExporter plain;
            for (auto* b : k.ruleBlocks())
                if (b->getActivation() and b->getActivation()->toString() != plain.toString(b->getActivation()))
                    fail("C09:parts differ", "activation <%s>", b->getActivation()->toString().c_str());
            for (auto* o : k.outputVariables())
                if (o->getDefuzzifier() and o->getDefuzzifier()->toString() != plain.toString(o->getDefuzzifier()))
                    fail("C09:parts differ", "defuzzifier <%s>", o->getDefuzzifier()->toString().c_str());
        }
        disk::clearLog();
        f.exporter->toFile("/sim/engine", e.get());
        evaluated();
        trace("saved in %s: %zu bytes", f.name, saved.size());
        if (util::snapshot(*e) != before)
            fail("C09:original changed", "saving changed the engine %s", util::difference(util::snapshot(*e), before).c_str());
        if (util::chomp(disk::content("/sim/engine")) != util::chomp(saved))
            fail("C09:file differs", "the file differs from the exported text %s", util::difference(disk::content("/sim/engine"), saved).c_str());
        if (not text.empty() and saved != text)
            fail("C09:text differs", "%s: an engine that was saved and loaded exports another text %s", f.name, util::difference(saved, text).c_str());
        text = saved;
        // the process dies; what was saved is all that remains
        std::unique_ptr<fl::Engine> old(e.release());
        if (not exact and chance(1, 4))
            old.reset();
        count("fault:process death");
        Ended x = guarded([&] { e.reset(f.importer->fromFile("/sim/engine")); });
        if (x.threw)
            fail("C09:cannot be loaded", "%s: what was saved cannot be loaded: %s\n%s", f.name, x.what.c_str(), saved.c_str());
        std::string again = f.exporter->toString(e.get());
        if (again != saved)
            fail("C09:text differs", "%s: the engine loaded exports another text %s", f.name, util::difference(again, saved).c_str());
        forgetHistory(m);
        if (exact) {  // all digits are in the text
            old->restart();
            for (int i = 0; i < 4; ++i) {
                for (size_t k = 0; k < m.in.size(); ++k) {
                    double v = gen::sensor(s.inputs[k], true);
                    e->getInputVariable(k)->setValue(v);
                    old->getInputVariable(k)->setValue(v);
                }
                Ended a = guarded([&] { e->process(); }), b = guarded([&] { old->process(); });
                evaluated();
                if (a.threw != b.threw or (not a.threw and util::values(*e) != util::values(*old)))
                    fail("C09:behaves differently", "%s: what was saved with all its digits behaves differently when loaded: %s\n%s", f.name,
                         util::difference(util::values(*e), util::values(*old)).c_str(), saved.c_str());
            }
            e->restart();
        }
        if (inexact) {  // from the second generation on there are no hidden digits, so behaviour must be the same exactly
            std::unique_ptr<fl::Engine> twin(f.importer->fromString(again));
            for (int i = 0; i < 4; ++i) {
                for (size_t k = 0; k < m.in.size(); ++k) {
                    double v = gen::sensor(s.inputs[k], true);
                    e->getInputVariable(k)->setValue(v);
                    twin->getInputVariable(k)->setValue(v);
                }
                Ended a = guarded([&] { e->process(); }), b = guarded([&] { twin->process(); });
                evaluated();
                if (a.threw != b.threw or (not a.threw and util::values(*e) != util::values(*twin)))
                    fail("C09:behaves differently", "generations differ: %s", util::difference(util::values(*e), util::values(*twin)).c_str());
            }
        }
        state(hashOf(f.name) + (uint64_t)n * 3 + model::stateHash(m) * 16);
    }
    if (not inexact)
        for (int i = 0; i < 3; ++i) {
            model::setInputs(m, *e, chance(1, 3));
            trace("process");
            model::cycle(m, *e, "C09:behaves differently");
        }
    nontrivial();
}
static Property p("C09", run);
