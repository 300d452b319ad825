// C17: what an engine reports about itself.
#include <cmath>
#include <set>
#include <sstream>

#include "guard.h"
#include "ops.h"
#include "util.h"

using namespace sim;

namespace {
    bool uses(const gen::Expr& e, const char* op) {
        if (e.op == op)
            return true;
        for (auto& a : e.args)
            if (uses(a, op))
                return true;
        return false;
    }
    bool integral(const gen::VarSpec& v) {
        return not v.defuzzifier.empty() and v.defuzzifier != "WeightedAverage" and v.defuzzifier != "WeightedSum";
    }
    // What is missing: per name of a variable or rule block. `surely`: only what the enabled parts and the rules loaded need.
    std::vector<std::string> missing(const model::Model& m, bool surely) {
        std::vector<std::string> r;
        for (auto& v : m.s.outputs)
            if (v.enabled or not surely)
                if (v.terms.empty() or v.defuzzifier.empty() or (integral(v) and v.aggregation.empty()))
                    r.push_back(v.name);
        for (size_t b = 0; b < m.s.blocks.size(); ++b) {
            const gen::BlockSpec& block = m.s.blocks[b];
            if (surely and not block.enabled)
                continue;
            bool lacks = block.rules.empty();
            for (size_t k = 0; k < block.rules.size(); ++k) {
                const gen::RuleSpec& rule = block.rules[k];
                if (surely and (not m.rules[b][k].loaded or not rule.enabled))
                    continue;
                lacks = lacks or (block.conjunction.empty() and uses(rule.antecedent, "and"));
                lacks = lacks or (block.disjunction.empty() and uses(rule.antecedent, "or"));
                for (auto& p : rule.consequent)
                    lacks = lacks or (block.implication.empty() and integral(m.s.var(p.var)) and (m.s.var(p.var).enabled or not surely));
            }
            if (lacks)
                r.push_back(block.name);
        }
        if (m.s.inputs.empty() or m.s.outputs.empty() or m.s.blocks.empty())
            r.push_back("");
        return r;
    }
    // the cycle that failed would have succeeded with the missing parts
    bool forWant(model::Model m) {
        for (auto& v : m.s.outputs) {
            if (v.aggregation.empty())
                v.aggregation = "Maximum";
            if (v.defuzzifier.empty())
                v.defuzzifier = "Centroid";
        }
        for (auto& b : m.s.blocks) {
            if (b.conjunction.empty())
                b.conjunction = "Minimum";
            if (b.disjunction.empty())
                b.disjunction = "Maximum";
            if (b.implication.empty())
                b.implication = "Minimum";
        }
        try {
            m.process(nullptr);
        } catch (model::Undefined&) {
            return false;
        }
        return true;
    }
    // the same rule in another spacing
    std::string spaced(const std::string& text) {
        std::istringstream in(text);
        std::vector<std::string> tokens;
        for (std::string t; in >> t;)
            tokens.push_back(t);
        std::string r;
        bool antecedent = false;
        for (size_t i = 0; i < tokens.size(); ++i) {
            const std::string& t = tokens[i];
            if (t == "then")
                antecedent = false;
            bool glued = false;
            if (antecedent and i and tokens[i - 1] != "if")
                glued = (t == "(" and tokens[i - 1] != "is") or tokens[i - 1] == ")" or tokens[i - 1] == "(" or t == ")";
            if (i and not(glued and chance(1, 2)))
                r += pick(std::vector<std::string>{" ", " ", "  ", "\t", " \t "});
            r += t;
            if (t == "if")
                antecedent = true;
        }
        return r;
    }

    bool shown(const std::string& t, double v) {
        if (v != v)
            return t == "nan";
        if (std::isinf(v))
            return t == (v > 0 ? "inf" : "-inf");
        char* end;
        double d = strtod(t.c_str(), &end);
        return not t.empty() and not *end and (std::fabs(d - v) <= 0.000501 or (d == 0.0 and std::fabs(v) <= 0.001001));
    }
    void fuzzyValue(const std::string& text, const std::vector<std::pair<std::string, double>>& terms, const char* what) {
        size_t pos = 0;
        std::string expected;
        for (auto& t : terms)
            expected += gen::num(t.second, 6) + "/" + t.first + " ";
        for (size_t i = 0; i < terms.size(); ++i) {
            double sign = 1;
            if (i) {
                bool ok = text.compare(pos, 3, " + ") == 0 or text.compare(pos, 3, " - ") == 0;
                if (not ok)
                    fail("C17:fuzzy value", "%s: <%s> instead of <%s>", what, text.c_str(), expected.c_str());
                sign = text[pos + 1] == '-' ? -1 : 1;
                pos += 3;
            } else if (text.compare(0, 1, "-") == 0) {
                sign = -1;
                pos = 1;
            }
            size_t slash = text.find('/', pos);
            if (slash == std::string::npos or text.compare(slash + 1, terms[i].first.size(), terms[i].first) != 0
                or not shown((sign < 0 ? "-" : "") + text.substr(pos, slash - pos), terms[i].second))
                fail("C17:fuzzy value", "%s: term %s of <%s> instead of <%s>", what, terms[i].first.c_str(), text.c_str(), expected.c_str());
            pos = slash + 1 + terms[i].first.size();
        }
        if (pos != text.size())
            fail("C17:fuzzy value", "%s: <%s> instead of <%s>", what, text.c_str(), expected.c_str());
    }
    void highest(const std::vector<double>& degrees, int term, double degree, const char* what) {
        double top = 0;
        for (double d : degrees)
            if (d > top)
                top = d;
        bool right = term < 0 ? top < 1e-9 : model::near(degrees[term], top, 1e-6) and model::near(degree, degrees[term], 1e-6);
        if (not right)
            fail("C17:highest term", "%s: term %d with %s, but the highest of %zu degrees is %s", what, term, gen::num(degree, 6).c_str(), degrees.size(),
                 gen::num(top, 6).c_str());
    }
    int indexOf(const fl::Variable* v, const fl::Term* t) {
        for (size_t i = 0; i < v->numberOfTerms(); ++i)
            if (v->getTerm(i) == t)
                return (int)i;
        return -1;
    }

    // as many of the n attempts to get memory succeed as drawn; a report that ends is complete
    template <class F>
    void report(fl::Engine& e, const char* what, F f) {
        std::string before = util::snapshot(e);
        if (chance(1, 4)) {
            int n = range(1, chance(1, 2) ? 8 : 80);
            bool persistent = chance(1, 2);
            Ended r;
            {
                mem::begin();
                mem::failAt(n, persistent);
                r = guarded([&] {
                    std::string text;
                    e.isReady(&text);
                    e.type(&text, &text);
                    for (auto* v : e.outputVariables()) {
                        v->fuzzyOutputValue();
                        v->fuzzyOutput()->groupedTerms();
                        v->fuzzyOutput()->highestActivatedTerm();
                    }
                });
                mem::end();
                mem::forget();
            }
            if (r.oom)
                count("fault:exhausted memory");
            else if (r.threw)
                fail("C17:report failed", "asking for reports failed: %s", r.what.c_str());
        }
        f();
        if (util::snapshot(e) != before)
            fail("C17:asking", "asking for %s changed the engine %s", what, util::difference(util::snapshot(e), before).c_str());
    }
    void readiness(const model::Model& m, fl::Engine& e) {
        std::string status = "unchanged";
        bool ready = e.isReady(&status), again = e.isReady();
        trace("ready: %d %s", ready, status.c_str());
        evaluated();
        if (ready != again or ready != status.empty())
            fail("C17:readiness", "ready is %d, then %d, with the status <%s>", ready, again, status.c_str());
        std::vector<std::string> sure = missing(m, true);
        if (ready and not sure.empty())
            fail("C17:ready", "the engine reports to be ready although parts are missing in '%s'", sure[0].c_str());
        if (not ready and missing(m, false).empty())
            fail("C17:not ready", "nothing is missing but the engine reports: %s", status.c_str());
        for (auto& n : sure)
            if (status.find(n) == std::string::npos)
                fail("C17:status", "the status does not mention '%s': %s", n.c_str(), status.c_str());
        state(hashOf("ready") + ready * 2 + sure.size() * 4);
    }
    std::string kindOf(const model::Model& m) {
        bool mamdani = true, larsen = true, sugeno = true, tsukamoto = true, weighted = true, complete = true;
        for (auto& v : m.s.outputs) {
            bool w = not v.defuzzifier.empty() and not integral(v);
            mamdani = mamdani and integral(v);
            weighted = weighted and w;
            complete = complete and not v.defuzzifier.empty();
            sugeno = sugeno and w and v.type != "Tsukamoto";
            tsukamoto = tsukamoto and w and v.type != "TakagiSugeno";
            for (auto& t : v.terms) {
                sugeno = sugeno and (t.cls == "Constant" or t.cls == "Linear" or t.cls == "Function");
                tsukamoto = tsukamoto
                            and (t.cls == "Concave" or t.cls == "Ramp" or t.cls == "Sigmoid" or t.cls == "SShape" or t.cls == "ZShape");
            }
        }
        for (auto& b : m.s.blocks)
            larsen = larsen and b.implication == "AlgebraicProduct";
        if (m.s.outputs.empty())
            return "Unknown";
        if (mamdani)
            return larsen and not m.s.blocks.empty() ? "Larsen" : "Mamdani";
        return sugeno ? "Takagi-Sugeno" : tsukamoto ? "Tsukamoto" : weighted ? "Inverse Tsukamoto" : complete ? "Hybrid" : "Unknown";
    }
    void kind(const model::Model& m, fl::Engine& e) {
        static const std::vector<std::pair<fl::Engine::Type, std::string>> kinds = {
            {fl::Engine::Mamdani, "Mamdani"}, {fl::Engine::Larsen, "Larsen"}, {fl::Engine::TakagiSugeno, "Takagi-Sugeno"},
            {fl::Engine::Tsukamoto, "Tsukamoto"}, {fl::Engine::InverseTsukamoto, "Inverse Tsukamoto"}, {fl::Engine::Hybrid, "Hybrid"},
            {fl::Engine::Unknown, "Unknown"}};
        std::string name = "unchanged", reason, expected = kindOf(m);
        fl::Engine::Type type = e.type(&name, &reason), again = e.type();
        evaluated();
        state(hashOf("kind " + expected));
        for (auto& k : kinds)
            if ((k.first == type) != (k.second == expected))
                fail("C17:type", "the engine reports to be %d, <%s>, instead of %s", (int)type, name.c_str(), expected.c_str());
        if (type != again or name != expected or reason.empty())
            fail("C17:type", "the engine reports to be %d and then %d, <%s> for <%s>, instead of %s", (int)type, (int)again, name.c_str(), reason.c_str(),
                 expected.c_str());
    }
    // after a cycle that ended normally
    void reports(const model::Model& m, fl::Engine& e) {
        evaluated();
        for (size_t i = 0; i < m.out.size(); ++i) {
            fl::OutputVariable* o = e.getOutputVariable(i);
            const gen::VarSpec& v = m.s.outputs[i];
            std::vector<double> single, grouped(v.terms.size(), 0.0);
            std::vector<int> times(v.terms.size(), 0);
            for (auto& a : m.out[i].fuzzy) {
                single.push_back(a.degree);
                double& g = grouped[a.term];
                g = times[a.term]++ == 0 ? a.degree : v.aggregation.empty() ? g + a.degree : model::snorm(v.aggregation, g, a.degree);
            }
            size_t groups = 0;
            for (size_t t = 0; t < v.terms.size(); ++t) {
                groups += times[t] > 0;
                double d = o->fuzzyOutput()->activationDegree(o->getTerm(t)), x = m.fuzzyDegree((int)i, (int)t);
                if (not model::near(d, x, 1e-6))
                    fail("C17:activation degree", "output %s, term %s: %s instead of %s", v.name.c_str(), v.terms[t].name.c_str(), gen::num(d, 9).c_str(),
                         gen::num(x, 9).c_str());
            }
            std::vector<fl::Activated> g = o->fuzzyOutput()->groupedTerms();
            if (g.size() != groups)
                fail("C17:groups", "output %s: %zu groups instead of %zu", v.name.c_str(), g.size(), groups);
            for (auto& a : g) {
                int t = indexOf(o, a.getTerm());
                if (t < 0 or not times[t] or not model::near(a.getDegree(), grouped[t], 1e-6))
                    fail("C17:groups", "output %s: group of term %d with %s", v.name.c_str(), t, gen::num(a.getDegree(), 9).c_str());
            }
            fl::Activated top = o->fuzzyOutput()->highestActivatedTerm();
            int t = top.getTerm() ? indexOf(o, top.getTerm()) : -1;
            double best = 0, best2 = -1;
            for (auto& a : m.out[i].fuzzy) {
                best = std::max(best, a.degree);
                if (a.term == t and model::near(a.degree, top.getDegree(), 1e-6))
                    best2 = std::max(best2, a.degree);
            }
            if (t < 0 ? best > 1e-9 : not model::near(best, best2, 1e-6))
                fail("C17:highest term", "output %s: term %d with %s instead of one with %s", v.name.c_str(), t, gen::num(top.getDegree(), 9).c_str(),
                     gen::num(best, 9).c_str());
            std::vector<std::pair<std::string, double>> terms;
            for (size_t k = 0; k < v.terms.size(); ++k)
                terms.push_back({v.terms[k].name, grouped[k]});
            fuzzyValue(o->fuzzyOutputValue(), terms, v.name.c_str());
            // the kind of weighted defuzzifier that the terms call for
            if (auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(o->getDefuzzifier())) {
                std::set<int> types;
                for (auto& k : v.terms)
                    types.insert(k.cls == "Constant" or k.cls == "Linear" or k.cls == "Function" ? fl::WeightedDefuzzifier::TakagiSugeno
                                 : k.cls == "Ramp" or k.cls == "Concave" or k.cls == "SShape" or k.cls == "ZShape" or k.cls == "Sigmoid"
                                     ? fl::WeightedDefuzzifier::Tsukamoto
                                     : fl::WeightedDefuzzifier::Automatic);
                int is = -1;
                Ended x = guarded([&] { is = w->inferType(o); });
                if (types.size() > 1 ? x.ok() : x.threw or is != (types.empty() ? (int)fl::WeightedDefuzzifier::Automatic : *types.begin()))
                    fail("C17:type of defuzzifier", "output %s: type %d from terms of %zu types", v.name.c_str(), is, types.size());
            }
        }
        for (size_t i = 0; i < m.in.size() + m.out.size(); ++i) {
            const gen::VarSpec& v = m.s.var((int)i);
            fl::Variable* real = e.variables().at(i);
            double x = chance(1, 2) ? real->getValue() : gen::sensor(v, chance(1, 4));
            std::vector<double> degrees;
            std::vector<std::pair<std::string, double>> terms;
            try {
                for (auto& t : v.terms) {
                    degrees.push_back(m.membership(t, x));
                    terms.push_back({t.name, degrees.back()});
                }
            } catch (model::Undefined&) { continue; }
            double y = -1;
            fl::Term* t = real->highestMembership(x, &y);
            highest(degrees, t ? indexOf(real, t) : -1, y, v.name.c_str());
            fuzzyValue(real->fuzzify(x), terms, v.name.c_str());
        }
    }
}

// parts are taken away, all of a kind or all of one of them, and given to another engine
static void strip(model::Model& m, fl::Engine& e) {
    static const char* kinds[] = {"inputs", "outputs", "rule blocks", "terms of an output", "rules of a block"};
    int kind = draw(5);
    trace("without %s", kinds[kind]);
    count("op:parts taken away");
    auto unload = [&] {
        for (size_t b = 0; b < m.s.blocks.size(); ++b) {
            e.getRuleBlock(b)->unloadRules();
            for (auto& r : m.rules[b])
                r = model::RuleState(), r.loaded = false;
        }
    };
    for (size_t i = 0; i < e.numberOfOutputVariables(); ++i) {
        e.getOutputVariable(i)->fuzzyOutput()->clear();
        m.out[i].fuzzy.clear();
    }
    if (kind < 2)
        for (auto& b : m.s.blocks)
            for (auto& r : b.rules)
                r.consequent.clear();
    switch (kind) {
        case 0:
            unload();
            while (e.numberOfInputVariables())
                delete e.removeInputVariable(draw((uint32_t)e.numberOfInputVariables()));
            m.s.inputs.clear();
            break;
        case 1:
            unload();
            while (e.numberOfOutputVariables())
                delete e.removeOutputVariable(draw((uint32_t)e.numberOfOutputVariables()));
            m.s.outputs.clear();
            m.out.clear();
            break;
        case 2:
            while (e.numberOfRuleBlocks())
                delete e.removeRuleBlock(draw((uint32_t)e.numberOfRuleBlocks()));
            m.s.blocks.clear();
            m.rules.clear();
            break;
        case 3: {
            if (m.s.outputs.empty())
                return;
            unload();
            size_t i = draw((uint32_t)m.s.outputs.size());
            while (e.getOutputVariable(i)->numberOfTerms())
                delete e.getOutputVariable(i)->removeTerm(0);
            m.s.outputs[i].terms.clear();
            break;
        }
        default: {
            if (m.s.blocks.empty())
                return;
            size_t i = draw((uint32_t)m.s.blocks.size());
            while (e.getRuleBlock(i)->numberOfRules())
                delete e.getRuleBlock(i)->removeRule(0);
            m.s.blocks[i].rules.clear();
            m.rules[i].clear();
        }
    }
    report(e, "the state", [&] {
        readiness(m, e);
        ::kind(m, e);
    });
}

static void run() {
    gen::Options g;
    g.missing = chance(1, 2);
    g.inactiveRules = true;
    gen::EngineSpec s = ops::spec(g);
    model::Model m(s);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    if (chance(1, 2))
        for (auto* b : e->ruleBlocks())
            for (auto* r : b->rules())
                if (r->isLoaded()) {
                    bool enabled = r->isEnabled();
                    double weight = r->getWeight();
                    r->load(spaced(r->getText()), e.get());
                    r->setEnabled(enabled);
                    r->setWeight(weight);
                    trace("spacing: %s", r->getText().c_str());
                }
    ops::Options o;
    o.missing = true;
    o.gen = g;
    o.structure = true;
    int steps = range(2, thorough() ? 30 : 10);
    for (int i = 0; i < steps; ++i) {
        for (int k = weighted({3, 4, 2, 1}); k > 0; --k)
            ops::mutate(m, *e, o);
        if (chance(9, 10))
            model::setInputs(m, *e, chance(1, 2));
        bool ready = false;
        if (chance(3, 4)) {
            report(*e, "the state", [&] {
                readiness(m, *e);
                kind(m, *e);
            });
            ready = e->isReady();
        }
        trace("process");
        model::Model start = m;
        Ended p = guarded([&] { e->process(); });
        if (p.threw) {
            count("cycles failed");
            if (ready and forWant(start))
                fail("C17:ready", "the engine reported to be ready but the cycle failed: %s", p.what.c_str());
        }
        model::judge(m, *e, "C17:cycle", p.threw, p.what);
        if (not p.threw)
            report(*e, "the degrees", [&] { reports(m, *e); });
    }
    if (chance(1, 4)) {
        strip(m, *e);
        if (chance(1, 2))
            strip(m, *e);
        guarded([&] { e->process(); });
    }
    nontrivial();
}
static Property p("C17", run);
