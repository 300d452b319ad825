#include "ops.h"

#include <functional>

#include <cmath>

using namespace sim;
using namespace gen;
using model::Model;

namespace ops {
    EngineSpec spec(const gen::Options& o) {
        EngineSpec s = gen::engine(o);
        trace("engine:\n%s", fll(s).c_str());
        return s;
    }

    void restart(Model& m, fl::Engine& e) {
        trace("restart");
        e.restart();
        m.restart();
        for (size_t i = 0; i < m.in.size(); ++i)
            m.in[i] = NAN;
    }

    static void reloaded(Model& m, int b, int r) {
        RuleSpec& k = m.s.blocks[b].rules[r];
        m.rules[b][r] = model::RuleState();
        k.enabled = true;
        k.weight = k.weightInText ? k.textWeight : 1.0;
    }

    static void structure(Model& m, fl::Engine& e, const Options& o) {
        int ni = (int)m.s.inputs.size(), no = (int)m.s.outputs.size(), nb = (int)m.s.blocks.size();
        int b = draw(nb);
        fl::RuleBlock* rb = e.getRuleBlock(b);
        std::vector<RuleSpec>& specs = m.s.blocks[b].rules;
        std::vector<model::RuleState>& states = m.rules[b];
        switch (draw(12)) {
            case 0: {
                if (states.empty())
                    break;
                int r = draw((uint32_t)states.size());
                trace("remove rule %d.%d", b, r);
                delete rb->removeRule(r);
                specs.erase(specs.begin() + r);
                states.erase(states.begin() + r);
                break;
            }
            case 1: {
                if (states.size() >= 30)
                    break;
                int r = draw((uint32_t)states.size() + 1);
                RuleSpec n = gen::rule(m.s, o.gen);
                std::string text = m.s.ruleText(n);
                trace("insert rule %d.%d: %s", b, r, text.c_str());
                rb->insertRule(fl::Rule::parse(text, &e), r);
                specs.insert(specs.begin() + r, n);
                states.insert(states.begin() + r, model::RuleState());
                reloaded(m, b, r);
                break;
            }
            case 2:
                trace("load the rules of block %d", b);
                rb->loadRules(&e);
                for (size_t k = 0; k < states.size(); ++k)
                    reloaded(m, b, (int)k);
                break;
            case 3:
            case 4: {
                if (states.empty())
                    break;
                int r = draw((uint32_t)states.size()), how = draw(5);
                RuleSpec n = gen::rule(m.s, o.gen);
                std::string text = m.s.ruleText(n);
                trace("rule %d.%d becomes (way %d): %s", b, r, how, text.c_str());
                fl::Rule* rule = rb->getRule(r);
                if (how == 0)
                    rule->load(text, &e);
                else {
                    rule->setText(text);
                    if (how == 1)
                        rule->load(&e);
                    else if (how == 2)
                        rb->loadRules(&e);
                    else if (how == 3)
                        rb->reloadRules(&e);
                    else {
                        rb->removeRule(r);
                        rb->insertRule(rule, r);
                        rule->load(&e);
                    }
                }
                specs[r] = n;
                if (how == 2 or how == 3)
                    for (size_t k = 0; k < states.size(); ++k)
                        reloaded(m, b, (int)k);
                else
                    reloaded(m, b, r);
                break;
            }
            case 5: {
                int c = draw(nb);
                trace("swap blocks %d and %d", b, c);
                std::swap(e.ruleBlocks()[b], e.ruleBlocks()[c]);
                std::swap(m.s.blocks[b], m.s.blocks[c]);
                std::swap(m.rules[b], m.rules[c]);
                break;
            }
            case 6: {
                if (states.size() < 2)
                    break;
                int r = draw((uint32_t)states.size()), q = draw((uint32_t)states.size());
                trace("swap rules %d.%d and %d.%d", b, r, b, q);
                std::swap(rb->rules()[r], rb->rules()[q]);
                std::swap(specs[r], specs[q]);
                std::swap(states[r], states[q]);
                break;
            }
            case 7: {
                int i = draw(ni + no);
                VarSpec& v = m.s.var(i);
                if (v.terms.size() >= 12)
                    break;
                TermSpec t;
                std::string name = "new" + std::to_string(v.terms.size());
                std::string cls = v.output and not v.terms.empty() ? v.terms.back().cls : "";
                t = gen::term(name, v.min, v.max, m.s, o.gen, v.output, cls, o.gen.forward ? 1000 : i);
                trace("new term of %s: %s", v.name.c_str(), t.fll().c_str());
                fl::Variable* real = i < ni ? (fl::Variable*)e.getInputVariable(i) : e.getOutputVariable(i - ni);
                real->addTerm(buildTerm(t, &e));
                v.terms.push_back(t);
                break;
            }
            case 8: {
                int i = draw(no);
                VarSpec& v = m.s.outputs[i];
                if (v.terms.empty())
                    break;
                int t = draw((uint32_t)v.terms.size());
                TermSpec n = gen::term(v.terms[t].name, v.min, v.max, m.s, o.gen, true, v.terms[t].cls, o.gen.forward ? 1000 : ni + i);
                if (n.height == 1.0)
                    n.height = v.terms[t].height;
                trace("output %s term %s", v.name.c_str(), n.fll().c_str());
                gen::setConstants(e.getOutputVariable(i)->getTerm(t), n);
                if (n.cls == "Function" or n.route < 3)
                    e.getOutputVariable(i)->getTerm(t)->configure(n.parameters());
                else
                    gen::setParts(e.getOutputVariable(i)->getTerm(t), n, &e);
                v.terms[t] = n;
                break;
            }
            case 9: {
                int i = draw(ni);
                VarSpec& v = m.s.inputs[i];
                fl::InputVariable* in = e.getInputVariable(i);
                if (chance(1, 2)) {
                    v.lock = not v.lock;
                    trace("input %s lock-range=%d", v.name.c_str(), v.lock);
                    in->setLockValueInRange(v.lock);
                } else {
                    v.min = grid(-10, 5);
                    v.max = v.min + grid(1, 10);
                    trace("input %s range=%s %s", v.name.c_str(), num(v.min).c_str(), num(v.max).c_str());
                    in->setRange(v.min, v.max);
                }
                break;
            }
            case 10: {
                if (nb >= 6)
                    break;
                BlockSpec n;
                n.name = "more";
                n.conjunction = norm(true);
                n.disjunction = norm(false);
                n.implication = norm(true);
                n.activation = activation();
                for (int r = range(0, 3); r > 0; --r)
                    n.rules.push_back(gen::rule(m.s, o.gen));
                for (auto& r : n.rules) {
                    r.enabled = true;
                    r.weight = r.weightInText ? r.textWeight : 1.0;
                }
                trace("new block at %d", b);
                e.insertRuleBlock(buildBlock(m.s, n, &e), b);
                m.s.blocks.insert(m.s.blocks.begin() + b, n);
                m.rules.insert(m.rules.begin() + b, std::vector<model::RuleState>(n.rules.size()));
                break;
            }
            default: {
                if (nb < 2)
                    break;
                // what the outputs still hold of the last cycle refers to the implication of the block
                for (int i = 0; i < no; ++i)
                    e.getOutputVariable(i)->fuzzyOutput()->clear(), m.out[i].fuzzy.clear();
                trace("remove block %d", b);
                delete e.removeRuleBlock(b);
                m.s.blocks.erase(m.s.blocks.begin() + b);
                m.rules.erase(m.rules.begin() + b);
            }
        }
    }

    void mutate(Model& m, fl::Engine& e, const Options& o) {
        int ni = (int)m.s.inputs.size(), no = (int)m.s.outputs.size(), nb = (int)m.s.blocks.size();
        int what = weighted({o.toggles ? 6 : 0, o.weights ? 2 : 0, o.reconfigure ? 8 : 0, o.rules ? 3 : 0, o.outputValues ? 1 : 0, 1, o.structure ? 4 : 0});
        switch (what) {
            case 0: {
                int k = weighted({2, 2, 3, 2});
                if (k == 0) {
                    int i = draw(ni);
                    bool v = not m.s.inputs[i].enabled;
                    trace("input %s enabled=%d", m.s.inputs[i].name.c_str(), v);
                    m.s.inputs[i].enabled = v;
                    e.getInputVariable(i)->setEnabled(v);
                } else if (k == 1) {
                    int i = draw(no);
                    bool v = not m.s.outputs[i].enabled;
                    trace("output %s enabled=%d", m.s.outputs[i].name.c_str(), v);
                    m.s.outputs[i].enabled = v;
                    e.getOutputVariable(i)->setEnabled(v);
                } else {
                    int b = draw(nb);
                    if (k == 2 and not m.rules[b].empty()) {
                        int r = draw((uint32_t)m.rules[b].size());
                        bool v = not m.s.blocks[b].rules[r].enabled;
                        trace("rule %d.%d enabled=%d", b, r, v);
                        m.s.blocks[b].rules[r].enabled = v;
                        e.getRuleBlock(b)->getRule(r)->setEnabled(v);
                    } else {
                        bool v = not m.s.blocks[b].enabled;
                        trace("block %d enabled=%d", b, v);
                        m.s.blocks[b].enabled = v;
                        e.getRuleBlock(b)->setEnabled(v);
                    }
                }
                count("op:toggle");
                break;
            }
            case 1: {
                int b = draw(nb);
                if (m.rules[b].empty())
                    break;
                int r = draw((uint32_t)m.rules[b].size());
                double w = grid(0, 1.5);
                trace("rule %d.%d weight=%s", b, r, num(w).c_str());
                m.s.blocks[b].rules[r].weight = w;
                e.getRuleBlock(b)->getRule(r)->setWeight(w);
                count("op:weight");
                break;
            }
            case 2: {
                count("op:reconfigure");
                if (o.gen.constants and chance(1, 4)) {
                    // the constants of a formula
                    std::vector<std::pair<int, int>> c;
                    for (int i = 0; i < ni + no; ++i)
                        for (size_t t = 0; t < m.s.var(i).terms.size(); ++t) {
                            std::map<std::string, double> values;
                            gen::constants(m.s.var(i).terms[t].formula, values);
                            if (not values.empty())
                                c.push_back({i, (int)t});
                        }
                    if (not c.empty()) {
                        auto at = pick(c);
                        TermSpec& spec = m.s.var(at.first).terms[at.second];
                        double a = grid(-2, 2), b = grid(-2, 2);
                        trace("term %s of %s: gain=%s offset=%s", spec.name.c_str(), m.s.var(at.first).name.c_str(), num(a).c_str(), num(b).c_str());
                        std::function<void(gen::Formula&)> set = [&](gen::Formula& f) {
                            if (f.constant)
                                f.number = f.name == "gain" ? a : b;
                            for (auto& g : f.args)
                                set(g);
                        };
                        set(spec.formula);
                        fl::Variable* v = at.first < ni ? (fl::Variable*)e.getInputVariable(at.first) : e.getOutputVariable(at.first - ni);
                        gen::setConstants(v->getTerm(at.second), spec);
                        break;
                    }
                }
                int k = draw(10);
                if (k <= 3) {
                    int b = draw(nb);
                    BlockSpec& s = m.s.blocks[b];
                    fl::RuleBlock* rb = e.getRuleBlock(b);
                    bool none = o.missing and chance(1, 4);
                    if (k == 0) {
                        s.conjunction = none ? "" : norm(true);
                        trace("block %d conjunction=%s", b, s.conjunction.c_str());
                        rb->setConjunction(gen::tnorm(s.conjunction));
                    } else if (k == 1) {
                        s.disjunction = none ? "" : norm(false);
                        trace("block %d disjunction=%s", b, s.disjunction.c_str());
                        rb->setDisjunction(gen::snorm(s.disjunction));
                    } else if (k == 2) {
                        s.implication = none ? "" : norm(true);
                        trace("block %d implication=%s", b, s.implication.c_str());
                        rb->setImplication(gen::tnorm(s.implication));
                        // fuzzy outputs of the last cycle refer to the operator that has just been replaced; the
                        // documentation asks for nothing here, so they are not looked at until the next cycle
                        for (int i = 0; i < no; ++i)
                            e.getOutputVariable(i)->fuzzyOutput()->clear(), m.out[i].fuzzy.clear();
                    } else {
                        if (not s.activation.cls.empty() and chance(1, 2)) {  // the same one is adjusted
                            ActivationSpec n = activation();
                            n.cls = s.activation.cls;
                            if (chance(1, 2))
                                n.threshold = chance(1, 2) ? 0.0 : s.activation.threshold;
                            if (chance(1, 4))
                                n.comparison = s.activation.comparison;
                            s.activation = n;
                            trace("block %d activation=%s %s, adjusted", b, n.cls.c_str(), n.parameters().c_str());
                            gen::setParts(rb->getActivation(), n, range(0, 3));
                            break;
                        }
                        s.activation = chance(1, 8) ? ActivationSpec() : activation();
                        trace("block %d activation=%s %s", b, s.activation.cls.c_str(), s.activation.parameters().c_str());
                        rb->setActivation(buildActivation(s.activation));
                    }
                } else if (k <= 8) {
                    int i = draw(no);
                    VarSpec& v = m.s.outputs[i];
                    fl::OutputVariable* out = e.getOutputVariable(i);
                    if (k == 4) {
                        bool was = v.defuzzifier.find("Weighted") == 0;
                        if (o.missing and chance(1, 4))
                            v.defuzzifier = "";
                        else if (was) {
                            v.defuzzifier = chance(1, 3) ? "WeightedSum" : "WeightedAverage";
                        } else {
                            gen::defuzzifier(v, o.gen);
                            if (v.aggregation.empty() and not o.missing) {
                                v.aggregation = "Maximum";
                                out->setAggregation(gen::snorm(v.aggregation));
                            }
                        }
                        trace("output %s defuzzifier=%s %d", v.name.c_str(), v.defuzzifier.c_str(), v.resolution);
                        out->setDefuzzifier(buildDefuzzifier(v));
                    } else if (k == 5) {
                        v.aggregation = o.missing and chance(1, 4) ? "" : norm(false);
                        trace("output %s aggregation=%s", v.name.c_str(), v.aggregation.c_str());
                        out->setAggregation(gen::snorm(v.aggregation));
                    } else if (k == 6) {
                        v.lock = not v.lock;
                        trace("output %s lock-range=%d", v.name.c_str(), v.lock);
                        out->setLockValueInRange(v.lock);
                    } else if (k == 7) {
                        v.lockPrevious = not v.lockPrevious;
                        v.def = chance(1, 3) ? NAN : grid(-5, 5);
                        trace("output %s lock-previous=%d default=%s", v.name.c_str(), v.lockPrevious, num(v.def).c_str());
                        out->setLockPreviousValue(v.lockPrevious);
                        out->setDefaultValue(v.def);
                    } else {
                        v.min = grid(-10, 5);
                        v.max = v.min + grid(1, 10);
                        trace("output %s range=%s %s", v.name.c_str(), num(v.min).c_str(), num(v.max).c_str());
                        out->setRange(v.min, v.max);
                    }
                } else {
                    // new parameters for an input term
                    std::vector<int> c;
                    for (int i = 0; i < ni; ++i)
                        if (not m.s.inputs[i].terms.empty())
                            c.push_back(i);
                    if (c.empty())
                        break;
                    int i = pick(c), t = draw((uint32_t)m.s.inputs[i].terms.size());
                    TermSpec& old = m.s.inputs[i].terms[t];
                    std::string cls = old.cls;
                    double h = old.height;
                    TermSpec n = gen::term(old.name, m.s.inputs[i].min, m.s.inputs[i].max, m.s, o.gen, false, cls, o.gen.forward ? 1000 : i);
                    if (n.height == 1.0)
                        n.height = h;
                    old = n;
                    trace("input %s term %s", m.s.inputs[i].name.c_str(), n.fll().c_str());
                    gen::setConstants(e.getInputVariable(i)->getTerm(t), n);
                    e.getInputVariable(i)->getTerm(t)->configure(n.parameters());
                }
                break;
            }
            case 3: {
                count("op:rules");
                int b = draw(nb);
                if (m.rules[b].empty())
                    break;
                int r = draw((uint32_t)m.rules[b].size());
                fl::Rule* rule = e.getRuleBlock(b)->getRule(r);
                switch (draw(5)) {
                    case 0:
                        trace("unload rule %d.%d", b, r);
                        rule->unload();
                        m.rules[b][r].loaded = false;
                        m.rules[b][r].degree = 0;
                        m.rules[b][r].triggered = false;
                        break;
                    case 1:
                        trace("load rule %d.%d", b, r);
                        if (rule->isLoaded())
                            rule->unload();
                        rule->load(&e);
                        reloaded(m, b, r);
                        break;
                    case 2:
                        trace("reload block %d", b);
                        e.getRuleBlock(b)->reloadRules(&e);
                        for (size_t k = 0; k < m.rules[b].size(); ++k)
                            reloaded(m, b, (int)k);
                        break;
                    case 3: {
                        RuleSpec n = gen::rule(m.s, o.gen);
                        std::string text = m.s.ruleText(n);
                        trace("rule %d.%d becomes: %s", b, r, text.c_str());
                        rule->unload();
                        rule->load(text, &e);
                        m.s.blocks[b].rules[r] = n;
                        reloaded(m, b, r);
                        break;
                    }
                    default: {
                        if (m.rules[b].size() >= 8)
                            break;
                        RuleSpec n = gen::rule(m.s, o.gen);
                        n.enabled = true;
                        std::string text = m.s.ruleText(n);
                        trace("new rule in block %d: %s", b, text.c_str());
                        e.getRuleBlock(b)->addRule(fl::Rule::parse(text, &e));
                        m.s.blocks[b].rules.push_back(n);
                        m.rules[b].push_back(model::RuleState());
                        reloaded(m, b, (int)m.rules[b].size() - 1);
                    }
                }
                break;
            }
            case 4: {
                count("op:output value");
                int i = draw(no);
                double v = chance(1, 4) ? NAN : grid(-12, 12);
                bool prev = chance(1, 3);
                trace("output %s %s=%s", m.s.outputs[i].name.c_str(), prev ? "previous" : "value", num(v).c_str());
                const VarSpec& s = m.s.outputs[i];
                if (prev) {
                    e.getOutputVariable(i)->setPreviousValue(v);
                    m.out[i].previous = v;
                } else {
                    e.getOutputVariable(i)->setValue(v);
                    m.out[i].value = not s.lock or v != v ? v : std::min(std::max(v, s.min), s.max);
                    m.results[i] = model::Result();
                    m.results[i].value = m.out[i].value;
                }
                break;
            }
            case 5:
                count("op:restart");
                restart(m, e);
                break;
            default:
                count("op:structure");
                structure(m, e, o);
        }
    }

    void history(Model& m, fl::Engine& e, int steps, const Options& o, const char* cls) {
        for (int i = 0; i < steps; ++i) {
            if (chance(1, 3))
                mutate(m, e, o);
            model::setInputs(m, e, o.faults);
            trace("process");
            model::cycle(m, e, cls);
        }
    }
}
