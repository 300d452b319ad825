// C04: copies of engines and of their parts, interleaved with everything that can be done to them.
#include "guard.h"
#include "ops.h"

using namespace sim;

namespace {
    struct Slot {
        int id;
        std::unique_ptr<fl::Engine> e;
        model::Model m;
        ops::Options o;
    };
    typedef std::unique_ptr<Slot> SlotP;

    void addresses(const fl::Engine& e, std::vector<const void*>& r) {
        for (auto* v : e.variables()) {
            r.push_back(v);
            for (auto* t : v->terms())
                r.push_back(t);
        }
        for (auto* v : e.outputVariables()) {
            r.push_back(v->fuzzyOutput());
            r.push_back(v->getAggregation());
            r.push_back(v->getDefuzzifier());
        }
        for (auto* b : e.ruleBlocks()) {
            r.push_back(b);
            r.push_back(b->getConjunction());
            r.push_back(b->getDisjunction());
            r.push_back(b->getImplication());
            r.push_back(b->getActivation());
            for (auto* k : b->rules()) {
                r.push_back(k);
                r.push_back(k->getAntecedent());
                r.push_back(k->getConsequent());
            }
        }
    }

    void sameNow(const fl::Engine& a, const fl::Engine& b, const char* how) {
        // nothing shared
        std::vector<const void*> x, y;
        addresses(a, x);
        addresses(b, y);
        for (auto* p : x)
            for (auto* q : y)
                if (p and p == q)
                    fail("C04:shared component", "the %s shares a component with the original", how);
        if (fl::FllExporter().toString(&a) != fl::FllExporter().toString(&b))
            fail("C04:incomplete copy", "the %s is exported as\n%s\ninstead of\n%s", how, fl::FllExporter().toString(&b).c_str(),
                 fl::FllExporter().toString(&a).c_str());
        auto num = [](double u, double v) { return (u != u and v != v) or u == v; };
        for (size_t i = 0; i < a.numberOfInputVariables(); ++i)
            if (not num(a.getInputVariable(i)->getValue(), b.getInputVariable(i)->getValue()))
                fail("C04:incomplete copy", "the %s has another input value", how);
        for (size_t i = 0; i < a.numberOfOutputVariables(); ++i) {
            const fl::OutputVariable *u = a.getOutputVariable(i), *v = b.getOutputVariable(i);
            if (not num(u->getValue(), v->getValue()) or not num(u->getPreviousValue(), v->getPreviousValue()))
                fail("C04:incomplete copy", "the %s has another output value or previous value", how);
            if (u->fuzzyOutputValue() != v->fuzzyOutputValue())
                fail("C04:incomplete copy", "the %s reports <%s> instead of <%s>", how, v->fuzzyOutputValue().c_str(),
                     u->fuzzyOutputValue().c_str());
            if (u->fuzzyOutput()->toString() != v->fuzzyOutput()->toString())
                fail("C04:incomplete copy", "the %s has fuzzy output <%s> instead of <%s>", how, v->fuzzyOutput()->toString().c_str(),
                     u->fuzzyOutput()->toString().c_str());
            for (auto& t : v->fuzzyOutput()->terms()) {
                bool own = false;
                for (auto* k : v->terms())
                    own = own or k == t.getTerm();
                if (not own)
                    fail("C04:shared component", "the fuzzy output of the %s refers to a term of another engine", how);
                if (t.getImplication()) {
                    own = false;
                    for (auto* k : b.ruleBlocks())
                        own = own or k->getImplication() == t.getImplication();
                    if (not own)
                        fail("C04:shared component", "the fuzzy output of the %s refers to an operator of another engine", how);
                }
            }
        }
    }

    double grid() {
        return draw(9) / 8.0;
    }
    // a part is copied on its own and outlives the original
    void copyPart(Slot& s, bool assign) {
        fl::Engine& e = *s.e;
        switch (draw(7)) {
            case 6: {  // hedges, and activated terms
                fl::HedgeFactory* f = fl::FactoryManager::instance()->hedge();
                std::vector<std::string> names = gen::HEDGES;
                names.push_back("any");
                trace("copies of hedges");
                std::vector<std::unique_ptr<fl::Hedge>> from, to;
                for (auto& n : names) {
                    from.emplace_back(chance(1, 3) ? new fl::HedgeFunction("min(1.0, x * 1.25)", n) : f->constructObject(n));
                    if (assign and dynamic_cast<fl::HedgeFunction*>(from.back().get())) {
                        std::unique_ptr<fl::HedgeFunction> h(new fl::HedgeFunction("x / 2.0", "old"));
                        *h = *dynamic_cast<fl::HedgeFunction*>(from.back().get());
                        to.emplace_back(h.release());
                    } else
                        to.emplace_back(from.back()->clone());
                }
                for (int k = range(1, 12); k > 0; --k) {
                    size_t i = draw((uint32_t)from.size());
                    double x = grid(), p = from[i]->hedge(x);
                    to[draw((uint32_t)to.size())]->hedge(grid());
                    double q = to[i]->hedge(x);
                    if (not fl::Op::isEq(p, q, 0.0) or from[i]->name() != to[i]->name())
                        fail("C04:incomplete copy of a part", "hedge %s became %s: %.17g and %.17g of %g", from[i]->name().c_str(), to[i]->name().c_str(), p, q, x);
                    if (auto h = dynamic_cast<fl::HedgeFunction*>(to[i].get()))
                        if (chance(1, 4)) {
                            h->setFormula("0.75");
                            if (not fl::Op::isEq(from[i]->hedge(x), p, 0.0))
                                fail("C04:shared component", "another formula for a copy of the hedge %s changes the original", from[i]->name().c_str());
                            to[i].reset(from[i]->clone());
                        }
                }
                for (auto* o : e.outputVariables())
                    for (auto& a : o->fuzzyOutput()->terms()) {
                        fl::Activated other(nullptr, 0.875, nullptr);
                        std::unique_ptr<fl::Activated> c(a.clone());
                        other = a;
                        for (auto* k : {c.get(), &other})
                            if (k->getTerm() != a.getTerm() or not fl::Op::isEq(k->getDegree(), a.getDegree(), 0.0) or k->getImplication() != a.getImplication()
                                or k->toString() != a.toString() or k->getName() != a.getName() or not fl::Op::isEq(k->getHeight(), a.getHeight(), 0.0))
                                fail("C04:incomplete copy of a part", "activated term %s became %s", a.toString().c_str(), k->toString().c_str());
                        c->setDegree(0.125);
                        c->setTerm(nullptr);
                    }
                break;
            }
            case 4: {
                fl::RuleBlock* b = e.getRuleBlock((size_t)draw((uint32_t)e.numberOfRuleBlocks()));
                if (b->numberOfRules() == 0)
                    return;
                fl::Rule* r = b->getRule((size_t)draw((uint32_t)b->numberOfRules()));
                trace("copy of the rule '%s' of engine %d%s", r->getText().c_str(), s.id, assign ? " by assignment" : "");
                std::unique_ptr<fl::Rule> c;
                if (assign) {
                    bool loaded = chance(1, 2);
                    c.reset(new fl::Rule("if a is b then c is d with 0.125"));
                    if (loaded)
                        c->load(r->getText(), &e);
                    c->setEnabled(chance(1, 2));
                    c->setWeight(0.375);
                    c->setActivationDegree(0.625);
                    *c = *r;
                } else
                    c.reset(r->clone());
                if (c->getText() != r->getText() or c->isEnabled() != r->isEnabled() or c->getWeight() != r->getWeight())
                    fail("C04:incomplete copy of a part", "rule '%s', %s, %g", c->getText().c_str(), c->isEnabled() ? "enabled" : "disabled", c->getWeight());
                if (c->getAntecedent() == r->getAntecedent() or c->getConsequent() == r->getConsequent())
                    fail("C04:shared component", "the copy of a rule shares its antecedent or consequent");
                if (c->isLoaded())
                    c->unload();
                c->setText("");
                break;
            }
            case 5: {
                fl::RuleBlock* b = e.getRuleBlock((size_t)draw((uint32_t)e.numberOfRuleBlocks()));
                fl::OutputVariable* v = e.getOutputVariable((size_t)draw((uint32_t)e.numberOfOutputVariables()));
                trace("copies of the operators of engine %d", s.id);
                std::vector<std::pair<const fl::Norm*, std::unique_ptr<fl::Norm>>> c;
                for (const fl::Norm* n : std::initializer_list<const fl::Norm*>{b->getConjunction(), b->getImplication(), b->getDisjunction(), v->getAggregation()})
                    if (n)
                        c.push_back({n, std::unique_ptr<fl::Norm>(n->clone())});
                for (int k = range(1, 8); k > 0 and not c.empty(); --k) {
                    size_t i = draw((uint32_t)c.size());
                    double x = grid(), y = grid();
                    const fl::Norm* other = c[draw((uint32_t)c.size())].second.get();
                    double p = c[i].first->compute(x, y);
                    other->compute(y, x);
                    double q = c[i].second->compute(x, y);
                    if (not fl::Op::isEq(p, q, 0.0) or c[i].first->className() != c[i].second->className())
                        fail("C04:incomplete copy of a part", "%s became %s: %.17g and %.17g of %g, %g", c[i].first->className().c_str(), c[i].second->className().c_str(), p, q, x, y);
                }
                for (auto& k : c) {
                    if (auto t = dynamic_cast<fl::TNormFunction*>(k.second.get()))
                        t->setFormula("0.75");
                    if (auto t = dynamic_cast<fl::SNormFunction*>(k.second.get()))
                        t->setFormula("0.75");
                }
                if (const fl::Defuzzifier* d = v->getDefuzzifier()) {
                    std::unique_ptr<fl::Defuzzifier> k(d->clone());
                    fl::OutputVariable x("x", v->getMinimum(), v->getMaximum());
                    x.setDefuzzifier(k.release());
                    fl::OutputVariable y(x);
                    y.fuzzyOutput()->setAggregation(v->getAggregation() ? v->getAggregation()->clone() : nullptr);
                    if (y.getDefuzzifier() == x.getDefuzzifier() or y.getDefuzzifier() == d or fl::FllExporter().toString(y.getDefuzzifier()) != fl::FllExporter().toString(d))
                        fail("C04:incomplete copy of a part", "defuzzifier %s", fl::FllExporter().toString(y.getDefuzzifier()).c_str());
                    if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(x.getDefuzzifier()))
                        i->setResolution(i->getResolution() + 7);
                }
                if (const fl::Activation* a = b->getActivation()) {
                    std::unique_ptr<fl::Activation> k(a->clone());
                    if (k->className() != a->className() or k->parameters() != a->parameters())
                        fail("C04:incomplete copy of a part", "activation %s %s", k->className().c_str(), k->parameters().c_str());
                }
                break;
            }
            case 0: {
                fl::InputVariable* v = e.getInputVariable((size_t)draw((uint32_t)e.numberOfInputVariables()));
                trace("copy of input %s of engine %d%s", v->getName().c_str(), s.id, assign ? " by assignment" : "");
                std::unique_ptr<fl::InputVariable> c;
                if (assign) {
                    c.reset(new fl::InputVariable("old", 0, 1));
                    c->addTerm(new fl::Triangle("old", 0, 1, 2));
                    c->setDescription("an old variable");
                    c->setEnabled(chance(1, 2));
                    c->setLockValueInRange(chance(1, 2));
                    c->setValue(0.5);
                    *c = *v;
                } else
                    c.reset(v->clone());
                if (fl::FllExporter().toString(c.get()) != fl::FllExporter().toString(v))
                    fail("C04:incomplete copy of a part", "input variable\n%s", fl::FllExporter().toString(c.get()).c_str());
                if (not fl::Op::isEq(c->getValue(), v->getValue(), 0.0) or c->getDescription() != v->getDescription())
                    fail("C04:incomplete copy of a part", "input value %g instead of %g", c->getValue(), v->getValue());
                std::string fuzzy = v->fuzzyInputValue();
                if (c->fuzzyInputValue() != fuzzy)
                    fail("C04:incomplete copy of a part", "fuzzy input value");
                while (c->numberOfTerms())
                    delete c->removeTerm(0);
                c->setValue(17.0);
                c.reset();
                break;
            }
            case 1: {
                fl::OutputVariable* v = e.getOutputVariable((size_t)draw((uint32_t)e.numberOfOutputVariables()));
                trace("copy of output %s of engine %d%s", v->getName().c_str(), s.id, assign ? " by assignment" : "");
                std::unique_ptr<fl::OutputVariable> c;
                if (assign) {
                    c.reset(new fl::OutputVariable("old", 0, 1));
                    c->addTerm(new fl::Triangle("old", 0, 1, 2));
                    c->setAggregation(new fl::Maximum);
                    c->setDefuzzifier(new fl::Centroid);
                    c->fuzzyOutput()->addTerm(c->getTerm((size_t)0), 0.5, fl::null);
                    c->setDescription("an old variable");
                    c->setEnabled(chance(1, 2));
                    c->setLockValueInRange(chance(1, 2));
                    c->setLockPreviousValue(chance(1, 2));
                    c->setDefaultValue(0.25);
                    c->setValue(0.5);
                    c->setPreviousValue(0.75);
                    *c = *v;
                } else
                    c.reset(v->clone());
                if (fl::FllExporter().toString(c.get()) != fl::FllExporter().toString(v))
                    fail("C04:incomplete copy of a part", "output variable\n%s", fl::FllExporter().toString(c.get()).c_str());
                if (not fl::Op::isEq(c->getValue(), v->getValue(), 0.0) or not fl::Op::isEq(c->getPreviousValue(), v->getPreviousValue(), 0.0)
                    or not fl::Op::isEq(c->getDefaultValue(), v->getDefaultValue(), 0.0) or c->getDescription() != v->getDescription()
                    or c->fuzzyOutput()->getName() != v->fuzzyOutput()->getName())
                    fail("C04:incomplete copy of a part", "output value %g, previous value %g or default value %g", c->getValue(), c->getPreviousValue(), c->getDefaultValue());
                if (c->fuzzyOutputValue() != v->fuzzyOutputValue() or c->fuzzyOutput()->numberOfTerms() != v->fuzzyOutput()->numberOfTerms())
                    fail("C04:incomplete copy of a part", "fuzzy output <%s>", c->fuzzyOutputValue().c_str());
                for (size_t i = 0; i < c->fuzzyOutput()->numberOfTerms(); ++i) {
                    bool own = false;
                    for (auto* t : c->terms())
                        own = own or t == c->fuzzyOutput()->getTerm(i).getTerm();
                    if (not own)
                        fail("C04:shared component", "the fuzzy output of the copy of %s refers to terms of the original",
                             v->getName().c_str());
                }
                c->clear();
                c->setAggregation(fl::null);
                c->setDefuzzifier(fl::null);
                while (c->numberOfTerms())
                    delete c->removeTerm(0);
                c.reset();
                break;
            }
            case 2: {
                fl::RuleBlock* b = e.getRuleBlock((size_t)draw((uint32_t)e.numberOfRuleBlocks()));
                trace("copy of a rule block of engine %d%s", s.id, assign ? " by assignment" : "");
                std::unique_ptr<fl::RuleBlock> c;
                if (assign) {
                    c.reset(new fl::RuleBlock("old"));
                    c->setConjunction(new fl::Minimum);
                    c->setImplication(new fl::Minimum);
                    c->setDisjunction(new fl::Maximum);
                    c->setActivation(new fl::Highest(3));
                    c->setDescription("an old block");
                    c->setEnabled(chance(1, 2));
                    c->addRule(new fl::Rule("if a is b then c is d"));
                    *c = *b;
                } else
                    c.reset(b->clone());
                if (fl::FllExporter().toString(c.get()) != fl::FllExporter().toString(b))
                    fail("C04:incomplete copy of a part", "rule block\n%s\ninstead of\n%s", fl::FllExporter().toString(c.get()).c_str(),
                         fl::FllExporter().toString(b).c_str());
                for (size_t i = 0; i < b->numberOfRules(); ++i)
                    if (c->getRule(i)->isEnabled() != b->getRule(i)->isEnabled() or c->getRule(i)->getWeight() != b->getRule(i)->getWeight())
                        fail("C04:incomplete copy of a part", "enabled flag or weight of rule %zu", i);
                if (chance(1, 2)) {
                    try {
                        c->loadRules(s.e.get());
                    } catch (std::exception& x) {
                        fail("C04:incomplete copy of a part", "the copied rules do not load: %s", x.what());
                    }
                    c->unloadRules();
                }
                if (chance(1, 3)) {  // moved, and the rest is still a rule block
                    std::string text = fl::FllExporter().toString(c.get());
                    std::unique_ptr<fl::RuleBlock> d;
                    if (chance(1, 2))
                        d.reset(new fl::RuleBlock(std::move(*c)));
                    else {
                        d.reset(new fl::RuleBlock("old"));
                        d->addRule(new fl::Rule("if a is b then c is d"));
                        d->setActivation(new fl::Highest(3));
                        *d = std::move(*c);
                    }
                    if (fl::FllExporter().toString(d.get()) != text)
                        fail("C04:incomplete copy of a part", "a moved rule block became\n%s\ninstead of\n%s", fl::FllExporter().toString(d.get()).c_str(), text.c_str());
                    for (size_t i = 0; i < d->numberOfRules(); ++i)
                        for (size_t k = 0; k < c->numberOfRules(); ++k)
                            if (d->getRule(i) == c->getRule(k))
                                fail("C04:shared component", "a moved rule block shares a rule with what is left");
                    c = std::move(d);
                }
                c->setConjunction(fl::null);
                c->setImplication(fl::null);
                c->setActivation(fl::null);
                while (c->numberOfRules())
                    delete c->removeRule(0);
                c.reset();
                break;
            }
            default: {
                // terms
                fl::Variable* v = e.variables().at(draw((uint32_t)e.variables().size()));
                if (v->numberOfTerms() == 0)
                    return;
                fl::Term* t = v->getTerm((size_t)draw((uint32_t)v->numberOfTerms()));
                trace("copy of term %s of engine %d", t->getName().c_str(), s.id);
                std::unique_ptr<fl::Term> c(t->clone());
                if (assign) {
                    if (auto* f = dynamic_cast<fl::Function*>(t)) {
                        fl::Function* other = chance(1, 2) ? new fl::Function("other", "y + 1.0") : new fl::Function("other", "", &e);
                        c.reset(other);
                        other->variables["y"] = 1.0;
                        if (not other->getFormula().empty())
                            other->load();
                        *other = *f;
                        if (other->root() == f->root() and f->root())
                            fail("C04:shared component", "function %s", f->getName().c_str());
                    } else if (auto* f = dynamic_cast<fl::Linear*>(t)) {
                        fl::Linear* other = new fl::Linear("other", std::vector<fl::scalar>(7, 1.0));
                        c.reset(other);
                        *other = *f;
                    } else if (auto* f = dynamic_cast<fl::Discrete*>(t)) {
                        fl::Discrete* other = new fl::Discrete("other", std::vector<fl::Discrete::Pair>(3));
                        c.reset(other);
                        *other = *f;
                    }
                    for (auto* o : e.outputVariables()) {
                        fl::Aggregated other("other", 0.0, 1.0, new fl::Maximum);
                        other.addTerm(t, 0.5, nullptr);
                        other = *o->fuzzyOutput();
                        if (other.toString() != o->fuzzyOutput()->toString() or other.getMinimum() != o->fuzzyOutput()->getMinimum() or other.getMaximum() != o->fuzzyOutput()->getMaximum()
                            or (other.getAggregation() and other.getAggregation() == o->fuzzyOutput()->getAggregation()))
                            fail("C04:incomplete copy of a part", "fuzzy output %s became %s", o->fuzzyOutput()->toString().c_str(), other.toString().c_str());
                        other.clear();
                        other.setAggregation(nullptr);
                    }
                }
                double x = gen::sensor(s.m.s.inputs[0], true), p, q;
                Ended a = guarded([&] { p = t->membership(x); }), b = guarded([&] { q = c->membership(x); });
                if (a.threw != b.threw or (a.ok() and not(p == q or (p != p and q != q))))
                    fail("C04:incomplete copy of a part", "term %s: membership of the copy differs at %g", t->toString().c_str(), x);
                if (c->toString() != t->toString() or c->className() != t->className())
                    fail("C04:incomplete copy of a part", "term %s became %s", t->toString().c_str(), c->toString().c_str());
                if (t->isMonotonic() and t->className() != "Activated") {
                    Ended k = guarded([&] { p = t->tsukamoto(0.25); }), l = guarded([&] { q = c->tsukamoto(0.25); });
                    if (k.threw != l.threw or (k.ok() and not(p == q or (p != p and q != q))))
                        fail("C04:incomplete copy of a part", "term %s: tsukamoto of the copy differs", t->toString().c_str());
                }
                c->setName("other");
                c->setHeight(0.125);
                guarded([&] { c->configure(""); });
            }
        }
        count("op:copy of a part");
    }

    void run() {
        gen::Disguise disguise;
        std::vector<SlotP> slots;
        int nextId = 0;
        auto fresh = [&]() {
            SlotP s(new Slot);
            s->id = nextId++;
            gen::Options g;
            g.missing = chance(1, 8);
            g.inactiveRules = true;
            g.forward = true;
            g.maxBlocks = 3;
            g.constants = true;
            if (not slots.empty())
                g.maxInputs = 2, g.maxOutputs = 2, g.maxRules = 3;
            trace("engine %d:", s->id);
            gen::EngineSpec spec = ops::spec(g);
            s->m = model::Model(spec);
            s->e = gen::build(spec);
            s->o.missing = g.missing;
            s->o.gen = g;
            slots.push_back(std::move(s));
        };
        fresh();
        if (chance(1, 3))
            fresh();
        auto everyone = [&](const char* cls) {
            for (auto& s : slots)
                model::compare(s->m, *s->e, cls);
        };
        std::vector<char> after;
        int steps = range(2, thorough() ? 40 : 16);
        // the fuzzy outputs and rule degrees are only comparable after a cycle that ended normally
        std::vector<bool> comparable;
        for (int i = 0; i < steps; ++i) {
            int n = (int)slots.size();
            Slot& s = *slots[draw(n)];
            switch (weighted({4, 6, 5, 3, n > 1 ? 3 : 0, 3})) {
                case 0:
                    trace("engine %d:", s.id);
                    ops::mutate(s.m, *s.e, s.o);
                    break;
                case 1: {
                    trace("engine %d: process", s.id);
                    model::setInputs(s.m, *s.e, chance(1, 3));
                    model::cycle(s.m, *s.e, "C04:cycle");
                    break;
                }
                case 2: {
                    if (n >= 4)
                        break;
                    bool clone = chance(1, 2);
                    SlotP c(new Slot);
                    c->id = nextId++;
                    trace("engine %d is a %s of engine %d", c->id, clone ? "clone" : "copy", s.id);
                    c->m = s.m;
                    c->o = s.o;
                    c->e.reset(clone ? s.e->clone() : new fl::Engine(*s.e));
                    sameNow(*s.e, *c->e, "copy");
                    slots.push_back(std::move(c));
                    count("op:copy");
                    break;
                }
                case 3: {
                    Slot& t = *slots[draw(n)];
                    trace("engine %d is assigned engine %d", t.id, s.id);
                    fl::Engine& r = (*t.e = *s.e);
                    if (&r != t.e.get())
                        fail("C04:assignment", "the assignment does not return its target");
                    if (&t != &s) {
                        t.m = s.m;
                        t.o = s.o;
                        sameNow(*s.e, *t.e, "assigned engine");
                    }
                    count(&t == &s ? "op:self-assignment" : "op:assignment");
                    break;
                }
                case 4: {
                    int k = draw(n);
                    trace("engine %d is destroyed", slots[k]->id);
                    slots.erase(slots.begin() + k);
                    count("op:destruction");
                    break;
                }
                default:
                    copyPart(s, chance(1, 2));
            }
            everyone("C04:interference");
        }
        for (auto& s : slots) {
            trace("engine %d: last cycle", s->id);
            model::setInputs(s->m, *s->e, false);
            model::cycle(s->m, *s->e, "C04:cycle");
        }
        if (chance(1, 2))
            std::reverse(slots.begin(), slots.end());
        while (not slots.empty()) {
            slots.pop_back();
            everyone("C04:interference");
        }
        nontrivial();
    }
    Property p("C04", run);
}
