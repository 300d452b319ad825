// C05: memory runs out inside any operation.
#include <functional>
#include <sstream>

#include "guard.h"
#include "ops.h"

using namespace sim;

namespace {
    std::string number(double d) {
        return gen::num(d, -1);
    }
    std::string values(const fl::Engine& e) {
        std::string r;
        for (auto* v : e.variables())
            r += v->getName() + "=" + number(v->getValue()) + " ";
        for (auto* v : e.outputVariables())
            r += number(v->getPreviousValue()) + " " + v->fuzzyOutput()->toString() + " ";
        return r;
    }
    std::string snapshot(const fl::Engine& e) {
        std::string r = fl::FllExporter().toString(&e) + values(e);
        for (auto* b : e.ruleBlocks())
            for (auto* k : b->rules())
                r += number(k->getActivationDegree()) + (k->isTriggered() ? "t" : "") + (k->isLoaded() ? "l" : "u") + (k->isEnabled() ? "" : "d") + " "
                     + number(k->getWeight()) + " ";
        return r;
    }
    // The engine can be used: any outcome but a crash is fine here.
    void exercise(fl::Engine& e) {
        guarded([&] { e.process(); });
        guarded([&] { e.toString(); });
        guarded([&] { e.isReady(); });
        guarded([&] {
            for (auto* v : e.variables())
                v->fuzzify(0.5);
        });
        guarded([&] { fl::Engine c(e); c.process(); });
        guarded([&] { e.restart(); });
    }

    // One operation on a target of its own. prepare() and finish() run with memory available.
    struct Operation {
        std::string name;
        virtual ~Operation() {}
        virtual void prepare() {}
        virtual void act() = 0;
        virtual std::string result() {
            return "";
        }
        virtual void use() {}      // after a failure: what exists must be usable
        virtual void discard() {}  // release everything
    };
    typedef std::function<fl::Engine*()> Source;
    struct MakeEngine : Operation {
        Source source;
        std::unique_ptr<fl::Engine> made;
        bool process;
        std::vector<double> in;
        void act() override {
            made.reset(source());
        }
        std::string result() override {
            std::string r = snapshot(*made);
            for (size_t i = 0; i < in.size() and i < made->numberOfInputVariables(); ++i)
                made->getInputVariable(i)->setValue(in[i]);
            Ended x = guarded([&] { made->process(); });
            return r + values(*made) + (x.threw ? "threw" : "");
        }
        void use() override {
            if (made)
                exercise(*made);
        }
        void discard() override {
            made.reset();
        }
    };
    struct OnEngine : Operation {  // on a fresh copy of the given engine
        const fl::Engine* original;
        std::unique_ptr<fl::Engine> e;
        std::function<void(fl::Engine&)> f;
        bool unchanged = false;
        std::string before;
        void prepare() override {
            e.reset(original->clone());
            if (unchanged) {
                mem::Off off;
                before = snapshot(*e);
            }
        }
        void act() override {
            f(*e);
        }
        std::string result() override {
            return snapshot(*e);
        }
        void use() override {
            if (unchanged) {
                std::string now = snapshot(*e);
                if (now != before)
                    fail("C05:failed edit", "%s: after running out of memory the engine is\n%s\ninstead of\n%s", name.c_str(),
                         now.substr(0, 3000).c_str(), before.substr(0, 3000).c_str());
            }
            exercise(*e);
        }
        void discard() override {
            e.reset();
            mem::Off off;
            std::string().swap(before);
        }
    };
    struct Text : Operation {
        std::function<std::string()> f;
        std::string r;
        void act() override {
            r = f();
        }
        std::string result() override {
            return r;
        }
        void discard() override {
            std::string().swap(r);
        }
    };

    struct World {
        std::unique_ptr<fl::Engine> e;
        gen::EngineSpec spec;
        gen::Options g;
        std::string text[3];  // FLL, FIS, FCL
    };

    template <class T>
    std::unique_ptr<Operation> make(const char* name, std::function<void(T&)> setup) {
        T* t = new T;
        t->name = name;
        setup(*t);
        return std::unique_ptr<Operation>(t);
    }
    std::unique_ptr<Operation> text(const char* name, std::function<std::string()> f) {
        return make<Text>(name, [&](Text& t) { t.f = f; });
    }
    std::unique_ptr<Operation> engine(const char* name, Source s, const std::vector<double>& in) {
        return make<MakeEngine>(name, [&](MakeEngine& m) {
            m.source = s;
            m.in = in;
        });
    }
    std::unique_ptr<Operation> edit(const char* name, const fl::Engine* e, std::function<void(fl::Engine&)> f, bool unchanged = false) {
        return make<OnEngine>(name, [&](OnEngine& o) {
            o.original = e;
            o.f = f;
            o.unchanged = unchanged;
        });
    }

    std::unique_ptr<Operation> operation(World& w) {
        fl::Engine* e = w.e.get();
        std::vector<double> in;
        for (auto& v : w.spec.inputs)
            in.push_back(gen::sensor(v, false));
        std::string fll = w.text[0], fis = w.text[1], fcl = w.text[2];
        int rows = range(1, 3);
        double x = gen::sensor(w.spec.inputs[0], false);
        std::string ruleText = w.spec.ruleText(gen::rule(w.spec, w.g));
        int k = draw(34);
        switch (k) {
            case 0:
                return engine("FllImporter::fromString", [=] { return fl::FllImporter().fromString(fll); }, in);
            case 1:
                if (not fis.empty())
                    return engine("FisImporter::fromString", [=] { return fl::FisImporter().fromString(fis); }, in);
                // fall through
            case 2:
                if (not fcl.empty())
                    return engine("FclImporter::fromString", [=] { return fl::FclImporter().fromString(fcl); }, in);
                // fall through
            case 3:
                return engine("Engine::clone", [=] { return e->clone(); }, in);
            case 4:
                return text("FllExporter::toString", [=] { return fl::FllExporter().toString(e); });
            case 5:
                return text("FisExporter::toString", [=] { return fl::FisExporter().toString(e); });
            case 6:
                return text("FclExporter::toString", [=] { return fl::FclExporter().toString(e); });
            case 7:
                return text("CppExporter::toString", [=] { return fl::CppExporter().toString(e); });
            case 8:
                return text("JavaExporter::toString", [=] { return fl::JavaExporter().toString(e); });
            case 9:
                return text("FldExporter::toString", [=] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    return fl::FldExporter().toString(c.get(), rows, fl::FldExporter::EachVariable);
                });
            case 10:
                return text("FldExporter::toString from a reader", [=] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    std::string data = "# comment\n";
                    for (int r = 0; r < rows; ++r) {
                        for (double d : in)
                            data += fl::Op::str(d + r) + " ";
                        data += "\n";
                    }
                    std::istringstream reader(data);
                    return fl::FldExporter().toString(c.get(), reader);
                });
            case 11:
                return edit("Engine::operator=", e, [=](fl::Engine& t) {
                    mem::Off* off = new mem::Off;
                    std::unique_ptr<fl::Engine> other(fl::FllImporter().fromString(fll));
                    delete off;
                    t = *other;
                    mem::Off o2;
                    other.reset();
                }, true);
            case 12: {
                std::string formula = gen::formula(w.spec, 3).text();
                return text("Function::create", [=] {
                    std::unique_ptr<fl::Function> f(fl::Function::create("f", formula, e));
                    return f->toString() + f->root()->toPostfix() + f->root()->toInfix() + f->root()->toPrefix() + number(f->membership(x));
                });
            }
            case 13: {
                std::string formula = gen::formula(w.spec, 3).text();
                return text("Function::clone", [=] {
                    fl::Function f("f", formula, e);
                    f.load();
                    std::unique_ptr<fl::Function> g(f.clone());
                    fl::Function h("h", "1 + x * 2");
                    h.load();
                    h = *g;
                    return g->toString() + number(g->membership(x)) + h.toString() + number(h.membership(x));
                });
            }
            case 14:
                return text("Rule::parse", [=] {
                    std::unique_ptr<fl::Rule> r(fl::Rule::parse(ruleText, e));
                    return r->toString() + r->getAntecedent()->toPrefix() + r->getAntecedent()->toInfix() + r->getAntecedent()->toPostfix()
                           + r->getConsequent()->toString() + (r->isLoaded() ? "" : "unloaded");
                });
            case 15:
                return edit("RuleBlock::reloadRules", e, [](fl::Engine& t) {
                    for (auto* b : t.ruleBlocks())
                        b->reloadRules(&t);
                });
            case 16:
                return edit("Engine::process", e, [](fl::Engine& t) { t.process(); });
            case 17:
                return edit("Engine::configure", e, [](fl::Engine& t) {
                    t.configure("Minimum", "Maximum", "AlgebraicProduct", "AlgebraicSum", "Centroid", "Proportional");
                    for (auto* v : t.outputVariables())  // they refer to the former implication operators
                        v->fuzzyOutput()->clear();
                }, true);
            case 18:
                return edit("Engine::addInputVariable", e, [](fl::Engine& t) {
                    std::unique_ptr<fl::InputVariable> v(new fl::InputVariable("added", 0, 1));
                    v->addTerm(new fl::Triangle("a", 0, 0.5, 1));
                    t.addInputVariable(v.release());
                }, true);
            case 19:
                return edit("Engine::addOutputVariable", e, [](fl::Engine& t) {
                    std::unique_ptr<fl::OutputVariable> v(new fl::OutputVariable("added", 0, 1));
                    v->insertTerm(new fl::Triangle("a", 0, 0.5, 1), 0);
                    v->setAggregation(new fl::Maximum);
                    v->setDefuzzifier(new fl::Centroid);
                    t.insertOutputVariable(v.release(), 0);
                }, true);
            case 20:
                return edit("Engine::addRuleBlock", e, [=](fl::Engine& t) {
                    std::unique_ptr<fl::RuleBlock> b(new fl::RuleBlock("added"));
                    b->addRule(fl::Rule::parse(ruleText, &t));
                    b->insertRule(fl::Rule::parse(ruleText, &t), 0);
                    b->setConjunction(new fl::Minimum);
                    b->setActivation(new fl::General);
                    t.addRuleBlock(b.release());
                }, true);
            case 21:
                return text("copies of variables", [=] {
                    std::string r;
                    for (auto* v : e->inputVariables()) {
                        std::unique_ptr<fl::Variable> c(v->clone());
                        r += c->toString();
                    }
                    for (auto* v : e->outputVariables()) {
                        std::unique_ptr<fl::Variable> c(v->clone());
                        r += c->toString();
                    }
                    return r;
                });
            case 22:
                return text("assignments of variables", [=] {
                    std::string r;
                    fl::OutputVariable o("old", 0, 1);
                    o.addTerm(new fl::Triangle("t", 0, 0.5, 1));
                    o.setAggregation(new fl::Maximum);
                    o.setDefuzzifier(new fl::Centroid);
                    Ended x = guarded([&] { o = *e->getOutputVariable(0); });
                    r += o.toString() + o.fuzzyOutputValue() + o.fuzzyOutput()->toString();
                    o.setRange(0, 2);
                    o.clear();
                    fl::InputVariable i("old", 0, 1);
                    i.addTerm(new fl::Triangle("t", 0, 0.5, 1));
                    Ended y = guarded([&] { i = *e->getInputVariable(0); });
                    r += i.toString() + i.fuzzify(0.5);
                    if (x.threw or y.threw)
                        throw std::runtime_error("assignment failed");
                    return r;
                });
            case 23:
                return text("copies of rule blocks", [=] {
                    std::string r;
                    for (auto* b : e->ruleBlocks()) {
                        std::unique_ptr<fl::RuleBlock> c(b->clone());
                        r += c->toString();
                        fl::RuleBlock d("old");
                        d.addRule(new fl::Rule("if a is b then c is d"));
                        d.setConjunction(new fl::Minimum);
                        Ended x = guarded([&] { d = *b; });
                        r += d.toString();
                        if (x.threw)
                            throw std::runtime_error("assignment failed");
                    }
                    return r;
                });
            case 24:
                return text("Variable::fuzzify", [=] {
                    std::string r;
                    for (auto* v : e->variables()) {
                        r += v->fuzzify(x);
                        double y;
                        fl::Term* t = v->highestMembership(x, &y);
                        r += t ? t->getName() + number(y) : "none";
                        for (auto& a : v->maxActivations(x))
                            r += a.toString();
                        for (auto& a : v->activations(x))
                            r += a.toString();
                    }
                    for (auto* v : e->outputVariables()) {
                        r += v->fuzzyOutputValue();
                        for (auto& a : v->fuzzyOutput()->groupedTerms())
                            r += a.toString();
                        for (auto& a : v->fuzzyOutput()->maximallyActivatedTerms())
                            r += a.toString();
                    }
                    return r;
                });
            case 25:
                return text("terms by name", [=] {
                    std::string r;
                    for (auto& name : fl::FactoryManager::instance()->term()->available()) {
                        if (name.empty())
                            continue;
                        std::unique_ptr<fl::Term> t(fl::FactoryManager::instance()->term()->constructObject(name));
                        t->setName("aNameThatIsLongEnoughToBeAllocated");
                        t->updateReference(e);
                        std::string p = t->parameters();
                        guarded([&] {
                            mem::Off off;
                            if (t->className() == "Discrete")
                                p = "0 0 1 1 2 0.5 3 1";
                        });
                        r += name + t->toString() + fl::CppExporter().toString(t.get());
                    }
                    return r;
                });
            case 26: {
                gen::TermSpec t = gen::term("termWithALongNameToAllocate", -1, 1, w.spec, w.g, chance(1, 2));
                return text("Term::configure", [=] {
                    std::unique_ptr<fl::Term> o(fl::FactoryManager::instance()->term()->constructObject(t.cls));
                    o->updateReference(e);
                    o->configure(t.parameters());
                    std::unique_ptr<fl::Term> c(o->clone());
                    return c->toString() + number(c->membership(x)) + o->parameters();
                });
            }
            case 27:
                return text("Benchmark", [=] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    fl::Benchmark b("bench", c.get());
                    std::string data;
                    for (int r = 0; r < rows; ++r) {
                        for (double d : in)
                            data += fl::Op::str(d + r) + " ";
                        for (size_t i = 0; i < e->numberOfOutputVariables(); ++i)
                            data += "0.500 ";
                        data += "\n";
                    }
                    std::istringstream reader(data);
                    b.prepare(reader);
                    b.run(2);
                    b.setTimes(std::vector<double>(2, 0.5));
                    return b.format(b.results(), fl::Benchmark::Vertical, fl::Benchmark::HeaderAndBody);
                });
            case 28:
                return text("Op", [=] {
                    std::string r = fl::Op::join(fl::Op::split("one, two, three, four and a longer piece of text", ","), ";");
                    r += fl::Op::str(x) + fl::Op::findReplace("aaabbbaaabbbaaabbbaaabbb", "aaa", "ccccc") + fl::Op::trim("     a text with spaces around it    ");
                    r += fl::Op::validName("not a valid name: but long enough!");
                    r += number(fl::Op::toScalar("1234567.00000000000000000000000001"));
                    bool ok = false;
                    r += number(fl::Op::toScalar("this is not a number, obviously", 5.0, &ok)) + (ok ? "y" : "n");
                    return r;
                });
            case 29:
                return text("Discrete", [=] {
                    std::unique_ptr<fl::Discrete> d(fl::Discrete::create("d", 6, 0.0, 1.0, 2.0, 0.5, 1.0, 0.0));
                    std::string r = d->toString() + number(d->membership(0.5));
                    fl::Triangle t("t", 0, 1, 2);
                    std::unique_ptr<fl::Discrete> q(fl::Discrete::discretize(&t, 0, 2, 10));
                    r += q->toString() + number(q->membership(0.7));
                    std::vector<fl::scalar> xy(7, 1.0);
                    r += std::to_string(fl::Discrete::toPairs(xy, 2.0).size());
                    return r + fl::Discrete::formatXY(q->xy());
                });
            case 30:
                return text("FactoryManager copies", [=] {
                    fl::FactoryManager m(*fl::FactoryManager::instance());
                    std::string r = fl::Op::join(m.term()->available(), ",") + fl::Op::join(m.function()->availableFunctions(), ",");
                    fl::FactoryManager n;
                    n = m;
                    return r + fl::Op::join(n.hedge()->available(), ",") + fl::Op::join(n.function()->available(), ",");
                });
            case 31:
                return text("Exception and status", [=] {
                    std::string status;
                    bool ready = e->isReady(&status);
                    std::string reason;
                    fl::Engine::Type t = e->type(nullptr, &reason);
                    return status + (ready ? "r" : "n") + std::to_string((int)t) + reason;
                });
            case 32:
                return text("RScriptExporter::toString", [=] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    if (c->numberOfInputVariables() < 2)
                        return std::string();
                    return fl::RScriptExporter().toString(c.get(), c->getInputVariable(0), c->getInputVariable(1), 4,
                                                          fl::FldExporter::AllVariables, c->outputVariables());
                });
            default:
                return edit("OutputVariable operators", e, [](fl::Engine& t) {
                    fl::OutputVariable* v = t.getOutputVariable(0);
                    v->fuzzyOutput()->addTerm(v->numberOfTerms() ? v->getTerm((size_t)0) : nullptr, 0.5, nullptr);
                    v->fuzzyOutput()->clear();
                    v->setName("aNewNameThatIsLongEnoughToNeedMemory");
                    v->setDescription("a description that is long enough to need memory");
                    v->setName(t.getName());
                });
        }
    }

    void run() {
        World w;
        w.g.forward = false;
        w.g.maxRules = 3;
        w.g.maxTerms = 3;
        w.g.maxResolution = 6;
        int style = weighted({3, 1, 1});
        if (style)
            w.g.style = style == 1 ? "fis" : "fcl";
        w.spec = ops::spec(w.g);
        model::Model m(w.spec);
        w.e.reset(fl::FllImporter().fromString(gen::fll(w.spec)));
        for (auto& b : m.s.blocks)
            if (b.activation.cls.empty())
                b.activation.cls = "General";
        w.text[0] = gen::fll(w.spec);
        if (style == 1)
            w.text[1] = fl::FisExporter().toString(w.e.get());
        if (style == 2)
            w.text[2] = fl::FclExporter().toString(w.e.get());
        int cycles = draw(3);
        for (int i = 0; i < cycles; ++i) {
            model::setInputs(m, *w.e, false);
            model::cycle(m, *w.e, "C05:cycle");
        }
        const std::string before = snapshot(*w.e);
        int n = range(1, thorough() ? 8 : 3);
        for (int i = 0; i < n; ++i) {
            std::unique_ptr<Operation> op = operation(w);
            trace("operation %s", op->name.c_str());
            // what it gives with memory available, and how many allocations it makes
            mem::failNever();
            op->prepare();
            Ended regular = guarded([&] { op->act(); });
            std::string expected = regular.ok() ? op->result() : regular.what;
            op->discard();
            mem::forget();
            mem::begin();
            op->prepare();
            uint64_t a0 = mem::allocations();
            guarded([&] { op->act(); });
            uint64_t a1 = mem::allocations();
            op->discard();
            mem::end();
            if (mem::live())
                fail("C05:leak without failure", "%s: %llu blocks lost: %s", op->name.c_str(), (unsigned long long)mem::live(),
                     mem::liveSummary().c_str());
            count(("op:" + op->name).substr(0, 50).c_str());
            int attempts = range(2, thorough() ? 24 : 10);
            for (int k = 0; k < attempts; ++k) {
                uint64_t at = 1 + draw((uint32_t)(a1 - a0) + 1);
                bool persistent = chance(1, 3);
                bool streams = chance(1, 24);
                mem::setStreamExempt(not streams);
                // twice, as memory that is kept for later use is not lost
                uint64_t lost[2] = {0, 0};
                for (int again = 0; again < 2; ++again) {
                    mem::forget();
                    mem::begin();
                    op->prepare();
                    mem::failAt(at, persistent);
                    Ended x = guarded([&] { op->act(); });
                    bool fired = mem::fired();
                    bool stream = fired and mem::firedInStream();
                    mem::setStreamExempt(true);
                    std::string where;
                    {
                        mem::Off off;
                        where = fired ? mem::firedWhere() : "";
                        if (again == 0) {
                            note("allocation %llu of %s%s: %s%s%s", (unsigned long long)at, op->name.c_str(), persistent ? " and all later ones" : "",
                                 fired ? "failed in " : "not reached", where.c_str(), x.threw ? ", reported" : "");
                            trace("%s: fired=%d threw=%d", op->name.c_str(), fired, x.threw);
                            if (fired) {
                                count(persistent ? "fault:memory exhausted" : "fault:allocation failed");
                                state(hashOf(op->name + where));
                            }
                        }
                        if (x.ok() and regular.ok()) {
                            std::string got = op->result();
                            if (got != expected)
                                fail(stream ? "C05:string-stream" : "C05:silently incomplete",
                                     "%s: an allocation failed in %s but the operation ended normally with\n%s\ninstead of\n%s", op->name.c_str(),
                                     where.c_str(), got.substr(0, 2500).c_str(), expected.substr(0, 2500).c_str());
                        } else if (x.ok() != regular.ok() and not fired)
                            fail("C05:unstable", "%s ended differently: %s", op->name.c_str(), x.what.c_str());
                        else if (x.ok() and not regular.ok())
                            fail(stream ? "C05:string-stream" : "C05:silently incomplete",
                                 "%s: an allocation failed in %s and the operation ended normally, but regularly it fails", op->name.c_str(),
                                 where.c_str());
                        if (x.threw)
                            op->use();
                    }
                    op->discard();
                    mem::end();
                    lost[again] = mem::live();
                    evaluated();
                    if (stream)
                        break;
                    if (not lost[again])
                        break;
                    if (again == 1)
                        fail("C05:leak", "%s: %llu blocks lost after an allocation failed in %s: %s", op->name.c_str(),
                             (unsigned long long)lost[1], where.c_str(), mem::liveSummary().c_str());
                }
                if (snapshot(*w.e) != before)
                    fail("C05:source changed", "%s changed the engine it only reads", op->name.c_str());
            }
            // and again with memory available
            mem::failNever();
            op->prepare();
            Ended x = guarded([&] { op->act(); });
            std::string got = x.ok() ? op->result() : x.what;
            if (x.ok() != regular.ok() or (x.ok() and got != expected))
                fail("C05:later use", "%s afterwards gives\n%s\ninstead of\n%s", op->name.c_str(), got.substr(0, 2500).c_str(),
                     expected.substr(0, 2500).c_str());
            op->discard();
        }
        model::setInputs(m, *w.e, false);
        model::cycle(m, *w.e, "C05:cycle");
        nontrivial();
    }
    Property p("C05", run);
}
