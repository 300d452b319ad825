// C14: who owns what, over any sequence of edits, with allocations that fail.
#include <functional>
#include <map>
#include <set>

#include "guard.h"
#include "ops.h"
#include "util.h"

using namespace sim;

namespace {
    template <class C>
    using Vec = std::vector<C*>;

    const std::vector<std::string> NAMES = {"a", "b", "c", "A", "ab", ""};
    const char* OOM = "fault:exhausted memory";

    // Every call of the library goes through here: only its allocations are tracked, and may fail.
    template <class F>
    Ended lib(F f) {
        mem::On on;
        return guarded(f);
    }
    template <class F>
    Ended faulty(F f, bool allowed = true) {
        bool fault = allowed and chance(1, 3);
        int n = fault ? range(1, chance(1, 3) ? 60 : 4) : 0;
        bool persistent = fault and chance(1, 2);
        mem::On on;
        if (fault)
            mem::failAt(n, persistent);
        Ended e = guarded(f);
        if (e.oom) {
            mem::Off off;
            count(OOM);
        }
        return e;
    }

    struct Operators {
        fl::TNorm *conjunction = nullptr, *implication = nullptr;
        fl::SNorm *disjunction = nullptr, *aggregation = nullptr;
        fl::Defuzzifier* defuzzifier = nullptr;
        fl::Activation* activation = nullptr;
        std::string classes;
    };
    struct EngineM {
        fl::Engine* engine;
        std::string name;
        Vec<fl::InputVariable> in;
        Vec<fl::OutputVariable> out;
        Vec<fl::RuleBlock> blocks;
    };

    struct World {
        std::vector<EngineM> engines;
        // components in the hands of the caller
        Vec<fl::InputVariable> in;
        Vec<fl::OutputVariable> out;
        Vec<fl::RuleBlock> blocks;
        Vec<fl::Term> terms;
        Vec<fl::Rule> rules;
        // what they hold
        std::map<const void*, Vec<fl::Term>> termsOf;
        std::map<const void*, Vec<fl::Rule>> rulesOf;
        std::map<const void*, Operators> operatorsOf;
        std::map<const void*, std::string> text;   // of the component itself, without what it holds
        std::map<const void*, std::string> names;  // of those that are looked up by name
        int created = 0;
        bool full = true;   // the current comparison includes all names and texts
        size_t looked = 0;  // the name looked up otherwise

        // ------------------------------------------------------------------------------------------------ descriptions
        static std::string shell(const fl::Term* t) {
            return fl::FllExporter().toString(t);
        }
        static std::string shell(const fl::Rule* r) {
            return r->getText();
        }
        static std::string variable(const fl::Variable* v) {
            return v->getName() + "|" + v->getDescription() + "|" + util::number(v->getMinimum()) + "|" + util::number(v->getMaximum()) + "|"
                   + (v->isEnabled() ? "e" : "") + (v->isLockValueInRange() ? "l" : "");
        }
        static std::string shell(const fl::InputVariable* v) {
            return variable(v);
        }
        static std::string shell(const fl::OutputVariable* v) {
            return variable(v) + "|" + util::number(v->getDefaultValue()) + (v->isLockPreviousValue() ? "p" : "");
        }
        static std::string shell(const fl::RuleBlock* b) {
            return b->getName() + "|" + b->getDescription() + (b->isEnabled() ? "|e" : "|");
        }
        static Operators operators(const fl::OutputVariable* v) {
            Operators o;
            o.aggregation = v->getAggregation();
            o.defuzzifier = v->getDefuzzifier();
            fl::FllExporter x;
            o.classes = x.toString(o.aggregation) + "|" + x.toString(o.defuzzifier);
            return o;
        }
        static Operators operators(const fl::RuleBlock* b) {
            Operators o;
            o.conjunction = b->getConjunction();
            o.disjunction = b->getDisjunction();
            o.implication = b->getImplication();
            o.activation = b->getActivation();
            fl::FllExporter x;
            o.classes = x.toString(o.conjunction) + "|" + x.toString(o.disjunction) + "|" + x.toString(o.implication) + "|" + x.toString(o.activation);
            return o;
        }
        static bool same(const Operators& a, const Operators& b) {
            return a.conjunction == b.conjunction and a.disjunction == b.disjunction and a.implication == b.implication
                   and a.activation == b.activation and a.aggregation == b.aggregation and a.defuzzifier == b.defuzzifier
                   and a.classes == b.classes;
        }

        // ------------------------------------------------------------------------------------------------ births and deaths
        void born(fl::Term* t) {
            fresh(t);
            text[t] = shell(t);
            names[t] = t->getName();
        }
        void born(fl::Rule* r) {
            fresh(r);
            text[r] = shell(r);
        }
        void born(fl::InputVariable* v) {
            fresh(v);
            text[v] = shell(v);
            names[v] = v->getName();
            termsOf[v] = v->terms();
            for (auto* t : v->terms())
                born(t);
        }
        void born(fl::OutputVariable* v) {
            fresh(v);
            text[v] = shell(v);
            names[v] = v->getName();
            termsOf[v] = v->terms();
            for (auto* t : v->terms())
                born(t);
            operatorsOf[v] = operators(v);
        }
        void born(fl::RuleBlock* b) {
            fresh(b);
            text[b] = shell(b);
            names[b] = b->getName();
            rulesOf[b] = b->rules();
            for (auto* r : b->rules())
                born(r);
            operatorsOf[b] = operators(b);
        }
        void fresh(const void* p) {
            if (text.count(p))
                fail("C14:shared component", "a copy holds a component of its source");
        }
        void gone(fl::Term* t) {
            text.erase(t);
            names.erase(t);
        }
        void gone(fl::Rule* r) {
            text.erase(r);
        }
        void gone(fl::Variable* v) {
            text.erase(v);
            names.erase(v);
            for (auto* t : termsOf[v])
                gone(t);
            termsOf.erase(v);
            operatorsOf.erase(v);
        }
        void gone(fl::InputVariable* v) {
            gone((fl::Variable*)v);
        }
        void gone(fl::OutputVariable* v) {
            gone((fl::Variable*)v);
        }
        void gone(fl::RuleBlock* b) {
            text.erase(b);
            names.erase(b);
            for (auto* r : rulesOf[b])
                gone(r);
            rulesOf.erase(b);
            operatorsOf.erase(b);
        }
        void gone(const EngineM& e) {
            for (auto* v : e.in)
                gone(v);
            for (auto* v : e.out)
                gone(v);
            for (auto* b : e.blocks)
                gone(b);
        }
        template <class C>
        void destroy(C* c) {
            gone(c);
            lib([&] { delete c; });
        }

        // ------------------------------------------------------------------------------------------------ everything
        Vec<fl::InputVariable> allInputs() const {
            Vec<fl::InputVariable> r = in;
            for (auto& e : engines)
                r.insert(r.end(), e.in.begin(), e.in.end());
            return r;
        }
        Vec<fl::OutputVariable> allOutputs() const {
            Vec<fl::OutputVariable> r = out;
            for (auto& e : engines)
                r.insert(r.end(), e.out.begin(), e.out.end());
            return r;
        }
        Vec<fl::Variable> allVariables() const {
            Vec<fl::Variable> r;
            for (auto* v : allInputs())
                r.push_back(v);
            for (auto* v : allOutputs())
                r.push_back(v);
            return r;
        }
        Vec<fl::RuleBlock> allBlocks() const {
            Vec<fl::RuleBlock> r = blocks;
            for (auto& e : engines)
                r.insert(r.end(), e.blocks.begin(), e.blocks.end());
            return r;
        }
        Vec<fl::Term> allTerms() {
            Vec<fl::Term> r = terms;
            for (auto* v : allVariables())
                r.insert(r.end(), termsOf[v].begin(), termsOf[v].end());
            return r;
        }
        Vec<fl::Rule> allRules() {
            Vec<fl::Rule> r = rules;
            for (auto* b : allBlocks())
                r.insert(r.end(), rulesOf[b].begin(), rulesOf[b].end());
            return r;
        }

        // ------------------------------------------------------------------------------------------------ the comparison
        template <class C>
        void checkText(const C* c, const char* what) {
            if (not full)
                return;
            evaluated();
            std::string now = shell(c);
            if (now != text.at(c))
                fail("C14:component changed", "%s '%s' is now '%s'", what, text.at(c).c_str(), now.c_str());
        }
        template <class C>
        void checkList(const std::vector<C*>& real, const Vec<C>& mine, const std::string& what) {
            evaluated();
            if (real != mine) {
                std::string a, b;
                for (auto* c : mine)
                    a += " '" + text[c] + "'";
                for (auto* c : real)
                    b += text.count(c) ? " '" + text[c] + "'" : " (something else)";
                fail("C14:wrong components", "%s: the edits imply%s, but it holds%s", what.c_str(), a.c_str(), b.c_str());
            }
        }
        template <class C, class H>
        void checkNames(const Vec<C>& mine, const std::string& what, H* holder, C* (H::*get)(const std::string&) const,
                        bool (H::*has)(const std::string&) const) {
            for (size_t k = 0; k < NAMES.size(); ++k) {
                const std::string& n = NAMES[k];
                if (not full and k != looked)
                    continue;
                C* expected = nullptr;
                for (auto* c : mine)
                    if (not expected and names.at(c) == n)
                        expected = c;
                C* found = nullptr;
                bool there = false;
                Ended e = guarded([&] {
                    there = (holder->*has)(n);
                    if (full or there)
                        found = (holder->*get)(n);
                });
                evaluated();
                if (not full and not there and not expected)
                    continue;
                if (there != (expected != nullptr) or found != expected or e.threw != not expected)
                    fail("C14:lookup", "%s: looking up '%s': %s", what.c_str(), n.c_str(),
                         expected ? "it is there but another result was given" : "it is not there but was found");
            }
        }
        template <class C, class H>
        void checkPositions(const Vec<C>& mine, const std::string& what, H* holder, C* (H::*get)(std::size_t) const) {
            for (size_t i = 0; i < mine.size(); ++i)
                if ((holder->*get)(i) != mine[i])
                    fail("C14:lookup", "%s: position %zu gives another component", what.c_str(), i);
            bool threw = not full;
            if (full)
            try {
                (holder->*get)(mine.size());
            } catch (std::exception&) {
                threw = true;
            }
            if (not threw)
                fail("C14:not rejected", "%s: position %zu of %zu components was given", what.c_str(), mine.size(), mine.size());
        }
        void checkVariable(fl::Variable* v, const std::string& what) {
            const Vec<fl::Term>& t = termsOf.at(v);
            const fl::Variable* c = v;
            checkList(c->terms(), t, "terms of " + what);
            if (c->numberOfTerms() != t.size())
                fail("C14:lookup", "number of terms of %s", what.c_str());
            checkNames(t, "terms of " + what, v, &fl::Variable::getTerm, &fl::Variable::hasTerm);
            checkPositions(t, "terms of " + what, v, &fl::Variable::getTerm);
            for (auto* x : t)
                checkText(x, "term");
        }
        void check(fl::InputVariable* v) {
            checkText(v, "input");
            checkVariable(v, "input");
        }
        void check(fl::OutputVariable* v) {
            checkText(v, "output");
            checkVariable(v, "output");
            if (full and not same(operators(v), operatorsOf.at(v)))
                fail("C14:wrong components", "output '%s' should hold %s, but holds %s", text.at(v).c_str(), operatorsOf.at(v).classes.c_str(),
                     operators(v).classes.c_str());
        }
        void check(fl::RuleBlock* b) {
            checkText(b, "rule block");
            std::string what = "rule block '" + text.at(b) + "'";
            const fl::RuleBlock* c = b;
            checkList(c->rules(), rulesOf.at(b), "rules of " + what);
            if (b->numberOfRules() != rulesOf.at(b).size())
                fail("C14:lookup", "number of rules of %s", what.c_str());
            checkPositions(rulesOf.at(b), "rules of " + what, b, &fl::RuleBlock::getRule);
            for (auto* r : rulesOf.at(b))
                checkText(r, "rule");
            if (full and not same(operators(b), operatorsOf.at(b)))
                fail("C14:wrong components", "%s should hold %s, but holds %s", what.c_str(), operatorsOf.at(b).classes.c_str(),
                     operators(b).classes.c_str());
        }
        void check(const EngineM& m) {
            const fl::Engine* e = m.engine;
            std::string what = "engine '" + m.name + "'";
            if (e->getName() != m.name)
                fail("C14:component changed", "%s is now '%s'", what.c_str(), e->getName().c_str());
            checkList(e->inputVariables(), m.in, "inputs of " + what);
            checkList(e->outputVariables(), m.out, "outputs of " + what);
            checkList(e->ruleBlocks(), m.blocks, "rule blocks of " + what);
            checkNames(m.in, "inputs of " + what, e, &fl::Engine::getInputVariable, &fl::Engine::hasInputVariable);
            checkNames(m.out, "outputs of " + what, e, &fl::Engine::getOutputVariable, &fl::Engine::hasOutputVariable);
            checkNames(m.blocks, "rule blocks of " + what, e, &fl::Engine::getRuleBlock, &fl::Engine::hasRuleBlock);
            checkPositions(m.in, "inputs of " + what, e, &fl::Engine::getInputVariable);
            checkPositions(m.out, "outputs of " + what, e, &fl::Engine::getOutputVariable);
            checkPositions(m.blocks, "rule blocks of " + what, e, &fl::Engine::getRuleBlock);
            if (e->numberOfInputVariables() != m.in.size() or e->numberOfOutputVariables() != m.out.size()
                or e->numberOfRuleBlocks() != m.blocks.size())
                fail("C14:lookup", "numbers of components of %s", what.c_str());
            Vec<fl::Variable> both(m.in.begin(), m.in.end());
            both.insert(both.end(), m.out.begin(), m.out.end());
            checkList(e->variables(), both, "variables of " + what);
            for (auto* v : m.in)
                check(v);
            for (auto* v : m.out)
                check(v);
            for (auto* b : m.blocks)
                check(b);
        }
        template <class H, class C>
        void checkNames(const Vec<C>& mine, const std::string& what, const H* holder, C* (H::*get)(const std::string&) const,
                        bool (H::*has)(const std::string&) const) {
            checkNames(mine, what, const_cast<H*>(holder), get, has);
        }
        template <class H, class C>
        void checkPositions(const Vec<C>& mine, const std::string& what, const H* holder, C* (H::*get)(std::size_t) const) {
            checkPositions(mine, what, const_cast<H*>(holder), get);
        }
        void checkAll(bool all) {
            full = all;
            looked = (looked + 1) % NAMES.size();
            for (auto& e : engines)
                check(e);
            for (auto* v : in)
                check(v);
            for (auto* v : out)
                check(v);
            for (auto* b : blocks)
                check(b);
            for (auto* t : terms)
                checkText(t, "term");
            for (auto* r : rules)
                checkText(r, "rule");
        }

        // ------------------------------------------------------------------------------------------------ creation
        std::string name() {
            return NAMES[weighted({4, 4, 3, 1, 1, 1})];
        }
        fl::Term* makeTerm(bool mayFail = false) {
            fl::Term* t = nullptr;
            std::string n = name();
            int kind = weighted({5, 2, 2, 1, 1});
            double p = gen::grid(0, 1), q = gen::grid(0, 1);
            Ended e = faulty(
                [&] {
                    switch (kind) {
                        case 0:
                            t = new fl::Triangle(n, p - 0.5, p, p + 0.5);
                            break;
                        case 1:
                            t = fl::Function::create(n, "x * (0.5 + sin x)");
                            break;
                        case 2: {
                            std::vector<fl::Discrete::Pair> xy;
                            xy.push_back(fl::Discrete::Pair(-1, q));
                            xy.push_back(fl::Discrete::Pair(p, 0.5));
                            xy.push_back(fl::Discrete::Pair(2, 0));
                            t = new fl::Discrete(n, xy);
                            break;
                        }
                        case 3:
                            t = new fl::Constant(n, p);
                            break;
                        default:
                            t = new fl::Gaussian(n, p, 0.25);
                    }
                },
                mayFail);
            if (t)
                born(t);
            else if (not e.oom)
                harnessError("no term");
            return t;
        }
        std::string ruleText() {
            std::string t = "if " + name() + " is " + name();
            if (chance(1, 3))
                t += (chance(1, 2) ? " and " : " or ") + name() + " is not " + name();
            t += " then " + name() + " is " + (chance(1, 4) ? "very " : "") + name();
            if (chance(1, 4))
                t += " and " + name() + " is " + name();
            if (chance(1, 4))
                t += " with 0.500";
            return t;
        }
        fl::Rule* makeRule(bool mayFail = false) {
            fl::Rule* r = nullptr;
            std::string t = ruleText();
            faulty([&] { r = new fl::Rule(t); }, mayFail);
            if (r)
                born(r);
            return r;
        }
        template <class V>
        V* makeVariable() {
            V* v = nullptr;
            std::string n = name();
            Vec<fl::Term> t;
            bool inConstructor = chance(1, 4);
            for (int k = range(0, 3); k > 0; --k)
                t.push_back(makeTerm());
            lib([&] {
                if (inConstructor)
                    v = new V(n, -1.0, 2.0, t);
                else {
                    v = new V(n, -1.0, 2.0);
                    for (auto* x : t)
                        v->addTerm(x);
                }
            });
            for (auto* x : t)
                gone(x);
            return v;
        }
        fl::InputVariable* makeInput() {
            fl::InputVariable* v = makeVariable<fl::InputVariable>();
            born(v);
            checkSameTerms(v);
            return v;
        }
        fl::OutputVariable* makeOutput() {
            fl::OutputVariable* v = makeVariable<fl::OutputVariable>();
            bool a = chance(3, 4), d = chance(3, 4);
            lib([&] {
                if (a)
                    v->setAggregation(new fl::Maximum);
                if (d)
                    v->setDefuzzifier(new fl::Centroid(20));
            });
            born(v);
            return v;
        }
        template <class V>
        void checkSameTerms(V*) {}
        fl::RuleBlock* makeBlock() {
            fl::RuleBlock* b = nullptr;
            std::string n = name();
            Vec<fl::Rule> r;
            bool inConstructor = chance(1, 4), operators = chance(3, 4);
            for (int k = range(0, 4); k > 0; --k)
                r.push_back(makeRule());
            lib([&] {
                if (inConstructor)
                    b = new fl::RuleBlock(n, r, new fl::General, new fl::Minimum, new fl::Maximum, new fl::AlgebraicProduct);
                else {
                    b = new fl::RuleBlock(n);
                    for (auto* x : r)
                        b->addRule(x);
                    if (operators) {
                        b->setConjunction(new fl::Minimum);
                        b->setDisjunction(new fl::Maximum);
                        b->setImplication(new fl::Minimum);
                        b->setActivation(new fl::General);
                    }
                }
            });
            for (auto* x : r)
                gone(x);
            born(b);
            return b;
        }
        void adoptEngine(fl::Engine* e) {
            EngineM m;
            m.engine = e;
            m.name = e->getName();
            m.in = e->inputVariables();
            m.out = e->outputVariables();
            m.blocks = e->ruleBlocks();
            for (auto* v : m.in)
                born(v);
            for (auto* v : m.out)
                born(v);
            for (auto* b : m.blocks)
                born(b);
            engines.push_back(m);
        }
        void makeEngine() {
            Vec<fl::InputVariable> i;
            Vec<fl::OutputVariable> o;
            Vec<fl::RuleBlock> b;
            for (int k = range(0, 2); k > 0; --k)
                i.push_back(makeInput());
            for (int k = range(0, 2); k > 0; --k)
                o.push_back(makeOutput());
            for (int k = range(0, 2); k > 0; --k)
                b.push_back(makeBlock());
            EngineM m;
            m.name = "engine" + std::to_string(++created);
            m.engine = nullptr;
            bool inConstructor = chance(1, 3);
            lib([&] {
                if (inConstructor)
                    m.engine = new fl::Engine(m.name, "", i, o, b, false);
                else {
                    m.engine = new fl::Engine(m.name);
                    for (auto* v : i)
                        m.engine->addInputVariable(v);
                    for (auto* v : o)
                        m.engine->addOutputVariable(v);
                    for (auto* v : b)
                        m.engine->addRuleBlock(v);
                }
            });
            m.in = i;
            m.out = o;
            m.blocks = b;
            engines.push_back(m);
            trace("new engine %s", m.name.c_str());
        }

        // ------------------------------------------------------------------------------------------------ edits of lists
        template <class C>
        struct Holder {
            std::string what;
            Vec<C>* mine;
            Vec<C>* loose;
            std::function<void(C*)> add, insertLast;
            std::function<void(C*, size_t)> insert;
            std::function<C*(C*, size_t)> set;
            std::function<C*(size_t)> removeAt;
            std::function<C*(const std::string&)> removeNamed;
            std::function<void(const Vec<C>&)> setAll;
            std::function<void(const Vec<C>&)> append;
            std::function<std::vector<C*>&()> direct;
            std::function<C*()> make;
        };
        template <class C>
        C* take(Holder<C>& h) {  // a component in the hands of the caller
            if (h.loose->empty() or chance(1, 4)) {
                C* c = h.make();
                h.loose->push_back(c);
            }
            size_t i = draw((uint32_t)h.loose->size());
            C* c = (*h.loose)[i];
            h.loose->erase(h.loose->begin() + i);
            return c;
        }
        void ended(const Ended& e, const std::string& what, bool mustThrow) {
            trace("%s -> %s", what.c_str(), e.oom ? "out of memory" : e.threw ? "error" : "ok");
            count(e.oom ? "edits that ran out of memory" : e.threw ? "edits rejected" : "edits");
            state(hashOf(what.substr(0, what.find('@'))) + (e.oom ? 1 : e.threw ? 2 : 3));
            if (mustThrow and e.ok())
                fail("C14:not rejected", "%s succeeded", what.c_str());
            if (not mustThrow and e.threw and not e.oom)
                fail("C14:edit failed", "%s failed: %s", what.c_str(), e.what.c_str());
        }
        template <class C>
        void editList(Holder<C> h) {
            Vec<C>& mine = *h.mine;
            switch (weighted({4, 4, h.set ? 3 : 0, 4, h.removeNamed ? 3 : 0, 2, h.append ? 1 : 0, 1, 1, h.set ? 1 : 0})) {
                case 0: {
                    C* c = take(h);
                    Ended e = faulty([&] { h.add(c); });
                    if (e.ok())
                        mine.push_back(c);
                    else
                        gone(c);
                    ended(e, "add@ to " + h.what, false);
                    break;
                }
                case 1: {
                    C* c = take(h);
                    size_t i = draw((uint32_t)mine.size() + 1);
                    Ended e = faulty([&] { h.insert(c, i); });
                    if (e.ok())
                        mine.insert(mine.begin() + i, c);
                    else
                        gone(c);
                    ended(e, "insert@ at " + std::to_string(i) + " of " + h.what, false);
                    break;
                }
                case 2: {
                    if (mine.empty())
                        break;
                    C* c = take(h);
                    size_t i = draw((uint32_t)mine.size());
                    C* old = nullptr;
                    Ended e = faulty([&] { old = h.set(c, i); });
                    if (e.ok()) {
                        if (old != mine[i])
                            fail("C14:lookup", "replacing number %zu of %s gave back another component", i, h.what.c_str());
                        h.loose->push_back(mine[i]);
                        mine[i] = c;
                    } else
                        h.loose->push_back(c);
                    ended(e, "set@ " + std::to_string(i) + " of " + h.what, false);
                    break;
                }
                case 3: {
                    if (mine.empty())
                        break;
                    size_t i = draw((uint32_t)mine.size());
                    C* old = nullptr;
                    Ended e = faulty([&] { old = h.removeAt(i); });
                    if (e.ok()) {
                        if (old != mine[i])
                            fail("C14:lookup", "removing number %zu of %s gave another component", i, h.what.c_str());
                        h.loose->push_back(mine[i]);
                        mine.erase(mine.begin() + i);
                    }
                    ended(e, "remove@ " + std::to_string(i) + " of " + h.what, false);
                    break;
                }
                case 4: {
                    std::string n = name();
                    size_t i = 0;
                    while (i < mine.size() and names.at(mine[i]) != n)
                        ++i;
                    C* old = nullptr;
                    Ended e = faulty([&] { old = h.removeNamed(n); });
                    bool unknown = i == mine.size();
                    if (e.ok() and not unknown) {
                        if (old != mine[i])
                            fail("C14:lookup", "removing '%s' of %s gave another component", n.c_str(), h.what.c_str());
                        h.loose->push_back(mine[i]);
                        mine.erase(mine.begin() + i);
                    }
                    ended(e, "remove named@ '" + n + "' of " + h.what, unknown);
                    break;
                }
                case 5: {  // a selection of those held now and of others, in another order
                    Vec<C> from = mine, to, rest;
                    for (int k = range(0, 2); k > 0; --k)
                        from.push_back(take(h));
                    while (not from.empty()) {
                        size_t i = draw((uint32_t)from.size());
                        (chance(3, 4) ? to : rest).push_back(from[i]);
                        from.erase(from.begin() + i);
                    }
                    Ended e = faulty([&] { h.setAll(to); });
                    if (e.ok()) {
                        h.loose->insert(h.loose->end(), rest.begin(), rest.end());
                        mine = to;
                    } else {
                        for (auto* v : {&to, &rest})
                            for (auto* c : *v)
                                if (std::find(mine.begin(), mine.end(), c) == mine.end())
                                    h.loose->push_back(c);
                    }
                    ended(e, "set all@ of " + h.what, false);
                    break;
                }
                case 6: {
                    Vec<C> more;
                    for (int k = range(0, 3); k > 0; --k)
                        more.push_back(take(h));
                    Ended e = faulty([&] { h.append(more); });
                    Vec<C>& to = e.ok() ? mine : *h.loose;
                    to.insert(to.end(), more.begin(), more.end());
                    ended(e, "append@ to " + h.what, false);
                    break;
                }
                case 7: {  // in the list itself
                    if (mine.size() < 2)
                        break;
                    size_t i = draw((uint32_t)mine.size()), k = draw((uint32_t)mine.size());
                    std::swap(h.direct()[i], h.direct()[k]);
                    std::swap(mine[i], mine[k]);
                    trace("swap in %s", h.what.c_str());
                    break;
                }
                case 8: {  // beyond the end
                    size_t i = mine.size() + draw(3);
                    Ended e = faulty([&] { h.removeAt(i); });
                    ended(e, "remove beyond the end@ of " + h.what, true);
                    break;
                }
                default: {
                    C* c = take(h);
                    size_t i = mine.size() + draw(3);
                    Ended e = faulty([&] { h.set(c, i); });
                    ended(e, "set beyond the end@ of " + h.what, true);
                    h.loose->push_back(c);
                }
            }
        }
        void editInputs(EngineM& m) {
            fl::Engine* e = m.engine;
            Holder<fl::InputVariable> h;
            h.what = "inputs of " + m.name;
            h.mine = &m.in;
            h.loose = &in;
            h.add = [=](fl::InputVariable* v) { e->addInputVariable(v); };
            h.insert = [=](fl::InputVariable* v, size_t i) { e->insertInputVariable(v, i); };
            h.set = [=](fl::InputVariable* v, size_t i) { return e->setInputVariable(v, i); };
            h.removeAt = [=](size_t i) { return e->removeInputVariable(i); };
            h.removeNamed = [=](const std::string& n) { return e->removeInputVariable(n); };
            h.setAll = [=](const Vec<fl::InputVariable>& v) { e->setInputVariables(v); };
            h.direct = [=]() -> Vec<fl::InputVariable>& { return e->inputVariables(); };
            h.make = [this] { return makeInput(); };
            editList(h);
        }
        void editOutputs(EngineM& m) {
            fl::Engine* e = m.engine;
            Holder<fl::OutputVariable> h;
            h.what = "outputs of " + m.name;
            h.mine = &m.out;
            h.loose = &out;
            h.add = [=](fl::OutputVariable* v) { e->addOutputVariable(v); };
            h.insert = [=](fl::OutputVariable* v, size_t i) { e->insertOutputVariable(v, i); };
            h.set = [=](fl::OutputVariable* v, size_t i) { return e->setOutputVariable(v, i); };
            h.removeAt = [=](size_t i) { return e->removeOutputVariable(i); };
            h.removeNamed = [=](const std::string& n) { return e->removeOutputVariable(n); };
            h.setAll = [=](const Vec<fl::OutputVariable>& v) { e->setOutputVariables(v); };
            h.direct = [=]() -> Vec<fl::OutputVariable>& { return e->outputVariables(); };
            h.make = [this] { return makeOutput(); };
            editList(h);
        }
        void editBlocks(EngineM& m) {
            fl::Engine* e = m.engine;
            Holder<fl::RuleBlock> h;
            h.what = "rule blocks of " + m.name;
            h.mine = &m.blocks;
            h.loose = &blocks;
            h.add = [=](fl::RuleBlock* v) { e->addRuleBlock(v); };
            h.insert = [=](fl::RuleBlock* v, size_t i) { e->insertRuleBlock(v, i); };
            h.set = [=](fl::RuleBlock* v, size_t i) { return e->setRuleBlock(v, i); };
            h.removeAt = [=](size_t i) { return e->removeRuleBlock(i); };
            h.removeNamed = [=](const std::string& n) { return e->removeRuleBlock(n); };
            h.setAll = [=](const Vec<fl::RuleBlock>& v) { e->setRuleBlocks(v); };
            h.direct = [=]() -> Vec<fl::RuleBlock>& { return e->ruleBlocks(); };
            h.make = [this] { return makeBlock(); };
            editList(h);
        }
        void editTerms(fl::Variable* v) {
            Holder<fl::Term> h;
            h.what = "terms of '" + names.at(v) + "'";
            h.mine = &termsOf.at(v);
            h.loose = &terms;
            h.add = [=](fl::Term* t) { v->addTerm(t); };
            h.insert = [=](fl::Term* t, size_t i) { v->insertTerm(t, i); };
            h.removeAt = [=](size_t i) { return v->removeTerm(i); };
            h.setAll = [=](const Vec<fl::Term>& t) { v->setTerms(t); };
            h.direct = [=]() -> Vec<fl::Term>& { return v->terms(); };
            h.make = [this] { return makeTerm(); };
            editList(h);
        }
        void editRules(fl::RuleBlock* b) {
            Holder<fl::Rule> h;
            h.what = "rules of '" + names.at(b) + "'";
            h.mine = &rulesOf.at(b);
            h.loose = &rules;
            bool fluent = chance(1, 4);
            h.add = [=](fl::Rule* r) { fluent ? (void)b->rule(r) : b->addRule(r); };
            h.insert = [=](fl::Rule* r, size_t i) { b->insertRule(r, i); };
            h.removeAt = [=](size_t i) { return b->removeRule(i); };
            h.setAll = [=](const Vec<fl::Rule>& r) { b->setRules(r); };
            h.append = [=](const Vec<fl::Rule>& r) { b->rules(r); };
            h.direct = [=]() -> Vec<fl::Rule>& { return b->rules(); };
            h.make = [this] { return makeRule(); };
            editList(h);
        }

        // ------------------------------------------------------------------------------------------------ operators
        void editOperators() {
            if (chance(1, 4) and not engines.empty()) {
                EngineM& m = engines[draw((uint32_t)engines.size())];
                bool named = chance(1, 2), bad = named and chance(1, 4);
                std::string names[6];
                for (int i = 0; i < 4; ++i)
                    names[i] = chance(1, 6) ? "" : gen::norm(i % 2 == 0);
                names[4] = chance(1, 6) ? "" : pick(gen::INTEGRAL);
                names[5] = chance(1, 4) ? "" : chance(1, 2) ? "First" : "General";
                fl::TNorm *conjunction = nullptr, *implication = nullptr;
                fl::SNorm *disjunction = nullptr, *aggregation = nullptr;
                fl::Defuzzifier* defuzzifier = nullptr;
                fl::Activation* activation = nullptr;
                std::string expectedOut, expectedBlock;
                if (bad)
                    names[draw(6)] = "Nothing";
                else {
                    lib([&] {
                        fl::FactoryManager* f = fl::FactoryManager::instance();
                        conjunction = f->tnorm()->constructObject(names[0]);
                        disjunction = f->snorm()->constructObject(names[1]);
                        implication = f->tnorm()->constructObject(names[2]);
                        aggregation = f->snorm()->constructObject(names[3]);
                        defuzzifier = f->defuzzifier()->constructObject(names[4]);
                        activation = f->activation()->constructObject(names[5]);
                    });
                    fl::FllExporter x;
                    expectedOut = x.toString(aggregation) + "|" + x.toString(defuzzifier);
                    std::unique_ptr<fl::Activation> general(new fl::General);
                    expectedBlock = x.toString(conjunction) + "|" + x.toString(disjunction) + "|" + x.toString(implication) + "|"
                                    + x.toString(activation ? activation : general.get());
                }
                Ended e = faulty([&] {
                    if (named)
                        m.engine->configure(names[0], names[1], names[2], names[3], names[4], names[5]);
                    else
                        m.engine->configure(conjunction, disjunction, implication, aggregation, defuzzifier, activation);
                });
                if (named)
                    lib([&] {
                        delete conjunction;
                        delete disjunction;
                        delete implication;
                        delete aggregation;
                        delete defuzzifier;
                        delete activation;
                    });
                if (e.ok() and not bad) {
                    std::set<const void*> seen;
                    auto own = [&](const void* p, const char* what) {
                        if (p and not seen.insert(p).second)
                            fail("C14:shared component", "after configuring %s, two components hold the same %s", m.name.c_str(), what);
                    };
                    for (auto* v : m.out) {
                        Operators o = operators(v);
                        if (o.classes != expectedOut)
                            fail("C14:wrong components", "configured output has %s instead of %s", o.classes.c_str(), expectedOut.c_str());
                        own(o.aggregation, "aggregation");
                        own(o.defuzzifier, "defuzzifier");
                        operatorsOf[v] = o;
                    }
                    for (auto* b : m.blocks) {
                        Operators o = operators(b);
                        if (o.classes != expectedBlock)
                            fail("C14:wrong components", "configured rule block has %s instead of %s", o.classes.c_str(), expectedBlock.c_str());
                        own(o.conjunction, "conjunction");
                        own(o.disjunction, "disjunction");
                        own(o.implication, "implication");
                        own(o.activation, "activation");
                        operatorsOf[b] = o;
                    }
                }
                ended(e, std::string("configure@ ") + m.name, bad);
                return;
            }
            bool none = chance(1, 5);
            if (chance(1, 2)) {
                Vec<fl::OutputVariable> all = allOutputs();
                if (all.empty())
                    return;
                fl::OutputVariable* v = pick(all);
                Operators& o = operatorsOf.at(v);
                bool a = chance(1, 2);
                std::string cls = none ? "" : a ? gen::norm(false) : pick(gen::INTEGRAL);
                fl::SNorm* s = nullptr;
                fl::Defuzzifier* d = nullptr;
                lib([&] {
                    if (a) {
                        s = fl::FactoryManager::instance()->snorm()->constructObject(cls);
                        v->setAggregation(s);
                    } else {
                        d = fl::FactoryManager::instance()->defuzzifier()->constructObject(cls);
                        v->setDefuzzifier(d);
                    }
                });
                (a ? (void)(o.aggregation = s) : (void)(o.defuzzifier = d));
                o.classes = fl::FllExporter().toString(o.aggregation) + "|" + fl::FllExporter().toString(o.defuzzifier);
                trace("output %s: %s %s", names.at(v).c_str(), a ? "aggregation" : "defuzzifier", cls.c_str());
            } else {
                Vec<fl::RuleBlock> all = allBlocks();
                if (all.empty())
                    return;
                fl::RuleBlock* b = pick(all);
                Operators& o = operatorsOf.at(b);
                int which = draw(4);
                std::string cls = none ? "" : which == 3 ? "First" : gen::norm(which != 1);
                fl::TNorm* t = nullptr;
                fl::SNorm* s = nullptr;
                fl::Activation* a = nullptr;
                bool fluent = chance(1, 4);
                lib([&] {
                    fl::FactoryManager* f = fl::FactoryManager::instance();
                    if (which == 0) {
                        t = f->tnorm()->constructObject(cls);
                        fluent ? (void)b->conjunction(t) : b->setConjunction(t);
                    } else if (which == 1) {
                        s = f->snorm()->constructObject(cls);
                        fluent ? (void)b->disjunction(s) : b->setDisjunction(s);
                    } else if (which == 2) {
                        t = f->tnorm()->constructObject(cls);
                        fluent ? (void)b->implication(t) : b->setImplication(t);
                    } else {
                        a = f->activation()->constructObject(cls);
                        fluent ? (void)b->activation(a) : b->setActivation(a);
                    }
                });
                if (which == 0)
                    o.conjunction = t;
                else if (which == 1)
                    o.disjunction = s;
                else if (which == 2)
                    o.implication = t;
                else
                    o.activation = a;
                fl::FllExporter x;
                o.classes
                    = x.toString(o.conjunction) + "|" + x.toString(o.disjunction) + "|" + x.toString(o.implication) + "|" + x.toString(o.activation);
                trace("block %s: operator %d %s", names.at(b).c_str(), which, cls.c_str());
            }
        }

        // ------------------------------------------------------------------------------------------------ names
        void rename() {
            std::string n = name();
            switch (draw(4)) {
                case 0: {
                    Vec<fl::Variable> all = allVariables();
                    if (all.empty())
                        return;
                    fl::Variable* v = pick(all);
                    lib([&] { v->setName(n); });
                    names[v] = n;
                    text[v] = n + text[v].substr(text[v].find('|'));
                    trace("rename variable to %s", n.c_str());
                    break;
                }
                case 1: {
                    Vec<fl::Term> all = allTerms();
                    if (all.empty())
                        return;
                    fl::Term* t = pick(all);
                    std::string before = shell(t);
                    lib([&] { t->setName(n); });
                    names[t] = n;
                    text[t] = shell(t);
                    trace("rename term to %s", n.c_str());
                    break;
                }
                case 2: {
                    Vec<fl::RuleBlock> all = allBlocks();
                    if (all.empty())
                        return;
                    fl::RuleBlock* b = pick(all);
                    lib([&] { b->setName(n); });
                    names[b] = n;
                    text[b] = n + text[b].substr(text[b].find('|'));
                    trace("rename block to %s", n.c_str());
                    break;
                }
                default: {
                    Vec<fl::Rule> all = allRules();
                    if (all.empty())
                        return;
                    fl::Rule* r = pick(all);
                    int what = draw(3);
                    std::string t = ruleText();
                    Ended e = faulty([&] {
                        if (what == 0)
                            r->setText(t);
                        else if (what == 1)
                            r->setAntecedent(new fl::Antecedent);
                        else
                            r->setConsequent(new fl::Consequent);
                    });
                    if (what == 0 and e.ok())
                        text[r] = t;
                    ended(e, "edit@ a rule", false);
                }
            }
        }

        // ------------------------------------------------------------------------------------------------ copies
        template <class C>
        void sameTexts(const C* a, const C* b, const char* what) {
            if (text.at(a) != text.at(b))
                fail("C14:wrong components", "a copy of %s '%s' is '%s'", what, text.at(b).c_str(), text.at(a).c_str());
        }
        template <class V>
        void sameTerms(V* a, V* b) {
            if (termsOf.at(a).size() != termsOf.at(b).size())
                fail("C14:wrong components", "a copy of '%s' has %zu terms instead of %zu", text.at(b).c_str(), termsOf.at(a).size(),
                     termsOf.at(b).size());
            for (size_t i = 0; i < termsOf.at(a).size(); ++i)
                sameTexts(termsOf.at(a)[i], termsOf.at(b)[i], "term");
        }
        void alike(fl::InputVariable* a, fl::InputVariable* b) {
            sameTexts(a, b, "input");
            sameTerms(a, b);
        }
        void distinct(const Operators& a, const Operators& b) {
            if (a.classes != b.classes)
                fail("C14:wrong components", "a copy has %s instead of %s", a.classes.c_str(), b.classes.c_str());
            if ((a.conjunction and a.conjunction == b.conjunction) or (a.disjunction and a.disjunction == b.disjunction)
                or (a.implication and a.implication == b.implication) or (a.aggregation and a.aggregation == b.aggregation)
                or (a.defuzzifier and a.defuzzifier == b.defuzzifier) or (a.activation and a.activation == b.activation))
                fail("C14:shared component", "a copy holds an operator of its source (%s)", a.classes.c_str());
        }
        void alike(fl::OutputVariable* a, fl::OutputVariable* b) {
            sameTexts(a, b, "output");
            sameTerms(a, b);
            distinct(operatorsOf.at(a), operatorsOf.at(b));
        }
        void alike(fl::RuleBlock* a, fl::RuleBlock* b) {
            sameTexts(a, b, "rule block");
            if (rulesOf.at(a).size() != rulesOf.at(b).size())
                fail("C14:wrong components", "a copy of rule block '%s' has another number of rules", text.at(b).c_str());
            for (size_t i = 0; i < rulesOf.at(a).size(); ++i)
                sameTexts(rulesOf.at(a)[i], rulesOf.at(b)[i], "rule");
            distinct(operatorsOf.at(a), operatorsOf.at(b));
        }
        void alike(fl::Term* a, fl::Term* b) {
            sameTexts(a, b, "term");
        }
        void alike(fl::Rule* a, fl::Rule* b) {
            sameTexts(a, b, "rule");
        }
        void alike(const EngineM& a, const EngineM& b) {
            if (a.in.size() != b.in.size() or a.out.size() != b.out.size() or a.blocks.size() != b.blocks.size() or a.name != b.name)
                fail("C14:wrong components", "a copy of engine '%s' has other components", b.name.c_str());
            for (size_t i = 0; i < a.in.size(); ++i)
                alike(a.in[i], b.in[i]);
            for (size_t i = 0; i < a.out.size(); ++i)
                alike(a.out[i], b.out[i]);
            for (size_t i = 0; i < a.blocks.size(); ++i)
                alike(a.blocks[i], b.blocks[i]);
        }
        template <class C>
        void copyOf(const Vec<C>& all, Vec<C>& loose, const char* what) {
            if (all.empty())
                return;
            C* source = pick(all);
            C* copy = nullptr;
            Ended e = faulty([&] { copy = source->clone(); });
            if (e.ok()) {
                born(copy);
                alike(copy, source);
                loose.push_back(copy);
            }
            ended(e, std::string("copy@ ") + what, false);
        }
        void copy() {
            switch (weighted({2, 2, 2, 1, 1, 3})) {
                case 0:
                    return copyOf(allInputs(), in, "input");
                case 1:
                    return copyOf(allOutputs(), out, "output");
                case 2:
                    return copyOf(allBlocks(), blocks, "rule block");
                case 3:
                    return copyOf(allTerms(), terms, "term");
                case 4:
                    return copyOf(allRules(), rules, "rule");
                default: {
                    if (engines.empty() or engines.size() > 3)
                        return;
                    size_t i = draw((uint32_t)engines.size());
                    fl::Engine* copy = nullptr;
                    bool clone = chance(1, 2);
                    Ended e = faulty([&] { copy = clone ? engines[i].engine->clone() : new fl::Engine(*engines[i].engine); });
                    if (e.ok()) {
                        adoptEngine(copy);
                        alike(engines.back(), engines[i]);
                        rechristen(engines.back());
                    }
                    ended(e, "copy@ engine", false);
                }
            }
        }
        void rechristen(EngineM& m) {
            m.name = "engine" + std::to_string(++created);
            lib([&] { m.engine->setName(m.name); });
        }
        template <class C>
        void keep(C* target) {  // what an assignment replaces is gone, but for the object itself
            gone(target);
        }
        template <class C>
        void assignOf(const Vec<C>& all, const char* what, bool move, C* (World::*make)()) {
            if (all.empty())
                return;
            C *a = pick(all), *b = pick(all);
            if (not move) {
                Ended e = faulty([&] { *a = *b; });
                if (e.ok() and a != b) {
                    gone(a);
                    born(a);
                    alike(a, b);
                }
                ended(e, std::string(a == b ? "assign to itself@ " : "assign@ ") + what, false);
            } else if (a != b) {
                // from a copy, whose components then belong to the target
                C* source = nullptr;
                Ended c = faulty([&] { source = b->clone(); });
                if (c.ok()) {
                    born(source);
                    alike(source, b);
                    transfer(a, source);
                }
                ended(c, std::string("move@ ") + what, false);
                (void)make;
            }
        }
        void transfer(fl::InputVariable* a, fl::InputVariable* source) {
            Vec<fl::Term> t = termsOf.at(source);
            moved(a, source);
            if (termsOf.at(a) != t)
                fail("C14:wrong components", "a moved input holds other terms than its source did");
        }
        void transfer(fl::OutputVariable* a, fl::OutputVariable* source) {
            Vec<fl::Term> t = termsOf.at(source);
            Operators o = operatorsOf.at(source);
            moved(a, source);
            if (termsOf.at(a) != t or not same(operatorsOf.at(a), o))
                fail("C14:wrong components", "a moved output holds other components than its source did");
        }
        void transfer(fl::RuleBlock* a, fl::RuleBlock* source) {
            Vec<fl::Rule> r = rulesOf.at(source);
            Operators o = operatorsOf.at(source);
            moved(a, source);
            if (rulesOf.at(a) != r or not same(operatorsOf.at(a), o))
                fail("C14:wrong components", "a moved rule block holds other components than its source did");
        }
        void transfer(fl::Rule* a, fl::Rule* source) {
            std::string t = text.at(source);
            moved(a, source);
            if (text.at(a) != t)
                fail("C14:wrong components", "a moved rule has another text than its source had");
        }
        template <class C>
        void moved(C* a, C* source) {
            std::string t = text.at(source);
            gone(a);
            gone(source);
            lib([&] {
                *a = std::move(*source);
                delete source;
            });
            born(a);
            if (text.at(a) != t)
                fail("C14:wrong components", "moving '%s' gives '%s'", t.c_str(), text.at(a).c_str());
        }
        fl::InputVariable* madeInput() {
            return makeInput();
        }
        void assign() {
            bool move = chance(1, 3);
            switch (weighted({2, 2, 2, 1, 1, 3})) {
                case 0:
                    return assignOf(allInputs(), "input", move, &World::makeInput);
                case 1:
                    return assignOf(allOutputs(), "output", move, &World::makeOutput);
                case 2:
                    return assignOf(allBlocks(), "rule block", move, &World::makeBlock);
                case 3: {
                    Vec<fl::Rule> all = allRules();
                    if (all.empty())
                        return;
                    return assignOf<fl::Rule>(all, "rule", move, nullptr);
                }
                case 4: {
                    Vec<fl::Term> all = allTerms();
                    if (all.empty())
                        return;
                    fl::Term *a = pick(all), *b = pick(all);
                    Ended e;
                    std::string before = a->className();
                    if (before != b->className())
                        return;
                    if (before == "Function")
                        e = faulty([&] { *static_cast<fl::Function*>(a) = *static_cast<fl::Function*>(b); });
                    else if (before == "Triangle")
                        e = faulty([&] { *static_cast<fl::Triangle*>(a) = *static_cast<fl::Triangle*>(b); });
                    else
                        return;
                    if (e.ok()) {
                        text[a] = text[b];
                        names[a] = names[b];
                    }
                    return ended(e, "assign@ term", false);
                }
                default: {
                    if (engines.empty())
                        return;
                    size_t i = draw((uint32_t)engines.size()), k = draw((uint32_t)engines.size());
                    if (not move) {
                        Ended e = faulty([&] { *engines[i].engine = *engines[k].engine; });
                        if (e.ok() and i != k) {
                            fl::Engine* p = engines[i].engine;
                            EngineM source = engines[k];
                            gone(engines[i]);
                            engines.erase(engines.begin() + i);
                            adoptEngine(p);
                            alike(engines.back(), source);
                            rechristen(engines.back());
                        }
                        ended(e, i == k ? "assign to itself@ engine" : "assign@ engine", false);
                    } else if (i != k or chance(1, 2)) {
                        // the components of one engine become those of another, or of a new one
                        bool construct = i == k;
                        fl::Engine* target = construct ? nullptr : engines[i].engine;
                        EngineM source = engines[k];
                        if (not construct)
                            gone(engines[i]);
                        Ended e = lib([&] {
                            if (construct)
                                target = new fl::Engine(std::move(*source.engine));
                            else
                                *target = std::move(*source.engine);
                            delete source.engine;
                        });
                        std::vector<EngineM> left;
                        for (size_t n = 0; n < engines.size(); ++n)
                            if (n != i and n != k)
                                left.push_back(engines[n]);
                        engines = left;
                        source.engine = target;
                        engines.push_back(source);
                        ended(e, construct ? "move construct@ engine" : "move@ engine", false);
                    }
                }
            }
        }

        // ------------------------------------------------------------------------------------------------ other uses
        void remove() {
            switch (weighted({2, 2, 2, 2, 2, 1})) {
                case 0:
                    return removeOf(in, "input");
                case 1:
                    return removeOf(out, "output");
                case 2:
                    return removeOf(blocks, "rule block");
                case 3:
                    return removeOf(terms, "term");
                case 4:
                    return removeOf(rules, "rule");
                default:
                    if (engines.size() > 1) {
                        size_t i = draw((uint32_t)engines.size());
                        EngineM m = engines[i];
                        engines.erase(engines.begin() + i);
                        gone(m);
                        lib([&] { delete m.engine; });
                        trace("delete engine %s", m.name.c_str());
                    }
            }
        }
        template <class C>
        void removeOf(Vec<C>& loose, const char* what) {
            if (loose.empty())
                return;
            size_t i = draw((uint32_t)loose.size());
            C* c = loose[i];
            loose.erase(loose.begin() + i);
            destroy(c);
            trace("delete %s", what);
        }
        void sort() {
            Vec<fl::Variable> all = allVariables();
            if (all.empty())
                return;
            fl::Variable* v = pick(all);
            lib([&] {
                for (auto* t : v->terms())
                    t->updateReference(nullptr);
            });
            Ended e = faulty([&] { v->sort(); });
            if (e.ok()) {
                // the order is not judged here
                Vec<fl::Term> now = v->terms(), a = now, b = termsOf.at(v);
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                if (a != b)
                    fail("C14:wrong components", "sorting '%s' changed the set of its terms", text.at(v).c_str());
                termsOf[v] = now;
            }
            ended(e, "sort@ terms", false);
        }
        // rules refer to the components that the lookups give: the engine works like one loaded from its text
        void use() {
            if (engines.empty())
                return;
            EngineM& m = engines[draw((uint32_t)engines.size())];
            fl::Engine* e = m.engine;
            std::vector<double> values;
            for (size_t i = 0; i < m.in.size(); ++i)
                values.push_back(gen::grid(-1, 2));
            Ended done = lib([&] {
                for (auto* v : e->variables())
                    for (auto* t : v->terms())
                        t->updateReference(e);
                for (auto* b : e->ruleBlocks())
                    try {
                        b->reloadRules(e);
                    } catch (fl::Exception&) {
                    }
                e->restart();
                for (size_t i = 0; i < values.size(); ++i)
                    e->getInputVariable(i)->setValue(values[i]);
                e->process();
            });
            std::string real;
            for (auto* v : m.out)
                real += " " + util::number(v->getValue());
            for (auto* b : m.blocks)
                operatorsOf[b] = checkedActivation(b);
            lib([&] {
                for (auto* v : e->outputVariables())
                    v->fuzzyOutput()->clear();
            });
            // compared without tracking
            std::string expected;
            std::unique_ptr<fl::Engine> twin;
            Ended loaded = guarded([&] { twin.reset(fl::FllImporter().fromString(fl::FllExporter().toString(e))); });
            bool nameless = false;
            for (auto& x : text)
                nameless = nameless or x.second.empty() or x.second[0] == '|';
            for (auto* v : e->variables()) {
                nameless = nameless or v->getName().empty();
                for (auto* t : v->terms())
                    nameless = nameless or t->getName().empty();
            }
            trace("process %s: %s%s", m.name.c_str(), done.threw ? "error" : "ok", real.c_str());
            if (not loaded.ok() or nameless)
                return;
            for (size_t i = 0; i < values.size(); ++i)
                twin->getInputVariable(i)->setValue(values[i]);
            Ended other = guarded([&] { twin->process(); });
            for (auto* v : twin->outputVariables())
                expected += " " + util::number(v->getValue());
            evaluated();
            count("edited engines used");
            if (other.threw != done.threw or expected != real)
                fail("C14:edited engine", "the edited engine gives%s (%s), one loaded from its text gives%s (%s)", real.c_str(),
                     done.threw ? done.what.c_str() : "ok", expected.c_str(), other.threw ? other.what.c_str() : "ok");
        }
        Operators checkedActivation(fl::RuleBlock* b) {
            Operators now = operators(b), then = operatorsOf.at(b);
            if (not then.activation and now.activation)  // a missing activation method is the general one
                then.activation = now.activation, then.classes = now.classes;
            return then;
        }

        void end() {
            for (auto& m : engines)
                lib([&] { delete m.engine; });
            lib([&] {
                for (auto* c : in)
                    delete c;
                for (auto* c : out)
                    delete c;
                for (auto* c : blocks)
                    delete c;
                for (auto* c : terms)
                    delete c;
                for (auto* c : rules)
                    delete c;
            });
        }
    };

    // ---------------------------------------------------------------------------------------------------- formula trees
    struct Trees {
        typedef fl::Function::Node Node;
        Vec<Node> loose;
        std::map<const void*, std::string> text;  // of the whole tree

        static std::string operation(const std::string& name, const std::string& a, const std::string& b) {
            return a + " " + b + " " + name;
        }
        static std::string shell(const Node* n) {
            return n->toPostfix();
        }
        void add(Node* n, const std::string& t) {
            loose.push_back(n);
            text[n] = t;
        }
        Node* take() {
            size_t i = draw((uint32_t)loose.size());
            Node* n = loose[i];
            loose.erase(loose.begin() + i);
            return n;
        }
        void step() {
            switch (weighted({3, 3, 2, 2, 2, 2, 1, 1, 1})) {
                case 0: {
                    Node* n = nullptr;
                    bool variable = chance(1, 2);
                    double c = gen::grid(0, 4);
                    std::string name = NAMES[draw(3)];
                    Ended e = faulty([&] { n = variable ? new Node(name) : new Node(c); });
                    if (e.ok())
                        add(n, variable ? name : gen::num(c));
                    break;
                }
                case 1: {
                    if (loose.size() < 2)
                        return;
                    Node *a = take(), *b = take(), *n = nullptr;
                    std::string op = std::vector<std::string>{"+", "*", "-"}[draw(3)];
                    lib([&] { n = new Node(fl::FactoryManager::instance()->function()->cloneObject(op), a, b); });
                    std::string t = operation(op, text[a], text[b]);
                    text.erase(a);
                    text.erase(b);
                    add(n, t);
                    trace("tree %s", t.c_str());
                    break;
                }
                case 2: {
                    if (loose.empty())
                        return;
                    Node *s = pick(loose), *n = nullptr;
                    bool clone = chance(1, 2);
                    Ended e = faulty([&] { n = clone ? s->clone() : new Node(*s); });
                    if (e.ok())
                        add(n, text[s]);
                    trace("copy tree: %s", e.threw ? "out of memory" : "ok");
                    break;
                }
                case 3: {
                    if (loose.empty())
                        return;
                    Node *a = pick(loose), *b = pick(loose);
                    Ended e = faulty([&] { *a = *b; });
                    if (e.ok())
                        text[a] = text[b];
                    trace("assign tree: %s", e.threw ? "out of memory" : "ok");
                    break;
                }
                case 4: {  // one of its own branches
                    if (loose.empty())
                        return;
                    Node* a = pick(loose);
                    if (not a->left or not a->right)
                        return;
                    Node* child = chance(1, 2) ? a->left.get() : a->right.get();
                    std::string t = shell(child);
                    Ended e = faulty([&] { *a = *child; });
                    if (e.ok())
                        text[a] = t;
                    trace("assign branch %s: %s", t.c_str(), e.threw ? "out of memory" : "ok");
                    break;
                }
                case 5: {  // take a branch out and put another in
                    if (loose.size() < 2)
                        return;
                    Node* b = take();
                    Node* a = pick(loose);
                    if (not a->left) {
                        loose.push_back(b);
                        return;
                    }
                    Node* old = a->left.release();
                    std::string t = shell(old);
                    a->left.reset(b);
                    text[a] = shell(a);
                    if (text[a] != operation(a->element->name, text[b], shell(a->right.get())))
                        fail("C14:wrong components", "a formula with a replaced branch is '%s'", text[a].c_str());
                    text.erase(b);
                    add(old, t);
                    trace("replace branch");
                    break;
                }
                case 6: {
                    if (loose.size() < 2)
                        return;
                    Node* b = take();
                    Node* a = pick(loose);
                    std::string t = text[b];
                    lib([&] {
                        *a = std::move(*b);
                        delete b;
                    });
                    text.erase(b);
                    text[a] = t;
                    trace("move tree");
                    break;
                }
                default: {
                    if (loose.empty())
                        return;
                    Node* a = take();
                    text.erase(a);
                    lib([&] { delete a; });
                    trace("delete tree");
                }
            }
            for (auto* n : loose) {
                evaluated();
                if (shell(n) != text[n])
                    fail("C14:wrong components", "formula '%s' is now '%s'", text[n].c_str(), shell(n).c_str());
            }
            if (loose.size() > 8 or (not loose.empty() and text[loose.back()].size() > 400)) {
                Node* n = loose.back();
                loose.pop_back();
                text.erase(n);
                lib([&] { delete n; });
            }
        }
        void end() {
            lib([&] {
                for (auto* n : loose)
                    delete n;
            });
        }
    };

    // ---------------------------------------------------------------------------------------------------- aggregated terms
    struct Sets {
        struct Item {
            const fl::Term* term;
            double degree;
            const fl::TNorm* implication;
            bool operator==(const Item& o) const {
                return term == o.term and degree == o.degree and implication == o.implication;
            }
        };
        struct Set {
            fl::Aggregated* real;
            std::vector<Item> items;
            fl::SNorm* norm;
        };
        fl::Triangle terms[3] = {fl::Triangle("a", 0, 1, 2), fl::Triangle("b", 1, 2, 3), fl::Triangle("c", 2, 3, 4)};
        fl::Minimum minimum;
        std::vector<Set> sets;

        static Item item(const fl::Activated& a) {
            return {a.getTerm(), a.getDegree(), a.getImplication()};
        }
        void step() {
            if (sets.empty() or chance(1, 8)) {
                Set s{nullptr, {}, nullptr};
                lib([&] { s.real = new fl::Aggregated("set", 0, 4); });
                sets.push_back(s);
            }
            size_t i = draw((uint32_t)sets.size());
            Set& s = sets[i];
            const fl::Term* t = &terms[draw(3)];
            double d = gen::grid(0, 1);
            const fl::TNorm* norm = chance(1, 3) ? nullptr : &minimum;
            Ended e;
            const char* what = "";
            switch (weighted({3, 2, 2, 3, 2, 2, 1, 2, 2, 2, 1, 1})) {
                case 0:
                    what = "add";
                    e = faulty([&] { s.real->addTerm(t, d, norm); });
                    if (e.ok())
                        s.items.push_back({t, d, norm});
                    break;
                case 1:
                    what = "add activated";
                    e = faulty([&] { s.real->addTerm(fl::Activated(t, d, norm)); });
                    if (e.ok())
                        s.items.push_back({t, d, norm});
                    break;
                case 2: {
                    if (s.items.empty())
                        return;
                    what = "add its own";
                    size_t k = draw((uint32_t)s.items.size());
                    e = faulty([&] { s.real->addTerm(s.real->getTerm(k)); });
                    if (e.ok())
                        s.items.push_back(Item(s.items[k]));
                    break;
                }
                case 3: {
                    if (s.items.empty())
                        return;
                    what = "remove";
                    size_t k = draw((uint32_t)s.items.size());
                    Item got{nullptr, 0, nullptr};
                    e = faulty([&] {
                        fl::Activated a = s.real->removeTerm(k);
                        got = item(a);
                    });
                    if (e.ok()) {
                        if (not(got == s.items[k]))
                            fail("C14:lookup", "removing term %zu of an aggregated term gave another one", k);
                        s.items.erase(s.items.begin() + k);
                    }
                    break;
                }
                case 4:
                    what = "remove beyond the end";
                    e = faulty([&] { s.real->removeTerm(s.items.size() + draw(2)); });
                    if (e.ok())
                        fail("C14:not rejected", "removing a term beyond the end of an aggregated term succeeded");
                    break;
                case 5: {
                    what = "set all";
                    Set& o = sets[draw((uint32_t)sets.size())];
                    e = faulty([&] { s.real->setTerms(o.real->terms()); });
                    if (e.ok())
                        s.items = std::vector<Item>(o.items);
                    break;
                }
                case 6:
                    what = "clear";
                    lib([&] { s.real->clear(); });
                    s.items.clear();
                    break;
                case 7: {
                    what = "assign";
                    Set& o = sets[draw((uint32_t)sets.size())];
                    e = faulty([&] { *s.real = *o.real; });
                    if (e.ok() and &o != &s) {
                        s.items = o.items;
                        s.norm = s.real->getAggregation();
                        if ((s.norm == nullptr) != (o.norm == nullptr))
                            fail("C14:wrong components", "the aggregation of an assigned aggregated term differs");
                        if (s.norm and s.norm == o.norm)
                            fail("C14:shared component", "an assigned aggregated term holds the aggregation of its source");
                    }
                    break;
                }
                case 8: {
                    what = "copy";
                    Set c{nullptr, s.items, nullptr};
                    e = faulty([&] { c.real = s.real->clone(); });
                    if (e.ok()) {
                        c.norm = c.real->getAggregation();
                        if ((c.norm == nullptr) != (s.norm == nullptr) or (c.norm and c.norm == s.norm))
                            fail("C14:shared component", "a copy of an aggregated term holds the aggregation of its source");
                        sets.push_back(c);
                    }
                    break;
                }
                case 9: {
                    what = "aggregation";
                    bool none = chance(1, 4);
                    fl::SNorm* n = nullptr;
                    lib([&] {
                        n = none ? nullptr : new fl::Maximum;
                        s.real->setAggregation(n);
                    });
                    s.norm = n;
                    break;
                }
                case 10: {
                    what = "move";
                    Set& o = sets[draw((uint32_t)sets.size())];
                    if (&o == &s)
                        return;
                    std::vector<Item> items = o.items;
                    fl::SNorm* n = o.norm;
                    fl::Aggregated* source = o.real;
                    lib([&] {
                        *s.real = std::move(*source);
                        delete source;
                    });
                    s.items = items;
                    s.norm = n;
                    sets.erase(sets.begin() + (&o - &sets[0]));
                    break;
                }
                default:
                    what = "delete";
                    lib([&] { delete s.real; });
                    sets.erase(sets.begin() + i);
            }
            trace("aggregated: %s: %s", what, e.oom ? "out of memory" : e.threw ? "error" : "ok");
            state(hashOf(what) + e.oom);
            for (auto& x : sets) {
                evaluated();
                const fl::Aggregated* r = x.real;
                bool ok = r->numberOfTerms() == x.items.size() and r->terms().size() == x.items.size() and r->getAggregation() == x.norm
                          and r->isEmpty() == x.items.empty();
                for (size_t k = 0; ok and k < x.items.size(); ++k)
                    ok = item(r->getTerm(k)) == x.items[k] and item(r->terms()[k]) == x.items[k];
                if (not ok)
                    fail("C14:wrong components", "after '%s' an aggregated term does not hold what the edits imply", what);
                fl::FllExporter().toString(r);
            }
        }
        void end() {
            lib([&] {
                for (auto& s : sets)
                    delete s.real;
            });
        }
    };

    void story() {
        mem::Off off;
        mem::begin();
        {
            World w;
            Trees trees;
            Sets sets;
            w.makeEngine();
            if (chance(1, 2))
                w.makeEngine();
            int steps = range(10, thorough() ? 160 : 70);
            for (int n = 0; n < steps; ++n) {
                switch (weighted({10, 6, 6, 3, 3, 4, 5, 3, 1, 3, 3, 3, 1})) {
                    case 0: {
                        if (w.engines.empty())
                            w.makeEngine();
                        EngineM& m = w.engines[draw((uint32_t)w.engines.size())];
                        int k = draw(3);
                        k == 0 ? w.editInputs(m) : k == 1 ? w.editOutputs(m) : w.editBlocks(m);
                        break;
                    }
                    case 1: {
                        Vec<fl::Variable> all = w.allVariables();
                        if (not all.empty())
                            w.editTerms(pick(all));
                        break;
                    }
                    case 2: {
                        Vec<fl::RuleBlock> all = w.allBlocks();
                        if (not all.empty())
                            w.editRules(pick(all));
                        break;
                    }
                    case 3:
                        w.editOperators();
                        break;
                    case 4:
                        w.rename();
                        break;
                    case 5:
                        w.copy();
                        break;
                    case 6:
                        w.assign();
                        break;
                    case 7:
                        w.remove();
                        break;
                    case 8:
                        w.sort();
                        break;
                    case 9:
                        w.use();
                        break;
                    case 10:
                        for (int k = range(1, 12); k > 0; --k)
                            trees.step();
                        break;
                    case 11:
                        for (int k = range(1, 8); k > 0; --k)
                            sets.step();
                        break;
                    default:
                        if (w.engines.size() < 3)
                            w.makeEngine();
                }
                w.checkAll(n % 10 == 9 or n + 1 == steps);
            }
            trees.end();
            sets.end();
            w.end();
        }
        mem::end();
    }
}

static void run() {
    uint32_t from = mark();
    story();
    if (mem::live()) {
        // memory that the library keeps for later is not lost: only what is left over by the same edits once more counts
        mem::forget();
        reread(from);
        story();
        rereadDone();
        if (mem::live()) {
            uint64_t n = mem::live();
            std::string what = mem::liveSummary();
            fail("C14:never released", "%d blocks of memory were never released, among them %s", (int)n, what.c_str());
        }
    }
    nontrivial();
}
static Property p("C14", run);
