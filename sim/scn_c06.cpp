// C06: rules, rule blocks, formulas and engines from texts that are invalid: nothing stays half-loaded, nothing else changes.
#include <math.h>

#include <functional>
#include <sstream>

#include "session.h"

using namespace sim;

namespace {
    typedef std::vector<std::string> Words;
    std::string joined(const Words& w) {
        std::string r;
        for (auto& x : w)
            r += (r.empty() ? "" : " ") + x;
        return r;
    }
    Words split(const std::string& t) {
        std::istringstream in(t);
        Words w;
        std::string x;
        while (in >> x)
            w.push_back(x);
        return w;
    }
    Words lines(const std::string& t) {
        std::istringstream in(t);
        Words w;
        std::string x;
        while (std::getline(in, x))
            w.push_back(x);
        return w;
    }
    std::string text(const Words& l) {
        std::string r;
        for (auto& x : l)
            r += x + "\n";
        return r;
    }
    bool has(const std::string& t, const std::string& x) {
        return t.find(x) != std::string::npos;
    }
    bool isHedge(const std::string& w) {
        for (auto& h : gen::HEDGES)
            if (h == w)
                return true;
        return false;
    }

    // ------------------------------------------------------------------------------------------------ rules
    enum Role { IF, THEN, WITH, WEIGHT, OPEN, CLOSE, VARIABLE, IS, HEDGE, TERM, AND, OR };
    // the text of a rule of the generator, word by word
    std::vector<Role> roles(const Words& w) {
        std::vector<Role> r;
        Role last = IF;
        for (auto& x : w) {
            if (last == WITH)
                last = WEIGHT;
            else if (last == IS or last == HEDGE)
                last = isHedge(x) ? HEDGE : x == "then" ? THEN : x == ")" ? CLOSE : x == "and" ? AND : x == "or" ? OR : x == "with" ? WITH : TERM;
            else
                last = x == "if" ? IF : x == "then" ? THEN : x == "with" ? WITH : x == "(" ? OPEN : x == ")" ? CLOSE : x == "and" ? AND : x == "or" ? OR : x == "is" ? IS : VARIABLE;
            r.push_back(last);
        }
        return r;
    }
    // a text that no grammar of rules allows
    std::string invalidRule(const gen::EngineSpec& s, const gen::RuleSpec& rule) {
        Words w = split(s.ruleText(rule));
        std::vector<Role> r = roles(w);
        size_t then = 0;
        while (r[then] != THEN)
            ++then;
        auto some = [&](std::function<bool(size_t)> f) {
            std::vector<size_t> c;
            for (size_t i = 0; i < w.size(); ++i)
                if (f(i))
                    c.push_back(i);
            return c.empty() ? w.size() : pick(c);
        };
        for (int attempt = 0; attempt < 20; ++attempt) {
            size_t i;
            switch (draw(25)) {
                case 0:
                    w.erase(w.begin());
                    return joined(w);
                case 1:
                    w[0] = "when";
                    return joined(w);
                case 2:
                    w.erase(w.begin() + then);
                    return joined(w);
                case 3:
                    w.insert(w.begin() + then, "then");
                    return joined(w);
                case 4:
                    w.erase(w.begin() + 1, w.begin() + then);
                    return joined(w);
                case 5:
                    w.erase(w.begin() + then + 1, w.end());
                    return joined(w);
                case 6:
                    w[some([&](size_t k) { return r[k] == VARIABLE; })] = "nothing";
                    return joined(w);
                case 7:  // an input in the consequent
                    i = some([&](size_t k) { return r[k] == VARIABLE and k > then; });
                    w[i] = s.inputs[draw((uint32_t)s.inputs.size())].name;
                    return joined(w);
                case 8:
                    i = some([&](size_t k) { return r[k] == IS; });
                    if (chance(1, 2))
                        w.erase(w.begin() + i);
                    else
                        w.insert(w.begin() + i, "is");
                    return joined(w);
                case 9:
                    i = some([&](size_t k) { return r[k] == TERM; });
                    if (i == w.size())
                        break;
                    w[i] = "nobody";
                    return joined(w);
                case 10:
                    i = some([&](size_t k) { return r[k] == TERM; });
                    if (i == w.size())
                        break;
                    w.erase(w.begin() + i);
                    return joined(w);
                case 11:  // more after the weight
                    if (not rule.weightInText)
                        w.push_back("with"), w.push_back("0.500");
                    w.push_back(chance(1, 2) ? "0.250" : "and");
                    return joined(w);
                case 12:
                    if (rule.weightInText)
                        w.pop_back();
                    else
                        w.push_back("with");
                    if (chance(1, 2))
                        w.push_back("half");
                    return joined(w);
                case 13:
                    w.insert(w.begin() + then, "with");
                    return joined(w);
                case 14:
                    w.insert(w.begin() + 1, "(");
                    return joined(w);
                case 15:
                    w.insert(w.begin() + then, ")");
                    return joined(w);
                case 16:  // an operator too many
                    w.insert(w.begin() + then, chance(1, 2) ? "and" : "or");
                    return joined(w);
                case 17:  // an operator missing
                    i = some([&](size_t k) { return r[k] == AND or r[k] == OR; });
                    if (i == w.size())
                        break;
                    w.erase(w.begin() + i);
                    return joined(w);
                case 18:
                    i = some([&](size_t k) { return (r[k] == AND or r[k] == OR) and k > then; });
                    if (i == w.size())
                        break;
                    if (chance(1, 2))
                        w[i] = "or";
                    else
                        w.insert(w.begin() + i, "and");
                    return joined(w);
                case 19:
                    w.insert(w.begin() + some([&](size_t k) { return r[k] == IS; }) + 1, "hardly");
                    return joined(w);
                case 21:  // cut off within a conclusion
                    i = some([&](size_t k) { return k >= then and (r[k] == VARIABLE or r[k] == IS or r[k] == HEDGE or r[k] == AND); });
                    w.resize(i + 1);
                    return joined(w);
                case 22:  // a term too many
                    i = some([&](size_t k) { return r[k] == TERM; });
                    if (i == w.size())
                        break;
                    w.insert(w.begin() + i, w[i]);
                    return joined(w);
                case 23:  // more about anything
                    i = some([&](size_t k) { return k < then and w[k] == "any" and r[k] == HEDGE; });
                    if (i == w.size())
                        break;
                    w.insert(w.begin() + i + 1, chance(1, 2) ? "very" : pick(s.inputs[0].terms).name);
                    return joined(w);
                case 20:  // cut off in a comment
                    w.insert(w.begin() + range(0, (int)then), "#");
                    return joined(w);
                default:
                    return pick(Words{"", " ", "# nothing", "if", "then", "if then", "low", "if ( ) then", "with 1.0"});
            }
        }
        return "if";
    }
    // damage anywhere, which may leave a text that is valid
    std::string damaged(std::string t) {
        for (int k = range(1, 3); k > 0 and not t.empty(); --k) {
            size_t at = draw((uint32_t)t.size());
            switch (draw(4)) {
                case 0: t.erase(at, range(1, 6)); break;
                case 1: t.insert(at, pick(Words{" ", "(", ")", " and ", " or ", " is ", " not ", " any ", "#", " then ", " with ", "1", ",", "+", "\n", ":", "=", "'", "[", "-"})); break;
                case 2: t.resize(at); break;
                default: {
                    Words w = split(t);
                    if (w.size() < 2)
                        break;
                    std::swap(w[draw((uint32_t)w.size())], w[draw((uint32_t)w.size())]);
                    t = joined(w);
                }
            }
        }
        return t;
    }

    // what a rule is, as text
    std::string seen(const fl::Rule& r) {
        std::string t = r.isLoaded() ? "loaded " : "not loaded ";
        if (r.getAntecedent()->isLoaded())
            t += "if " + r.getAntecedent()->toString() + " prefix " + r.getAntecedent()->toPrefix();
        if (r.getConsequent()->isLoaded())
            t += " then " + r.getConsequent()->toString();
        if (r.isLoaded())
            t += " weight " + util::number(r.getWeight());
        return t + (r.isEnabled() ? " enabled" : " disabled") + " degree " + util::number(r.getActivationDegree()) + (r.isTriggered() ? " triggered" : "");
    }
    // the same operation is repeated to exclude memory that is kept for later
    void nothingLost(const std::string& what, std::function<void()> f) {
        uint64_t live = 0;
        std::string summary;
        uint32_t from = mark();
        for (int again = 0; again < 3; ++again) {
            if (again)
                reread(from);
            mem::begin();
            f();
            live = mem::live();
            if (live)
                summary = mem::liveSummary();
            mem::forget();
            mem::end();
            if (again)
                rereadDone();
            if (not live)
                break;
        }
        evaluated();
        if (live)
            fail("C06:memory lost", "%s loses memory every time: %s", what.c_str(), summary.c_str());
    }

    struct World {
        gen::EngineSpec s;
        model::Model m;
        std::unique_ptr<fl::Engine> e;
        ops::Options o;

        fl::Rule* rule(int b, int r) {
            return e->getRuleBlock(b)->getRule(r);
        }
        bool anyRule(int& b, int& r) {
            b = draw((uint32_t)m.s.blocks.size());
            if (m.rules[b].empty())
                return false;
            r = draw((uint32_t)m.rules[b].size());
            return true;
        }
        void loaded(int b, int r, const gen::RuleSpec& spec) {
            gen::RuleSpec& k = m.s.blocks[b].rules[r];
            k = spec;
            k.enabled = true;
            k.weight = k.weightInText ? k.textWeight : 1.0;
            m.rules[b][r] = model::RuleState();
        }
        void notLoaded(int b, int r) {
            m.rules[b][r] = model::RuleState();
            m.rules[b][r].loaded = false;
            m.s.blocks[b].rules[r].enabled = true;
        }
        gen::RuleSpec another() {
            gen::RuleSpec n = gen::rule(m.s, o.gen);
            n.enabled = true;
            return n;
        }
        void mustBe(int b, int r, const std::string& after) {
            evaluated();
            fl::Rule* k = rule(b, r);
            bool is = k->isLoaded(), half = k->getAntecedent()->isLoaded() or k->getConsequent()->isLoaded();
            bool must = m.rules[b][r].loaded;
            if (is != must or (not must and half))
                fail("C06:half-loaded", "%s, rule %d.%d is %s instead of %s: %s", after.c_str(), b, r, is ? "loaded" : half ? "half-loaded" : "not loaded",
                     must ? "loaded" : "not loaded", k->getText().c_str());
            if (not must and (k->getActivationDegree() != 0.0 or k->isTriggered()))
                fail("C06:contributes", "%s, rule %d.%d is not loaded but has activation degree %g%s", after.c_str(), b, r, k->getActivationDegree(),
                     k->isTriggered() ? " and is triggered" : "");
        }
        void others(const std::string& after) {
            for (size_t b = 0; b < m.rules.size(); ++b)
                for (size_t r = 0; r < m.rules[b].size(); ++r)
                    mustBe((int)b, (int)r, after);
        }
        // a text of which nothing is known must do the same in a rule with a history and in a new one
        void asNew(int b, int r, const std::string& t) {
            fl::Rule* k = rule(b, r);
            std::string before = util::snapshot(*e);
            Ended x = guarded([&] { k->load(t, e.get()); });
            fl::Rule fresh;
            Ended y = guarded([&] { fresh.load(t, e.get()); });
            evaluated();
            trace("rule %d.%d from damaged text: %s: %s", b, r, t.c_str(), x.ok() ? "loaded" : "rejected");
            if (x.ok() != y.ok() or seen(*k) != seen(fresh))
                fail("C06:earlier failure", "rule text '%s': a rule loaded before is now %s; a new rule is %s", t.c_str(), seen(*k).c_str(), seen(fresh).c_str());
            if (x.ok() != k->isLoaded())
                fail("C06:half-loaded", "rule text '%s' %s but the rule is %s", t.c_str(), x.ok() ? "was accepted" : "was rejected", k->isLoaded() ? "loaded" : "not loaded");
            // back to a text that the model knows
            if (chance(1, 2)) {
                k->unload();
                notLoaded(b, r);
            } else
                valid(b, r);
        }
        void valid(int b, int r) {
            gen::RuleSpec n = chance(1, 2) ? m.s.blocks[b].rules[r] : another();
            std::string t = m.s.ruleText(n);
            fl::Rule* k = rule(b, r);
            trace("rule %d.%d becomes: %s", b, r, t.c_str());
            int how = draw(3);
            Ended x = guarded([&] {
                if (how == 0)
                    k->load(t, e.get());
                else if (how == 1) {
                    k->setText(t);
                    k->load(e.get());
                } else {
                    k->unload();
                    k->load(t, e.get());
                }
            });
            if (x.threw)
                fail("C06:valid text rejected", "rule %d.%d: '%s' was rejected: %s", b, r, t.c_str(), x.what.c_str());
            loaded(b, r, n);
            mustBe(b, r, "after loading a valid text");
        }
        void invalid(int b, int r) {
            std::string t = invalidRule(m.s, chance(1, 2) ? m.s.blocks[b].rules[r] : another());
            fl::Rule* k = rule(b, r);
            trace("rule %d.%d from invalid text: %s", b, r, t.c_str());
            count("fault:invalid rule");
            bool exhausted = chance(1, 6);
            if (exhausted) {
                mem::begin();
                mem::failAt(range(1, 60), chance(1, 2));
            }
            bool byText = chance(1, 2);
            Ended x = guarded([&] {
                if (byText)
                    k->setText(t), k->load(e.get());
                else
                    k->load(t, e.get());
            });
            if (exhausted) {
                if (mem::fired())
                    count("fault:exhausted memory");
                mem::end();
                mem::forget();
            }
            evaluated();
            if (not x.threw)
                fail("C06:invalid text accepted", "rule %d.%d: '%s' was accepted: %s", b, r, t.c_str(), seen(*k).c_str());
            if (x.oom and k->isLoaded()) {  // memory ran out before anything happened
                m.rules[b][r].degree = k->getActivationDegree();
                m.rules[b][r].triggered = k->isTriggered();
                m.s.blocks[b].rules[r].enabled = k->isEnabled();
            } else {
                notLoaded(b, r);
                if (x.oom)  // enabled before or after memory ran out
                    m.s.blocks[b].rules[r].enabled = k->isEnabled();
            }
            others("after a rejected text");
            if (chance(1, 2))
                asked(b, r);
            state(hashOf(joined(split(t)).substr(0, 12)) % 997);
        }
        void exhausted(int b, int r) {  // a valid text while memory runs out
            gen::RuleSpec n = another();
            std::string t = m.s.ruleText(n);
            fl::Rule* k = rule(b, r);
            trace("rule %d.%d while memory runs out: %s", b, r, t.c_str());
            bool was = m.rules[b][r].loaded;
            mem::begin();
            mem::failAt(range(1, 90), chance(1, 2));
            Ended x = guarded([&] { k->load(t, e.get()); });
            bool fired = mem::fired();
            mem::end();
            mem::forget();
            if (fired)
                count("fault:exhausted memory");
            if (not x.threw)
                loaded(b, r, n);
            else if (not(was and k->isLoaded())) {
                notLoaded(b, r);
                mustBe(b, r, "after memory ran out");
                valid(b, r);
            } else
                valid(b, r);
        }
        // a rule that is not loaded, asked directly: it must refuse and change nothing
        void asked(int b, int r) {
            fl::Rule* k = rule(b, r);
            if (m.rules[b][r].loaded)
                return;
            static const char* what[] = {"activated", "triggered", "antecedent activated", "consequent applied", "printed in prefix", "printed in infix", "printed in postfix"};
            fl::RuleBlock* block = e->getRuleBlock(b);
            int how = draw(7);
            trace("rule %d.%d, not loaded, is %s", b, r, what[how]);
            double degree = pick(std::vector<double>{1.0, 0.5, 0.0});
            std::string before = util::snapshot(*e);
            Ended x = guarded([&] {
                switch (how) {
                    case 0: k->activateWith(block->getConjunction(), block->getDisjunction()); break;
                    case 1:
                        k->setActivationDegree(degree);
                        k->trigger(block->getImplication());
                        break;
                    case 2: k->getAntecedent()->activationDegree(block->getConjunction(), block->getDisjunction()); break;
                    case 3: k->getConsequent()->modify(degree, block->getImplication()); break;
                    case 4: k->getAntecedent()->toPrefix(); break;
                    case 5: k->getAntecedent()->toInfix(); break;
                    default: k->getAntecedent()->toPostfix(); break;
                }
            });
            evaluated();
            bool triggered = k->isTriggered();
            k->setActivationDegree(0.0);
            if (not x.threw and how != 4 and how != 5 and how != 6)
                fail("C06:contributes", "rule %d.%d is not loaded but was %s without an error: %s", b, r, what[how], k->getText().c_str());
            if (triggered)
                fail("C06:contributes", "rule %d.%d is not loaded but was triggered: %s", b, r, k->getText().c_str());
            if (util::snapshot(*e) != before)
                fail("C06:contributes", "rule %d.%d is not loaded but changed the engine when %s: %s", b, r, what[how], k->getText().c_str());
        }
        void unload(int b, int r) {
            trace("unload rule %d.%d", b, r);
            rule(b, r)->unload();
            bool enabled = m.s.blocks[b].rules[r].enabled;
            notLoaded(b, r);
            m.s.blocks[b].rules[r].enabled = enabled;
            mustBe(b, r, "after unloading");
            asked(b, r);
        }
        // some rules of a block get other texts, valid or not, and all are loaded
        void block() {
            int b = draw((uint32_t)m.s.blocks.size());
            fl::RuleBlock* k = e->getRuleBlock(b);
            std::vector<int> bad(m.rules[b].size(), 0);
            int failures = 0;
            std::string what;
            for (size_t r = 0; r < bad.size(); ++r) {
                fl::Rule* rule = k->getRule(r);
                int kind = weighted({3, 2, 3});
                if (kind == 2) {
                    std::string t = invalidRule(m.s, m.s.blocks[b].rules[r]);
                    rule->setText(t);
                    bad[r] = 1;
                    ++failures;
                    what += " " + std::to_string(r) + "='" + t + "'";
                } else {
                    if (kind == 1)
                        m.s.blocks[b].rules[r] = another();
                    rule->setText(m.s.ruleText(m.s.blocks[b].rules[r]));
                }
            }
            int how = draw(3);
            trace("load block %d (%d) with %d invalid rules:%s", b, how, failures, what.c_str());
            count("fault:invalid rule", failures);
            bool exhausted = failures == 0 and chance(1, 2);  // once, so that one rule is affected at most
            if (exhausted) {
                mem::begin();
                mem::failAt(range(1, 60 * (int)bad.size() + 1), false);
            }
            Ended x = guarded([&] {
                if (how == 0)
                    k->loadRules(e.get());
                else if (how == 1)
                    k->reloadRules(e.get());
                else {
                    k->unloadRules();
                    k->loadRules(e.get());
                }
            });
            evaluated();
            if (exhausted) {
                bool fired = mem::fired();
                mem::end();
                mem::forget();
                if (fired and x.threw) {
                    count("fault:exhausted memory");
                    for (size_t r = 0; r < bad.size(); ++r)
                        if (not k->getRule(r)->isLoaded()) {
                            bad[r] = 1;
                            ++failures;
                        }
                    if (failures > 1 and failures < (int)bad.size())
                        fail("C06:everything else", "memory ran out once while loading block %d: %d of %d rules are not loaded: %s", b, failures, (int)bad.size(), x.what.c_str());
                    for (size_t r = 0; r < bad.size(); ++r)
                        if (bad[r]) {
                            notLoaded(b, (int)r);
                            m.s.blocks[b].rules[r].enabled = k->getRule(r)->isEnabled();
                        } else
                            loaded(b, (int)r, m.s.blocks[b].rules[r]);
                    others("after memory ran out while a block was loaded");
                    return;
                }
            }
            for (size_t r = 0; r < bad.size(); ++r)
                if (bad[r])
                    notLoaded(b, (int)r);
                else
                    loaded(b, (int)r, m.s.blocks[b].rules[r]);
            if (x.threw != (failures > 0))
                fail(failures ? "C06:invalid text accepted" : "C06:valid text rejected", "loading block %d with %d invalid rules %s", b, failures,
                     x.threw ? x.what.c_str() : "reported no error");
            for (size_t r = 0; r < bad.size(); ++r)
                if (bad[r] and not has(x.what, k->getRule(r)->getText()))
                    fail("C06:offending rule not named", "loading block %d: the error does not name rule %d, '%s': %s", b, (int)r, k->getRule(r)->getText().c_str(),
                         x.what.c_str());
            others("after loading a block with invalid rules");
            state(hashOf("block") + failures * 10 + bad.size());
        }
        void newRule() {
            bool good = chance(1, 3);
            std::string t = good ? m.s.ruleText(another()) : invalidRule(m.s, another());
            trace("parse: %s", t.c_str());
            std::string before = util::snapshot(*e);
            std::unique_ptr<fl::Rule> k;
            Ended x = guarded([&] { k.reset(fl::Rule::parse(t, e.get())); });
            evaluated();
            if (x.threw == good)
                fail(good ? "C06:valid text rejected" : "C06:invalid text accepted", "parsing '%s': %s", t.c_str(), x.threw ? x.what.c_str() : "no error");
            if (util::snapshot(*e) != before)
                fail("C06:engine changed", "parsing the rule '%s' changed the engine", t.c_str());
            nothingLost("parsing the rule '" + t + "'", [&] { guarded([&] { delete fl::Rule::parse(t, e.get()); }); });
        }
        // the two halves of a rule on their own
        void halves() {
            fl::Antecedent a;
            fl::Consequent c;
            for (int n = range(1, 4); n > 0; --n) {
                gen::RuleSpec k = another();
                k.weightInText = false;
                std::string t = chance(1, 2) ? m.s.ruleText(k) : invalidRule(m.s, k);
                size_t then = t.find(" then ");
                if (then == std::string::npos or then < 3)
                    continue;
                bool first = chance(1, 3);
                std::string half = first ? t.substr(3, then - 3) : t.substr(then + 6);
                trace("half of a rule: %s", half.c_str());
                bool byText = chance(1, 3);
                Ended x = guarded([&] {
                    if (byText) {
                        first ? a.setText(half) : c.setText(half);
                        first ? a.load(e.get()) : c.load(e.get());
                    } else
                        first ? a.load(half, e.get()) : c.load(half, e.get());
                });
                evaluated();
                if (x.ok() and (first ? a.getText() : c.getText()) != half)
                    fail("C06:half-loaded", "the text '%s' became '%s'", half.c_str(), (first ? a.getText() : c.getText()).c_str());
                if (x.ok() != (first ? a.isLoaded() : c.isLoaded()))
                    fail("C06:half-loaded", "the %s '%s' was %s but is %s", first ? "antecedent" : "consequent", half.c_str(), x.ok() ? "accepted" : "rejected",
                         x.ok() ? "not loaded" : "loaded");
                if (x.threw)
                    count("fault:invalid rule");
                std::string is = first ? a.isLoaded() ? a.toString() : "" : c.toString();
                fl::Antecedent fa;
                fl::Consequent fc;
                Ended y = guarded([&] { first ? fa.load(half, e.get()) : fc.load(half, e.get()); });
                std::string must = first ? fa.isLoaded() ? fa.toString() : "" : fc.toString();
                if (x.ok() != y.ok() or is != must)
                    fail("C06:earlier failure", "'%s' loaded after others: '%s'; loaded at once: '%s'", half.c_str(), is.c_str(), must.c_str());
            }
        }
        // a history of texts in one rule, with all memory accounted for
        void ruleMemory() {
            Words t;
            for (int n = range(1, 4); n > 0; --n) {
                gen::RuleSpec k = another();
                t.push_back(chance(1, 3) ? m.s.ruleText(k) : chance(1, 2) ? invalidRule(m.s, k) : damaged(m.s.ruleText(k)));
            }
            int how = draw(3);
            trace("rule memory (%d): %s", how, t[0].c_str());
            nothingLost("loading the texts '" + t[0] + "'... into a rule", [&] {
                if (how == 0) {
                    fl::Rule k;
                    for (auto& x : t)
                        guarded([&] { k.load(x, e.get()); });
                } else if (how == 1) {
                    fl::RuleBlock k;
                    for (auto& x : t)
                        k.addRule(new fl::Rule(x));
                    guarded([&] { k.loadRules(e.get()); });
                    guarded([&] { k.reloadRules(e.get()); });
                } else {
                    fl::Antecedent a;
                    fl::Consequent c;
                    for (auto& x : t) {
                        guarded([&] { a.load(x.substr(std::min<size_t>(3, x.size()), x.find(" then ")), e.get()); });
                        size_t then = x.find(" then ");
                        guarded([&] { c.load(then == std::string::npos ? x : x.substr(then + 6), e.get()); });
                    }
                }
            });
        }

        // ------------------------------------------------------------------------------------------------ formulas
        std::string invalidFormula(const gen::Formula& f) {
            std::string t = f.text();
            Words w = split(t);
            switch (draw(11)) {
                case 0: return "";
                case 1: return t + " +";
                case 2: return "( " + t;
                case 3: return t + " )";
                case 4: return t + " 3.5";
                case 5: return t + " + nothing";
                case 6: return "nosuch( " + t + " )";
                case 7: return "pow( " + t + " )";
                case 8: return "sin( " + t + " , 1 )";
                case 9: return "+";
                default: return "( " + t + " ) ( " + t + " )";
            }
        }
        bool same(double a, double b) {
            return a == b or (a != a and b != b) or model::near(a, b, 1e-6);
        }
        void formulas() {
            std::unique_ptr<fl::Function> f(new fl::Function("f", "", e.get()));
            bool known = false;
            gen::Formula current;
            bool loadedOnce = false;
            for (int n = range(1, 6); n > 0; --n) {
                gen::Formula g = gen::formula(m.s, 2);
                int kind = weighted({2, 3, 1});
                std::string t = kind == 0 ? g.text() : kind == 1 ? invalidFormula(g) : damaged(g.text());
                int how = draw(4);
                Ended x = guarded([&] {
                    switch (how) {
                        case 0: f->load(t); break;
                        case 1: f->load(t, e.get()); break;
                        case 2:
                            f->setFormula(t);
                            f->load();
                            break;
                        default: f->configure(t);
                    }
                });
                trace("formula %d: '%s': %s", kind, t.c_str(), x.ok() ? "loaded" : "rejected");
                evaluated();
                if (kind == 1)
                    count("fault:invalid formula");
                if (kind == 0 and x.threw)
                    fail("C06:valid text rejected", "the formula '%s' was rejected: %s", t.c_str(), x.what.c_str());
                if (kind == 1 and not x.threw)
                    fail("C06:invalid text accepted", "the formula '%s' was accepted", t.c_str());
                if (kind == 2) {
                    fl::Function fresh("f", "", e.get());
                    Ended y = guarded([&] { fresh.load(t); });
                    if (x.ok() != y.ok())
                        fail("C06:earlier failure", "the formula '%s' %s, but by a new function it %s", t.c_str(), x.ok() ? "is accepted" : x.what.c_str(),
                             y.ok() ? "is accepted" : y.what.c_str());
                    if (x.ok()) {
                        for (int i = -2; i < 4; ++i) {
                            double a = 0, b = 0;
                            Ended p = guarded([&] { a = f->membership(i / 2.0); }), q = guarded([&] { b = fresh.membership(i / 2.0); });
                            if (p.ok() != q.ok() or not same(a, b))
                                fail("C06:earlier failure", "the formula '%s' gives %g at %g, but %g by a new function", t.c_str(), a, i / 2.0, b);
                        }
                        known = false;
                        loadedOnce = true;
                        continue;
                    }
                }
                if (x.ok()) {
                    current = g;
                    known = loadedOnce = true;
                    if (not f->isLoaded())
                        fail("C06:half-loaded", "the formula '%s' was accepted but is not loaded", t.c_str());
                }
                // what was rejected contributes nothing: errors, or what was loaded before
                for (int i = -2; i < 4; ++i) {
                    double at = i / 2.0, a = 0;
                    Ended p = guarded([&] { a = f->membership(at); });
                    if (x.ok() and p.threw)
                        fail("C06:valid text rejected", "the formula '%s' was loaded but is not evaluated: %s", t.c_str(), p.what.c_str());
                    if (not x.ok() and p.ok() and not loadedOnce)
                        fail("C06:contributes", "the rejected formula '%s' gives %g at %g", t.c_str(), a, at);
                    if (p.ok() and known and not same(a, m.eval(current, at)))
                        fail("C06:contributes", "after '%s' %s, the function gives %.17g at %g instead of %.17g", t.c_str(), x.ok() ? "was loaded" : "was rejected", a, at,
                             m.eval(current, at));
                }
                if (chance(1, 4)) {  // copies of it
                    std::unique_ptr<fl::Function> c(f->clone());
                    f.swap(c);
                }
            }
            state(hashOf("formula") + known);
        }
        void formulaMemory() {
            Words t;
            for (int n = range(1, 4); n > 0; --n) {
                gen::Formula g = gen::formula(m.s, 2);
                t.push_back(chance(1, 4) ? g.text() : chance(1, 2) ? invalidFormula(g) : damaged(g.text()));
            }
            bool create = chance(1, 3);
            trace("formula memory: '%s'", t[0].c_str());
            nothingLost("loading the formulas '" + t[0] + "'...", [&] {
                if (create) {
                    for (auto& x : t)
                        guarded([&] { delete fl::Function::create("f", x, e.get()); });
                    return;
                }
                fl::Function f("f", "", e.get());
                for (auto& x : t)
                    guarded([&] { f.load(x); });
            });
        }
        // a formula of the engine: rejected texts first, and then the right one again
        void termFormula() {
            std::vector<std::pair<int, int>> c;
            for (size_t i = 0; i < m.s.inputs.size(); ++i)
                for (size_t t = 0; t < m.s.inputs[i].terms.size(); ++t)
                    if (m.s.inputs[i].terms[t].cls == "Function")
                        c.push_back({(int)i, (int)t});
            if (c.empty())
                return;
            auto at = pick(c);
            gen::TermSpec& t = m.s.inputs[at.first].terms[at.second];
            fl::Term* term = e->getInputVariable(at.first)->getTerm(at.second);
            for (int n = range(1, 3); n > 0; --n) {
                std::string bad = invalidFormula(t.formula);
                trace("formula of %s: '%s'", t.name.c_str(), bad.c_str());
                count("fault:invalid formula");
                Ended x = guarded([&] { term->configure(bad); });
                evaluated();
                if (not x.threw)
                    fail("C06:invalid text accepted", "the formula '%s' was accepted", bad.c_str());
            }
            std::string right = t.formula.text();
            Ended x = guarded([&] { term->configure(right); });
            if (x.threw)
                fail("C06:valid text rejected", "the formula '%s' was rejected: %s", right.c_str(), x.what.c_str());
        }

        // ------------------------------------------------------------------------------------------------ engines
        struct Text {
            std::string text;
            bool rejected = true;
            std::vector<std::pair<int, int>> rules;  // blocks and rules that are not loaded
            std::string what;
        };
        static bool multiple(const std::string& cls) {
            return cls != "Constant" and cls != "Linear" and cls != "Discrete" and cls != "Function";
        }
        static size_t first(const std::string& l) {
            size_t i = 0;
            while (i < l.size() and l[i] == ' ')
                ++i;
            return i;
        }
        bool fll(Text& x, const gen::EngineSpec& s) {
            Words l = lines(x.text);
            size_t at = draw((uint32_t)l.size());
            if (chance(1, 3)) {  // one of the rules
                std::vector<size_t> c;
                for (size_t i = 0; i < l.size(); ++i)
                    if (l[i].find("  rule:") == 0)
                        c.push_back(i);
                if (not c.empty())
                    at = pick(c);
            }
            std::string line = l[at];
            size_t colon = line.find(':');
            if (colon == std::string::npos)
                return false;
            std::string key = line.substr(first(line), colon - first(line)), value = colon + 2 <= line.size() ? line.substr(colon + 2) : "";
            std::string& d = l[at];
            Words w = split(value);
            int kind = draw(10);
            if (kind == 0) {
                if (has(value, ":") or chance(1, 4))
                    d = pick(Words{"x", "colour", "  very low"});
                else
                    d.erase(colon, 1);
            } else if (kind == 1)
                d = "  " + key + "x: " + value;
            else if (key == "rule") {
                int b = -1, r = -1;
                for (size_t i = 0; i <= at; ++i)
                    if (l[i].find("RuleBlock:") == 0)
                        ++b, r = -1;
                    else if (l[i].find("  rule:") == 0)
                        ++r;
                d = "  rule: " + invalidRule(s, s.blocks[b].rules[r]);
                if (x.rejected and not x.what.empty()) {  // rejected already
                } else {
                    x.rejected = false;
                    x.rules.push_back({b, r});
                }
                x.what += " '" + d + "'";
                x.text = text(l);
                return true;
            } else if (key == "enabled" or key == "lock-range" or key == "lock-previous")
                d = "  " + key + ": " + pick(Words{"maybe", "", "1", "truefalse"});
            else if (key == "range")
                d = "  range: " + pick(Words{"0.000", "", "low 1.000", "0.000 high", "0.000 1.000x"});
            else if (key == "default")
                d = "  default: " + pick(Words{"nothing", "1.0x", "1,0"});
            else if (key == "conjunction" or key == "disjunction" or key == "implication" or key == "aggregation")
                d = "  " + key + ": " + pick(Words{"Bogus", "minimum", "Minimum Maximum"});
            else if (key == "defuzzifier")
                d = "  defuzzifier: " + pick(Words{"Bogus", "Bogus 100", "Centroid many", "WeightedAverage Bogus"});
            else if (key == "activation")
                d = "  activation: " + pick(Words{"Bogus", "Bogus 1 2", "First 1", "Highest x", "Threshold > x"});
            else if (key == "term") {
                if (w.size() < 2)
                    return false;
                switch (draw(4)) {
                    case 0: w.resize(1); break;
                    case 1: w[1] = "Bogus"; break;
                    case 2:
                        if (w.size() < 3)
                            return false;
                        if (w[1] == "Function")
                            w.push_back("+ nothing");
                        else
                            w[range(2, (int)w.size() - 1)] = "word";
                        break;
                    default:
                        if (not multiple(w[1]) or w.size() < 3)
                            return false;
                        w.resize(3);
                }
                d = "  term: " + joined(w);
            } else
                return false;
            x.rejected = true;
            x.what += " '" + d + "'";
            x.text = text(l);
            return true;
        }
        bool fcl(Text& x, const gen::EngineSpec& s) {
            Words l = lines(x.text);
            size_t at = draw((uint32_t)l.size());
            if (chance(1, 3)) {  // one of the rules
                std::vector<size_t> c;
                for (size_t i = 0; i < l.size(); ++i)
                    if (split(l[i]).size() and split(l[i])[0] == "RULE")
                        c.push_back(i);
                if (not c.empty())
                    at = pick(c);
            }
            std::string line = l[at];
            std::string& d = l[at];
            Words w = split(line);
            if (w.empty())
                return false;
            std::string key = w[0];
            int kind = draw(8);
            if (chance(1, 3)) {  // one more line
                std::string in;
                for (size_t i = 0; i <= at; ++i) {
                    Words v = split(l[i]);
                    if (v.empty())
                        continue;
                    if (v[0].find("END_") == 0)
                        in = "";
                    else if (v[0] == "VAR_INPUT" or v[0] == "VAR_OUTPUT" or v[0] == "FUZZIFY" or v[0] == "DEFUZZIFY" or v[0] == "RULEBLOCK")
                        in = v[0].find("VAR") == 0 ? "VAR" : v[0];
                }
                if (key == "END_FUNCTION_BLOCK")
                    return false;
                std::string more;
                if (in == "")
                    more = pick(Words{"TERM x := 1.000;", "VAR_INPUTS", "RULE 1 : if x is y then z is w", "END_VAR"});
                else if (in == "VAR")
                    more = pick(Words{"x;", "x REAL;", "x : REAL : 1;", "FUZZIFY x"});
                else if (in == "FUZZIFY")
                    more = pick(Words{"ENABLED : maybe;", "ENABLED;", "ENABLED = TRUE;", "ENABLED : true;", "DEFAULT := 1.000;", "METHOD : COG;", "RANGE := (1.000);",
                                      "RANGE : (0.000 .. 1.000);", "RANGE := (0.000 .. high);", "RANGE := (low .. 1.000);", "TERM x := ;", "TERM x = Triangle 0.000 1.000 2.000;",
                                      "TERM := Triangle 0.000 1.000 2.000;", "TERM x := Triangle 0.000;", "TERM x := Triangle 0.000 one 2.000;", "TERM;", "LOCK : RANGE;", "DEFUZZIFY x"});
                else if (in == "DEFUZZIFY")
                    more = pick(Words{"LOCK PREVIOUS;", "LOCK : OTHER;", "LOCK : PREVIOUS | OTHER;", "LOCK : OTHER | RANGE;", "LOCK : PREVIOUS | RANGE | NC;", "LOCK : PREVIOUS | PREVIOUS;",
                                      "DEFAULT = 1.000;", "DEFAULT := 1.000 | XX;", "DEFAULT := high;", "DEFAULT := high | NC;", "DEFAULT := 1.000 2.000;", "ENABLED : 1;", "ENABLED TRUE;", "METHOD : COGX;",
                                      "METHOD COG;", "METHOD : COG : 1;", "ACCU : MIN;", "ACCU MAX;", "ACCU : MAX : MAX;", "RANGE := 0.000 - 1.000;", "RANGE := (0.000 .. high);",
                                      "TERM x := (0.000, 1.000) (1.000, high);", "TERM x := Bogus;", "COLOUR : red;", "FUZZIFY x"});
                else
                    more = pick(Words{"AND : MAX;", "AND MIN;", "OR : MIN;", "OR MAX;", "ACT : MAX;", "ACT MIN;", "AND : MIN : MIN;", "ENABLED : maybe;", "ENABLED FALSE;", "COLOUR : red;",
                                      "rule 1 : if x is y then z is w", "ACCU : MAX;", "VAR_OUTPUT"});
                count("fault:invalid line in FCL");
                l.insert(l.begin() + at + 1, "  " + more);
                x.rejected = true;
                x.what += " '" + more + "' after '" + line + "'";
                x.text = text(l);
                return true;
            }
            if (key == "FUNCTION_BLOCK")
                return false;
            if (key.find("END_") == 0) {
                if (key == "END_FUNCTION_BLOCK")
                    return false;
                d = kind % 2 ? "END_" : "";
            } else if (key == "VAR_INPUT" or key == "VAR_OUTPUT" or key == "FUZZIFY" or key == "DEFUZZIFY" or key == "RULEBLOCK") {
                if ((key == "FUZZIFY" or key == "DEFUZZIFY") and kind % 3)
                    d = key + (kind % 3 == 1 ? " nothing" : "");
                else
                    d = "X" + line;
            } else if (key == "RULE") {
                int b = -1, r = -1;
                for (size_t i = 0; i <= at; ++i) {
                    Words v = split(l[i]);
                    if (not v.empty() and v[0] == "RULEBLOCK")
                        ++b, r = -1;
                    else if (not v.empty() and v[0] == "RULE")
                        ++r;
                }
                if (kind == 0) {
                    d = "RULES " + line.substr(first(line) + 5);
                } else {
                    if (b < 0 or b >= (int)s.blocks.size() or r >= (int)s.blocks[b].rules.size())
                        return false;
                    std::string t = invalidRule(s, s.blocks[b].rules[r]);
                    d = "RULE " + std::to_string(r) + " : " + t;
                    if (not(x.rejected and not x.what.empty())) {
                        x.rejected = false;
                        x.rules.push_back({b, r});
                    }
                    x.what += " '" + d + "'";
                    x.text = text(l);
                    return true;
                }
            } else if (kind == 0 and line.find(':') != std::string::npos)
                d = "  COLOUR : red;";
            else if (key == "ENABLED")
                d = "  ENABLED : " + pick(Words{"maybe", "", "1"}) + ";";
            else if (key == "RANGE")
                d = "  RANGE " + pick(Words{":= (0.000)", ":= (low .. high)", ":= ()", " (0.000 .. 1.000)", ":= (0.000 .. high)"}) + ";";
            else if (key == "DEFAULT")
                d = "  DEFAULT := " + pick(Words{"nothing", "0.5 | XX", "1.0x"}) + ";";
            else if (key == "LOCK")
                d = "  LOCK : " + pick(Words{"OTHER", "PREVIOUS | OTHER"}) + ";";
            else if (key == "METHOD" or key == "ACCU" or key == "AND" or key == "OR" or key == "ACT")
                d = "  " + key + (kind % 2 ? " : Bogus;" : " Bogus;");
            else if (key == "TERM") {
                if (w.size() < 4)
                    return false;
                if (kind % 2)
                    d = "  TERM " + w[1] + ";";
                else
                    d = "  TERM " + w[1] + " := Bogus 1.0 2.0;";
            } else if (w.size() >= 2 and has(line, ": REAL"))
                d = "  " + w[0].substr(0, w[0].size() - 1) + " REAL;";
            else
                return false;
            x.rejected = true;
            x.what += " '" + d + "'";
            x.text = text(l);
            return true;
        }
        bool fis(Text& x, const gen::EngineSpec& s) {
            Words l = lines(x.text);
            size_t at = draw((uint32_t)l.size());
            if (chance(1, 3)) {  // one of the rules
                std::vector<size_t> c;
                for (size_t i = 0; i < l.size(); ++i)
                    if (l[i].find(" : ") != std::string::npos and l[i][0] != '#')
                        c.push_back(i);
                if (not c.empty())
                    at = pick(c);
            }
            std::string line = l[at];
            std::string& d = l[at];
            if (split(line).empty() or line[0] == '#')
                return false;
            int section = -1, r = -1;  // 0 system, 1 input, 2 output, 3 rules
            for (size_t i = 0; i <= at; ++i) {
                if (l[i].find("[System]") == 0) section = 0;
                else if (l[i].find("[Input") == 0) section = 1;
                else if (l[i].find("[Output") == 0) section = 2;
                else if (l[i].find("[Rules]") == 0) section = 3;
                else if (section == 3 and not split(l[i]).empty() and l[i][0] != '#') ++r;
            }
            if (section >= 0 and section < 3 and chance(1, 3)) {  // one more line
                std::string more;
                if (section == 0)
                    more = pick(Words{"Colour=red", "Default=1", "Range=[0 1]"});
                else if (section == 1)
                    more = pick(Words{"Default=1.000", "LockRange=1", "LockPrevious=0", "Enabled=yes", "Enabled", "Range=[0.000]", "Range=[0.000 high]", "Range=[low 1.000]", "Range=(0.000 1.000)",
                                      "Range=[0.000 1.000", "Range=0.000 1.000]", "Name", "Name=a=b", "MF9='x'", "MF9='x':'trimf'", "MF9='x':'trimf',[0.000 high 1.000]",
                                      "MF9='x':'trimf',[0.000]", "MF9='x':'bogus',[0.000 1.000 2.000]", "MF9='x','trimf',[0.000 1.000 2.000]", "MF9='x':'trimf':[0.000 1.000 2.000]", "Colour=red",
                                      "MF9='x':'',[0.000 1.000]"});
                else
                    more = pick(Words{"Default=high", "Default=", "LockPrevious=yes", "LockRange=yes", "LockRange", "Enabled=yes", "Range=[0.000]", "Range=[0.000 high]", "Range=(0.000 1.000)", "Name",
                                      "MF9='x'", "MF9='x':'constant'", "MF9='x':'constant',[high]", "MF9='x':'bogus',[0.000]", "Colour=red", "Lock=1"});
                count("fault:invalid line in FIS");
                l.insert(l.begin() + at + 1, more);
                x.rejected = true;
                x.what += " '" + more + "' after '" + line + "'";
                x.text = text(l);
                return true;
            }
            int kind = draw(section == 3 ? 12 : 8);
            size_t equal = line.find('=');
            std::string key = equal == std::string::npos ? "" : line.substr(0, equal);
            if (line[0] == '[')
                d = section == 0 ? "Colour='red'\n" + line : "[Colour]";
            else if (section == 3) {
                size_t comma = line.find(','), colon = line.find(':'), paren = line.find('(');
                if (comma == std::string::npos or colon == std::string::npos or paren == std::string::npos)
                    return false;
                switch (kind) {
                    case 0: d.erase(comma, 1); break;
                    case 1: d.erase(colon, 1); break;
                    case 2: d = "1 " + line; break;
                    case 3: d.insert(comma + 1, " 1"); break;
                    case 4: d = line.substr(0, paren) + "(half)" + line.substr(colon - 1); break;
                    case 5:
                        d.clear();
                        for (size_t i = 0; i < s.inputs.size(); ++i)
                            d += i ? "1.77 " : chance(1, 2) ? "99.000 " : std::to_string(s.inputs[0].terms.size() + 1) + ".000 ";
                        d += line.substr(comma);
                        break;
                    case 8:
                    case 9: {  // connector that is not one
                        int about = 0;
                        for (auto& k : split(line.substr(0, comma)))
                            about += std::fabs(std::atof(k.c_str())) > 0.0;
                        if (about < 2)
                            return false;
                        d = line.substr(0, colon + 1) + pick(Words{" 3", " 0", " and", "", " 12"});
                        if (d.back() == ':' and chance(1, 2))
                            d += " ";
                        break;
                    }
                    case 10: {  // hedge that is not one
                        Words codes = split(line.substr(0, comma));
                        std::string& code = codes[draw((uint32_t)codes.size())];
                        code = (code[0] == '-' ? "-1." : "1.") + pick(Words{"77", "10", "5", "02", "98"});
                        d = joined(codes) + line.substr(comma);
                        break;
                    }
                    case 11: {  // term that is not one of the output variable
                        Words codes = split(line.substr(comma + 1, paren - comma - 1));
                        if (codes.size() != s.outputs.size())
                            return false;
                        size_t k = draw((uint32_t)codes.size());
                        codes[k] = (chance(1, 3) ? "-" : "") + std::to_string(s.outputs[k].terms.size() + 1) + pick(Words{"", ".000", ".2"});
                        d = line.substr(0, comma + 1) + " " + joined(codes) + " " + line.substr(paren);
                        break;
                    }
                    default:  // a rule about nothing
                        d.clear();
                        for (size_t i = 0; i < s.inputs.size(); ++i)
                            d += "0.000 ";
                        d += line.substr(comma);
                        if (not(x.rejected and not x.what.empty())) {
                            x.rejected = false;
                            x.rules.push_back({0, r});
                        }
                        x.what += " '" + d + "'";
                        x.text = text(l);
                        return true;
                }
            } else if (equal == std::string::npos)
                return false;
            else if (kind == 0)
                d = "Colour" + line.substr(equal);
            else if (kind == 1 and section > 0)
                d.erase(equal, 1);
            else if (key == "AndMethod" or key == "OrMethod" or key == "ImpMethod" or key == "AggMethod" or key == "DefuzzMethod")
                d = key + "='bogus'";
            else if (key == "Enabled" or key == "Default" or key == "LockPrevious" or key == "LockRange")
                d = key + "=word";
            else if (key == "Range")
                d = "Range=" + pick(Words{"[0.000]", "0.000 1.000", "[low high]", "[0.000 1.000 2.000]"});
            else if (key.find("MF") == 0) {
                size_t colon = line.find(':'), comma = line.find(',');
                if (colon == std::string::npos or comma == std::string::npos)
                    return false;
                if (kind == 7)
                    d += chance(1, 2) ? ",[0.000]" : ",'trimf'";
                else if (kind % 3 == 0)
                    d.erase(colon, 1);
                else if (kind % 3 == 1)
                    d = line.substr(0, colon) + ":'bogus'" + line.substr(comma);
                else
                    d.erase(comma, 1);
            } else
                return false;
            x.rejected = true;
            x.what += " '" + d + "'";
            x.text = text(l);
            return true;
        }
        std::string behaviour(fl::Engine& x, const std::vector<std::vector<double>>& in) {
            std::string r = util::snapshot(x);
            for (auto& row : in) {
                for (size_t i = 0; i < row.size() and i < x.numberOfInputVariables(); ++i)
                    x.getInputVariable(i)->setValue(row[i]);
                bool costly = false;
                for (auto* v : x.outputVariables())
                    if (auto* d = dynamic_cast<fl::IntegralDefuzzifier*>(v->getDefuzzifier()))
                        costly = costly or d->getResolution() > 2000;
                Ended c = guarded([&] {
                    if (not costly)
                        x.process();
                });
                r += util::values(x) + (c.threw ? "threw " : "");
            }
            return r;
        }
        void engines() {
            int format = weighted({3, 2, 2});
            gen::Options g = o.gen;
            g.style = format == 1 ? "fcl" : format == 2 ? "fis" : "";
            gen::EngineSpec s = gen::engine(g);
            std::unique_ptr<fl::Importer> importer;
            Text x;
            fl::IntegralDefuzzifier::setDefaultResolution(g.maxResolution);
            if (format == 0) {
                importer.reset(new fl::FllImporter);
                x.text = gen::fll(s);
            } else {
                std::unique_ptr<fl::Engine> k = gen::build(s);
                if (format == 1)
                    importer.reset(new fl::FclImporter), x.text = fl::FclExporter().toString(k.get());
                else
                    importer.reset(new fl::FisImporter), x.text = fl::FisExporter().toString(k.get());
            }
            std::string valid = x.text;
            int damages = weighted({3, 1, 1}) + 1;
            if (format)
                damages = 1;  // lines with their own damage are not damaged again
            bool anyhow = chance(1, 4);
            if (anyhow) {
                x.text = damaged(valid);
                x.what = "anywhere";
            } else
                for (int k = 0, tries = 0; k < damages and tries < 60; ++tries)
                    if (format == 0 ? fll(x, s) : format == 1 ? fcl(x, s) : fis(x, s)) {
                        ++k;
                        if (x.rejected)
                            break;
                    }
            if (x.what.empty())
                return;
            count(x.rejected ? "fault:invalid engine" : "fault:invalid rule in engine");
            std::vector<std::vector<double>> in(range(1, 3));
            for (auto& row : in)
                for (auto& v : s.inputs)
                    row.push_back(gen::sensor(v, false));
            static const char* formats[] = {"FLL", "FCL", "FIS"};
            Capture quiet;
            std::unique_ptr<fl::Engine> original(importer->fromString(valid)), is;
            std::string before = util::snapshot(*e);
            Ended end = guarded([&] { is.reset(importer->fromString(x.text)); });
            trace("%s damaged at%s: %s", formats[format], x.what.c_str(), end.ok() ? "loaded" : "rejected");
            state(hashOf("engine") + format * 4 + x.rejected * 2 + end.ok());
            evaluated();
            if (util::snapshot(*e) != before)
                fail("C06:engine changed", "importing another engine changed an engine");
            if (end.ok() and not is)
                fail("C06:no engine", "importing gave neither an engine nor an error");
            if (anyhow) {
                std::unique_ptr<fl::Engine> again;
                Ended second = guarded([&] { again.reset(importer->fromString(x.text)); });
                if (second.ok() != end.ok())
                    fail("C06:earlier failure", "importing the same text a second time %s", second.ok() ? "succeeds" : second.what.c_str());
                if (end.ok()) {
                    for (auto* b : is->ruleBlocks())
                        for (auto* k : b->rules())
                            if (k->isLoaded() != k->getAntecedent()->isLoaded() or k->isLoaded() != k->getConsequent()->isLoaded())
                                fail("C06:half-loaded", "rule '%s' is half-loaded", k->getText().c_str());
                    std::string a = behaviour(*is, in), b = behaviour(*again, in);
                    if (a != b)
                        fail("C06:earlier failure", "importing the same text a second time gives another engine: %s", util::difference(a, b).c_str());
                }
            } else if (x.rejected != end.threw)
                fail(x.rejected ? "C06:invalid text accepted" : "C06:valid text rejected", "%s damaged at%s: %s\n%s", formats[format], x.what.c_str(),
                     end.threw ? end.what.c_str() : "no error", x.text.substr(0, 3000).c_str());
            else if (not x.rejected) {
                // as the undamaged one, without these rules
                for (auto& k : x.rules) {
                    if (k.first >= (int)is->numberOfRuleBlocks() or k.second >= (int)is->getRuleBlock(k.first)->numberOfRules())
                        fail("C06:rule missing", "%s: rule %d.%d is not in the imported engine:\n%s", formats[format], k.first, k.second, x.text.c_str());
                    fl::Rule *r = is->getRuleBlock(k.first)->getRule(k.second), *u = original->getRuleBlock(k.first)->getRule(k.second);
                    if (r->isLoaded() or r->getAntecedent()->isLoaded() or r->getConsequent()->isLoaded())
                        fail("C06:half-loaded", "%s: rule '%s' is loaded at least in part", formats[format], r->getText().c_str());
                    u->unload();
                    u->setText(r->getText());
                }
                auto weights = [](fl::Engine& k) {
                    for (auto* b : k.ruleBlocks())
                        for (auto* r : b->rules())
                            if (not r->isLoaded())
                                r->setWeight(1.0);
                };
                weights(*is);
                weights(*original);
                std::string a = behaviour(*is, in), b = behaviour(*original, in);
                if (a != b)
                    fail("C06:everything else", "%s: the engine with rules that cannot be loaded differs otherwise too: %s", formats[format], util::difference(a, b).c_str());
                // corrected
                std::unique_ptr<fl::Engine> right(importer->fromString(valid));
                is->restart();
                for (auto& k : x.rules) {
                    std::string t = right->getRuleBlock(k.first)->getRule(k.second)->getText();
                    Ended c = guarded([&] { is->getRuleBlock(k.first)->getRule(k.second)->load(t, is.get()); });
                    if (c.threw)
                        fail("C06:valid text rejected", "the corrected rule '%s' was rejected: %s", t.c_str(), c.what.c_str());
                }
                right->restart();
                for (auto* k : {is.get(), right.get()})  // deactivated alike
                    for (auto* b : k->ruleBlocks())
                        for (auto* r : b->rules())
                            r->deactivate();
                a = behaviour(*is, in);
                b = behaviour(*right, in);
                if (a != b)
                    fail("C06:earlier failure", "%s: with the corrected rules the engine differs from one that never failed: %s", formats[format],
                         util::difference(a, b).c_str());
            }
            if (chance(1, 3)) {
                std::string what = std::string("importing ") + formats[format] + " damaged at" + x.what;
                nothingLost(what, [&] { guarded([&] { delete importer->fromString(x.text); }); });
            }
            // afterwards, the valid text
            std::unique_ptr<fl::Engine> after(importer->fromString(valid)), reference(importer->fromString(valid));
            if (behaviour(*after, in) != behaviour(*reference, in))
                fail("C06:earlier failure", "%s: an engine imported after a failure differs", formats[format]);
        }
    };
}

static void run() {
    World w;
    gen::Options g;
    g.maxResolution = 12;
    g.oddRanges = chance(1, 4);
    w.o.gen = g;
    w.s = ops::spec(g);
    w.e = gen::build(w.s);
    w.m = model::Model(w.s);
    int steps = range(4, thorough() ? 60 : 20);
    for (int n = 0; n < steps; ++n) {
        int b, r;
        switch (weighted({5, 3, 2, 4, 1, 2, 3, 4, 2, 2, 1, 3, 2, 2})) {
            case 0:
                model::setInputs(w.m, *w.e, chance(1, 4));
                trace("process");
                model::cycle(w.m, *w.e, "C06:later cycle");
                break;
            case 1:
                if (w.anyRule(b, r)) w.valid(b, r);
                break;
            case 2:
                if (w.anyRule(b, r)) w.asNew(b, r, damaged(w.m.s.ruleText(w.another())));
                break;
            case 3:
                if (w.anyRule(b, r)) w.invalid(b, r);
                break;
            case 4:
                if (w.anyRule(b, r)) w.unload(b, r);
                break;
            case 5:
                if (w.anyRule(b, r)) w.exhausted(b, r);
                break;
            case 6: w.block(); break;
            case 7: w.engines(); break;
            case 8: w.formulas(); break;
            case 9: w.newRule(); break;
            case 10: w.termFormula(); break;
            case 11: chance(1, 2) ? w.ruleMemory() : w.formulaMemory(); break;
            case 13: w.halves(); break;
            default: {
                ops::Options o = w.o;
                o.rules = false;
                ops::mutate(w.m, *w.e, o);
            }
        }
    }
    model::setInputs(w.m, *w.e, false);
    trace("process");
    model::cycle(w.m, *w.e, "C06:later cycle");
    nontrivial();
}
static Property p("C06", run);
