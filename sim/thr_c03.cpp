// C03: threads with engines of their own, and engines that no thread changes.
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <sstream>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "baton.h"
#include "util.h"

using namespace sim;

namespace {
    enum Kind {
        IMPORT,       // from FLL
        BUILD,        // through the API
        PROCESS,
        COPY,
        ASSIGN,
        EXPORT,       // all formats
        REIMPORT,     // through FIS or FCL
        DATASET,
        RULES,
        FORMULA,
        COMPONENTS,   // by name, from the factories
        BENCHMARK,
        TOOLS,
        CONFIGURE,
        EXAMPLE,
        EDIT,
        SHARED,       // export or copy the engine that no thread changes
        FUZZIFY,
        DESTROY,
        REJECTED,     // texts in error
        FILES,        // saved and loaded again, each thread in a file of its own
        KINDS
    };
    const char* const NAMES[] = {"import", "build", "process", "copy", "assign", "export", "reimport", "dataset", "rules", "formula",
                                 "components", "benchmark", "tools", "configure", "example", "edit", "shared", "fuzzify", "destroy", "rejected", "files"};

    struct Step {
        Kind kind;
        int variant = 0, engine = 0;
        std::vector<std::vector<double>> rows;
        std::string text, other;
        uint32_t failAt = 0;  // allocation that fails, in the faulted thread
        bool persistent = false;
    };
    struct Workload {
        std::vector<Step> steps;
        bool faulted = false;
        std::string log;
        uint32_t logged = 0;
    };
    struct World {
        std::vector<gen::EngineSpec> specs;
        std::vector<std::string> fll;
        std::unique_ptr<fl::Engine> common;
        std::vector<Workload> work;
        uint32_t fired = 0;
    };
    World* w = nullptr;
    thread_local int self = 0;

    std::string outputs(const fl::Engine& e) {
        return util::values(e);
    }
    void feed(fl::Engine& e, const std::vector<double>& row) {
        for (size_t i = 0; i < e.numberOfInputVariables(); ++i)
            e.getInputVariable(i)->setValue(i < row.size() ? row[i] : 0.25);
    }
    std::string table(const fl::Engine& e, const Step& s, bool withOutputs) {
        std::string data;
        for (auto& row : s.rows) {
            for (size_t i = 0; i < e.numberOfInputVariables(); ++i)
                data += fl::Op::str(i < row.size() ? row[i] : 0.25) + " ";
            for (size_t i = 0; withOutputs and i < e.numberOfOutputVariables(); ++i)
                data += "0.500 ";
            data += "\n";
        }
        return data;
    }
    template <class F>
    std::string text(F f) {
        std::string r;
        Ended x = guarded([&] { r = f(); });
        return x.threw ? "error: " + x.what.substr(0, x.what.find("\n{")) : r;
    }

    std::string step(const Step& s, std::unique_ptr<fl::Engine>& e) {
        const gen::EngineSpec& spec = w->specs[s.engine];
        switch (s.kind) {
            case IMPORT:
                e.reset(fl::FllImporter().fromString(w->fll[s.engine]));
                return util::snapshot(*e);
            case BUILD:
                e = gen::build(spec);
                return util::snapshot(*e);
            case PROCESS: {
                std::string r;
                for (auto& row : s.rows) {
                    feed(*e, row);
                    r += text([&] {
                        e->process();
                        return outputs(*e);
                    });
                }
                if (s.variant % 4 == 3)
                    e->restart();
                return r + util::snapshot(*e);
            }
            case COPY: {
                std::unique_ptr<fl::Engine> c(s.variant % 2 ? e->clone() : new fl::Engine(*e));
                std::string r = util::snapshot(*c);
                if (s.variant % 4 < 2)
                    e.swap(c);
                return r;
            }
            case ASSIGN: {
                std::unique_ptr<fl::Engine> c(s.variant % 2 ? new fl::Engine("other") : e->clone());
                *c = *e;
                e.swap(c);
                return util::snapshot(*e);
            }
            case EXPORT:
                switch (s.variant % 8) {
                    case 0:
                        return fl::FllExporter().toString(e.get());
                    case 1:
                        return fl::FisExporter().toString(e.get());
                    case 2:
                        return fl::FclExporter().toString(e.get());
                    case 3:
                        return fl::CppExporter(s.rows.size() % 2).toString(e.get());
                    case 4:
                        return fl::JavaExporter(s.rows.size() % 2).toString(e.get());
                    case 5: {
                        fl::RScriptExporter x;
                        std::ostringstream os;
                        std::istringstream in(table(*e, s, false));
                        if (e->numberOfInputVariables() < 2)
                            return std::string("too few inputs");
                        x.writeScriptExportingDataFrame(e.get(), os, e->getInputVariable(0), e->getInputVariable(1), 4,
                                                        fl::FldExporter::AllVariables, e->outputVariables());
                        return os.str();
                    }
                    case 6: {
                        fl::FllExporter x("\t", "|");
                        std::string r;
                        for (auto* v : e->variables())
                            r += x.toString(v);
                        for (auto* b : e->ruleBlocks())
                            r += x.toString(b);
                        return r;
                    }
                    default:
                        return e->toString();
                }
            case REIMPORT: {
                std::string t = s.variant % 2 ? fl::FisExporter().toString(e.get()) : fl::FclExporter().toString(e.get());
                e.reset(s.variant % 2 ? fl::FisImporter().fromString(t) : fl::FclImporter().fromString(t));
                return util::snapshot(*e);
            }
            case DATASET: {
                std::unique_ptr<fl::Engine> c(e->clone());
                fl::FldExporter x(s.variant & 8 ? "," : " ");
                x.setExportHeader(s.variant & 1);
                x.setExportInputValues(s.variant & 2);
                if (s.variant & 4) {
                    std::istringstream in("# data\n" + table(*e, s, false));
                    return x.toString(c.get(), in);
                }
                return x.toString(c.get(), 3, s.variant & 16 ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables);
            }
            case RULES: {
                std::unique_ptr<fl::Rule> r(fl::Rule::parse(s.text, e.get()));
                std::string t = r->toString() + (r->isLoaded() ? "loaded" : "unloaded");
                if (r->isLoaded())
                    t += r->getAntecedent()->toPrefix() + r->getAntecedent()->toPostfix() + r->getConsequent()->toString();
                for (auto* b : e->ruleBlocks())
                    t += text([&] {
                        b->reloadRules(e.get());
                        return b->toString();
                    });
                return t;
            }
            case FORMULA: {
                std::unique_ptr<fl::Function> f(fl::Function::create("f", s.text, e.get()));
                std::string t = f->toString() + f->root()->toPostfix() + f->root()->toInfix() + f->root()->toPrefix();
                for (auto& row : s.rows)
                    for (double x : row)
                        t += util::number(f->membership(x)) + " ";
                std::unique_ptr<fl::Function> g(f->clone());
                t += util::number(g->membership(0.5));
                fl::Function h("h", "1 + x * 2");
                h.load();
                h = *g;
                return t + util::number(h.membership(0.25)) + f->toPostfix(s.text);
            }
            case COMPONENTS: {
                fl::FactoryManager* m = fl::FactoryManager::instance();
                std::string r;
                auto all = [&](auto* factory) {
                    for (auto& name : factory->available()) {
                        if (name.empty())
                            continue;
                        std::unique_ptr<typename std::remove_reference<decltype(*factory->constructObject(name))>::type> c(
                            factory->constructObject(name));
                        r += name + (factory->hasConstructor(name) ? "+" : "-");
                    }
                };
                switch (s.variant % 8) {
                    case 0:
                        all(m->tnorm());
                        break;
                    case 1:
                        all(m->snorm());
                        break;
                    case 2:
                        for (auto& name : m->term()->available()) {
                            if (name.empty())
                                continue;
                            std::unique_ptr<fl::Term> t(m->term()->constructObject(name));
                            t->updateReference(e.get());
                            if (name == "Discrete")
                                t->configure("0 0 1 1 2 0.5 3 1");
                            r += name + t->toString() + text([&] { return util::number(t->membership(0.5)); });
                        }
                        break;
                    case 3:
                        for (auto& name : m->hedge()->available()) {
                            if (name.empty())
                                continue;
                            std::unique_ptr<fl::Hedge> h(m->hedge()->constructObject(name));
                            r += h->name() + util::number(h->hedge(0.3));
                        }
                        break;
                    case 4:
                        all(m->defuzzifier());
                        break;
                    case 5:
                        all(m->activation());
                        break;
                    case 6:
                        r += fl::Op::join(m->function()->availableFunctions(), ",") + fl::Op::join(m->function()->availableOperators(), ",");
                        for (auto& name : m->function()->availableFunctions()) {
                            std::unique_ptr<fl::Function::Element> f(m->function()->cloneObject(name));
                            r += f->toString() + std::to_string(f->arity);
                        }
                        break;
                    default: {
                        fl::FactoryManager n(*m);
                        n.term()->registerConstructor("mine", nullptr);
                        n.hedge()->deregisterConstructor("not");
                        r += fl::Op::join(n.term()->available(), ",") + fl::Op::join(n.hedge()->available(), ",");
                        std::unique_ptr<fl::CloningFactory<fl::Function::Element*>> c(
                            new fl::CloningFactory<fl::Function::Element*>(*n.function()));
                        r += std::to_string(c->available().size());
                    }
                }
                return r + text([&] {
                    std::unique_ptr<fl::TNorm> n(m->tnorm()->constructObject("NoSuchNorm"));
                    return std::string("built");
                });
            }
            case BENCHMARK: {
                std::unique_ptr<fl::Engine> c(e->clone());
                fl::Benchmark b("bench", c.get());
                if (s.variant % 2) {
                    std::istringstream in(table(*e, s, true));
                    b.prepare(in);
                } else
                    b.prepare(4, fl::FldExporter::AllVariables);
                b.run(2);
                b.setTimes(std::vector<double>(2, 0.5));
                return b.format(b.results(), s.variant & 2 ? fl::Benchmark::Vertical : fl::Benchmark::Horizontal, fl::Benchmark::HeaderAndBody);
            }
            case TOOLS: {
                double x = s.rows[0][0];
                std::string r = fl::Op::join(fl::Op::split("one, two, three and a longer piece of text", ","), ";");
                r += fl::Op::str(x) + fl::Op::str(x, 9) + fl::Op::findReplace("aaabbbaaabbbaaabbbaaabbb", "aaa", "ccccc")
                     + fl::Op::trim("     a text with spaces around it    ") + fl::Op::validName("not a valid name: but long enough!");
                r += util::number(fl::Op::toScalar("1234567.25")) + text([&] { return util::number(fl::Op::toScalar("no number")); });
                bool ok = false;
                r += util::number(fl::Op::toScalar("nothing", 5.0, &ok)) + (ok ? "y" : "n") + (fl::Op::isNumeric("-1.5e3") ? "y" : "n");
                r += fl::Op::join(fl::Op::toScalars("1 2 3.5 nan inf"), "/") + fl::Op::join(fl::Op::midpoints(0, 1, 4), "/");
                r += fl::Op::join(3, ",", x, 1.0, 2.0) + util::number(fl::Op::mean(s.rows[0])) + util::number(fl::Op::variance(s.rows[0]));
                std::unique_ptr<fl::Discrete> d(fl::Discrete::create("d", 6, 0.0, 1.0, 2.0, 0.5, 1.0, 0.0));
                fl::Triangle t("t", 0, 1, 2);
                std::unique_ptr<fl::Discrete> q(fl::Discrete::discretize(&t, 0, 2, 10));
                r += d->toString() + q->toString() + fl::Discrete::formatXY(q->xy(), "<", ",", ">") + util::number(q->membership(x));
                r += text([]() -> std::string { throw fl::Exception("mine", FL_AT); });
                return r;
            }
            case CONFIGURE: {
                static const char* const T[] = {"Minimum", "AlgebraicProduct", "EinsteinProduct", ""};
                static const char* const S[] = {"Maximum", "AlgebraicSum", "UnboundedSum", ""};
                static const char* const D[] = {"Centroid", "Bisector", "MeanOfMaximum", "WeightedAverage"};
                static const char* const A[] = {"General", "First", "Proportional", "Highest"};
                int v = s.variant;
                std::string r = text([&] {
                    e->configure(T[v & 3], S[v >> 1 & 3], T[v >> 2 & 3], S[v >> 1 & 1], D[v >> 2 & 3], A[v >> 3 & 3]);
                    for (auto* o : e->outputVariables())  // they refer to the former implication operators
                        o->fuzzyOutput()->clear();
                    std::string status;
                    bool ready = e->isReady(&status);
                    return (ready ? "ready" : "not ready") + status;
                });
                r += text([&] {
                    feed(*e, s.rows[0]);
                    e->process();
                    return outputs(*e);
                });
                std::string name, reason;
                e->type(&name, &reason);
                return r + util::snapshot(*e) + name + reason;
            }
            case EXAMPLE: {
                std::unique_ptr<fl::Engine> m(s.variant % 2 ? fl::Console::mamdani() : fl::Console::takagiSugeno());
                feed(*m, s.rows[0]);
                m->process();
                if (s.variant % 4 < 2) {
                    fl::FldExporter x;
                    return x.toString(m.get(), 4, fl::FldExporter::AllVariables);
                }
                return util::snapshot(*m);
            }
            case EDIT: {
                fl::InputVariable* v = new fl::InputVariable("added", 0, 1);
                v->addTerm(new fl::Triangle("a", 0, 0.5, 1));
                v->addTerm(new fl::Gaussian("b", 0.5, 0.25));
                e->addInputVariable(v);
                if (s.variant & 1) {
                    fl::RuleBlock* b = new fl::RuleBlock("block added");
                    b->setConjunction(new fl::Minimum);
                    b->setImplication(new fl::AlgebraicProduct);
                    b->setActivation(new fl::General);
                    b->addRule(fl::Rule::parse(s.text, e.get()));
                    e->addRuleBlock(b);
                }
                std::string r = e->toString();
                delete e->removeInputVariable("added");
                if (s.variant & 1)
                    delete e->removeRuleBlock("block added");
                return r + e->toString();
            }
            case SHARED: {
                const fl::Engine* c = w->common.get();
                switch (s.variant % 6) {
                    case 0:
                        return fl::FllExporter().toString(c);
                    case 1:
                        return fl::FisExporter().toString(c);
                    case 2:
                        return fl::FclExporter().toString(c);
                    case 3:
                        return fl::CppExporter().toString(c);
                    case 4:
                        return fl::JavaExporter().toString(c) + c->toString();
                    default:
                        e.reset(c->clone());
                        return util::snapshot(*e);
                }
            }
            case FUZZIFY: {
                std::string r;
                double x = s.rows[0][0];
                for (auto* v : e->variables()) {
                    r += v->fuzzify(x);
                    double y;
                    fl::Term* t = v->highestMembership(x, &y);
                    r += t ? t->getName() + util::number(y) : "none";
                    for (auto* t : v->terms())
                        r += t->toString() + util::number(t->membership(x));
                }
                for (auto* v : e->outputVariables())
                    r += v->fuzzyOutputValue();
                return r;
            }
            case DESTROY:
                e.reset();
                return "destroyed";
            case REJECTED:
                return text([&] {
                    std::unique_ptr<fl::Engine> x(s.variant % 3 == 0   ? fl::FllImporter().fromString(s.text)
                                                  : s.variant % 3 == 1 ? fl::FisImporter().fromString(s.text)
                                                                       : fl::FclImporter().fromString(s.text));
                    return util::snapshot(*x);
                });
            case FILES: {
                std::string path = "/sim/thread" + std::to_string(self);
                std::unique_ptr<fl::Importer> in;
                switch (s.variant % 6) {
                    case 0:
                        fl::FisExporter().toFile(path, e.get());
                        in.reset(new fl::FisImporter);
                        break;
                    case 1:
                        fl::FclExporter().toFile(path, e.get());
                        in.reset(new fl::FclImporter);
                        break;
                    case 2: {
                        std::unique_ptr<fl::Engine> c(e->clone());
                        fl::FldExporter().toFile(path, c.get(), 3, s.variant & 8 ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables);
                        return disk::content(path);
                    }
                    case 3: {
                        if (e->numberOfInputVariables() < 2)
                            return std::string("too few inputs");
                        std::unique_ptr<fl::Engine> c(e->clone());
                        fl::RScriptExporter().toFile(path, c.get(), c->getInputVariable(0), c->getInputVariable(1), 3, fl::FldExporter::AllVariables, c->outputVariables());
                        return disk::content(path);
                    }
                    default:
                        fl::FllExporter().toFile(path, e.get());
                        in.reset(new fl::FllImporter);
                }
                std::string r = disk::content(path);
                e.reset(in->fromFile(path));
                return r + util::snapshot(*e) + text([&] {
                    std::unique_ptr<fl::Engine> none(in->fromFile("/sim/missing"));
                    return std::string("loaded");
                });
            }
            default:
                return "";
        }
    }

    void perform(Workload& work) {
        self = (int)(&work - w->work.data());
        std::unique_ptr<fl::Engine> e;
        for (auto& s : work.steps) {
            if (not e and s.kind != IMPORT and s.kind != BUILD and s.kind != SHARED) {
                Ended x = guarded([&] { e.reset(fl::FllImporter().fromString(w->fll[s.engine])); });
                if (x.threw)
                    continue;
            }
            if (s.failAt) {
                mem::On on;
                mem::failAt(s.failAt, s.persistent);
            }
            std::string r;
            Ended x = guarded([&] { r = step(s, e); });
            if (work.faulted) {
                if (x.oom)
                    ++w->fired;
                continue;  // its own results depend on what failed
            }
            work.log += std::string("== ") + NAMES[s.kind] + " " + std::to_string(s.variant) + "\n"
                        + (x.threw ? "error: " + x.what.substr(0, x.what.find("\n{")) : r) + "\n";
            ++work.logged;
        }
        e.reset();
    }
    void thread(int i) {
        Workload& work = w->work[i];
        if (work.faulted) {
            perform(work);
            mem::failNever();
        } else {
            mem::Off off;
            perform(work);
        }
    }

    // ------------------------------------------------------------------------------------------------ the same work alone
    const size_t ROOM = 4 << 20;
    struct Alone {
        uint32_t done, size;
        char text[ROOM];
    };
    Alone* alone = nullptr;

    void warmup() {
        alone = (Alone*)mmap(nullptr, 4 * sizeof(Alone), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sched::init();
        extra.trace = sched::rendered;
        extra.report = sched::race;
        extra.hash = sched::hash;
        extra.reset = sched::init;
    }

    std::string runAlone(int i) {
        Alone& a = alone[0];
        a.done = a.size = 0;
        pid_t pid = fork();
        if (pid == 0) {
            perform(w->work[i]);
            const std::string& log = w->work[i].log;
            if (log.size() < ROOM) {
                memcpy(a.text, log.data(), log.size());
                a.size = log.size();
            }
            a.done = 1;
            _exit(0);
        }
        if (pid < 0)
            harnessError("cannot fork");
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) and WEXITSTATUS(status) != 0)
            _exit(WEXITSTATUS(status));  // a report of the sanitizer
        if (not a.done)
            fail("C03:alone", "the work of thread %d cannot be done alone (status %d)", i, status);
        return std::string(a.text, a.size);
    }

    Step drawStep(const std::vector<gen::Options>& g, int engine, bool hasCommon) {
        Step s;
        s.engine = engine;
        const gen::EngineSpec& spec = w->specs[engine];
        s.kind = (Kind)draw(KINDS);
        if (s.kind == SHARED and not hasCommon)
            s.kind = COPY;
        s.variant = draw(32);
        int rows = range(1, 3);
        for (int r = 0; r < rows; ++r) {
            std::vector<double> row;
            for (auto& v : spec.inputs)
                row.push_back(gen::sensor(v, true));
            if (row.empty())
                row.push_back(0.5);
            s.rows.push_back(row);
        }
        if (s.kind == RULES or s.kind == EDIT) {
            s.text = spec.ruleText(gen::rule(spec, g[engine]));
            if (chance(1, 4))
                s.text = s.text.substr(0, draw(s.text.size()));
        }
        if (s.kind == FORMULA) {
            s.text = gen::formula(spec, 3).text();
            if (chance(1, 4))
                s.text += pick(std::vector<std::string>{" +", " )", " foo(", " ,", " unknown"});
        }
        if (s.kind == REJECTED) {
            s.text = w->fll[engine];
            s.text = s.text.substr(0, draw(s.text.size() + 1)) + pick(std::vector<std::string>{"", "\nrange: x", "\nterm: a B c", ":", "\n[Rules"});
        }
        return s;
    }
    bool sameStep(const Step& a, const Step& b) {
        return a.kind == b.kind and a.variant == b.variant;
    }

    void run() {
        clk::set(clk::STEADY);
        disk::reset();
        fl::fuzzylite::setLogging(false);
        w = new World;
        int n = 2 + weighted({6, 3, 2});
        bool warm = chance(1, 3);
        int nspecs = range(1, n);
        std::vector<gen::Options> options;
        for (int i = 0; i < nspecs; ++i) {
            gen::Options g;
            g.maxInputs = 2;
            g.maxOutputs = 2;
            g.maxRules = 3;
            g.maxTerms = 3;
            g.maxResolution = 12;
            g.descriptions = false;
            g.style = pick(std::vector<std::string>{"", "", "fis", "fcl"});
            options.push_back(g);
            w->specs.push_back(gen::engine(g));
            w->fll.push_back(gen::fll(w->specs.back()));
            trace("engine %d\n%s", i, w->fll.back().c_str());
        }
        if (warm) {
            w->common = gen::build(w->specs[0]);
            if (chance(1, 2)) {
                for (size_t i = 0; i < w->common->numberOfInputVariables(); ++i)
                    w->common->getInputVariable(i)->setValue(0.25);
                guarded([] { w->common->process(); });
            }
        }
        std::string common = warm ? util::snapshot(*w->common) : "";
        bool alike = chance(1, 2);  // all threads do the same work
        int faulted = chance(1, 6) ? range(0, n - 1) : -1;
        w->work.resize(n);
        for (int i = 0; i < n; ++i) {
            Workload& k = w->work[i];
            if (i and alike) {
                k.steps = w->work[0].steps;
            } else {
                int steps = range(1, 5), engine = range(0, nspecs - 1);
                for (int j = 0; j < steps; ++j) {
                    if (chance(1, 8))
                        engine = range(0, nspecs - 1);
                    k.steps.push_back(drawStep(options, engine, warm));
                }
            }
            std::string list;
            for (auto& s : k.steps)
                list += std::string(" ") + NAMES[s.kind] + "/" + std::to_string(s.variant) + (s.text.empty() ? "" : "(" + s.text + ")");
            trace("thread %d works:%s", i, list.c_str());
        }
        if (faulted >= 0) {
            Workload& k = w->work[faulted];
            k.faulted = true;
            for (auto& s : k.steps)
                if (chance(2, 3)) {
                    s.failAt = range(1, chance(1, 2) ? 40 : 600);
                    s.persistent = chance(1, 2);
                    trace("thread %d: allocation %u of %s fails%s", faulted, s.failAt, NAMES[s.kind], s.persistent ? ", and all later ones" : "");
                }
        }
        // alone
        std::vector<std::string> expected(n);
        for (int i = 0; i < n; ++i) {
            if (i == faulted)
                continue;
            expected[i] = i and alike and faulted != 0 ? expected[0] : runAlone(i);
            hashStr(expected[i]);
        }
        // together
        sched::Plan plan;
        plan.threads = n;
        plan.mean = pick(std::vector<uint32_t>{1500, 200, 40, 8, 2});
        plan.busy = pick(std::vector<uint32_t>{1u << 30, 2000, 200, 20});
        plan.calm = pick(std::vector<uint32_t>{50000, 5000, 500});
        plan.skip = chance(1, 2) ? 0 : draw(pick(std::vector<uint32_t>{100, 2000, 40000, 400000}));
        if (chance(1, 4)) {
            plan.stalled = range(0, n - 1);
            plan.stallFrom = draw(200);
            plan.stall = pick(std::vector<uint32_t>{20, 500, 20000});
        }
        trace("%d threads, %s start, quanta about %u blocks in periods of %u, then %u; first switch after %u blocks%s", n, warm ? "warm" : "cold",
              plan.mean, plan.busy, plan.calm, plan.skip, plan.stalled >= 0 ? "; one thread stalls" : "");
        if (faulted >= 0)
            mem::begin();
        sched::Stats st = sched::run(plan, thread);
        mem::end();
        mem::forget();
        hashMix(sched::hash());
        for (uint64_t h : sched::states())
            state(h);
        count("sched:preemptions", st.preemptions);
        count("sched:basic blocks", st.blocks);
        count("sched:waits for another thread", st.waits);
        if (st.insideInit)
            count("fault:preempted within a static initialisation", st.insideInit);
        if (st.stalls)
            count("fault:stalled thread passed over", st.stalls);
        count("fault:thread preempted", st.preemptions);
        if (w->fired)
            count("fault:exhausted memory in one thread", w->fired);
        trace("%llu basic blocks, %llu preemptions, %llu waits", (unsigned long long)st.blocks, (unsigned long long)st.preemptions,
              (unsigned long long)st.waits);
        for (int i = 0; i < n; ++i) {
            if (i == faulted)
                continue;
            evaluated(w->work[i].logged);
            if (w->work[i].log != expected[i])
                fail("C03:interference", "thread %d: %s", i, util::difference(w->work[i].log, expected[i]).c_str());
        }
        if (warm) {
            // the shared engine is as it was
            evaluated();
            std::string now = util::snapshot(*w->common);
            if (now != common)
                fail("C03:shared engine", "the engine that no thread was to change was changed: %s", util::difference(now, common).c_str());
        }
        if (st.preemptions)
            nontrivial();
    }
    Property p("C03", run, warmup);
}
