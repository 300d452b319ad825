// C07: saving to a disk that fails.
#include <errno.h>
#include <string.h>

#include <functional>
#include <sstream>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "util.h"

using namespace sim;

namespace {
    struct Saver {
        std::string name;
        bool evaluates = false;  // saving processes the engine
        std::function<std::string(fl::Engine&)> text;
        std::function<void(fl::Engine&, const std::string& path)> save;
    };

    template <class E>
    Saver textSaver(const char* name, std::shared_ptr<E> x) {
        Saver s;
        s.name = name;
        s.text = [x](fl::Engine& e) { return x->toString(&e); };
        s.save = [x](fl::Engine& e, const std::string& p) { x->toFile(p, &e); };
        return s;
    }

    std::string dataset(const fl::Engine& e) {
        std::string r;
        int rows = weighted({12, 1}) ? range(100, 400) : range(0, 12);
        bool heading = chance(1, 2);
        if (heading)
            r += "some heading\n";
        for (int i = 0; i < rows; ++i) {
            for (size_t k = 0; k < e.numberOfInputVariables(); ++k)
                r += gen::num(gen::grid(-1, 2)) + " ";
            r += "\n";
        }
        return r;
    }

    Saver draw_saver(const fl::Engine& e) {
        int kind = weighted({8, 2, 2, 2, 2, 6, 6, 4, 4, 1});
        if ((kind == 7 or kind == 8) and (e.numberOfInputVariables() == 0 or e.numberOfOutputVariables() == 0))
            kind = 5;
        switch (kind) {
            case 0: {
                std::shared_ptr<fl::FllExporter> x(new fl::FllExporter);
                if (chance(1, 4))
                    x->setSeparator(pick(std::vector<std::string>{"; ", "\n\n"}));
                return textSaver("FllExporter", x);
            }
            case 1:
                return textSaver("FclExporter", std::make_shared<fl::FclExporter>());
            case 2:
                return textSaver("FisExporter", std::make_shared<fl::FisExporter>());
            case 3:
                return textSaver("CppExporter", std::shared_ptr<fl::Exporter>(new fl::CppExporter(chance(1, 2), chance(1, 2))));
            case 4:
                return textSaver("JavaExporter", std::shared_ptr<fl::Exporter>(new fl::JavaExporter(chance(1, 2))));
            default:
                break;
        }
        Saver s;
        s.evaluates = true;
        if (kind == 5 or kind == 6) {
            std::shared_ptr<fl::FldExporter> x(new fl::FldExporter);
            x->setExportHeader(chance(3, 4));
            if (chance(1, 4)) {
                x->setExportInputValues(chance(1, 2));
                x->setExportOutputValues(not x->exportsInputValues() or chance(1, 2));
            }
            if (chance(1, 4))
                x->setSeparator(", ");
            if (kind == 5) {
                int values = weighted({20, 1}) ? range(500, chance(1, 3) ? 6000 : 1500) : range(1, 60);
                fl::FldExporter::ScopeOfValues scope = fl::FldExporter::AllVariables;
                if (e.numberOfInputVariables() <= 1 or (e.numberOfInputVariables() == 2 and values <= 30))
                    scope = chance(1, 2) ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables;
                s.name = "FldExporter " + std::to_string(values);
                s.text = [x, values, scope](fl::Engine& e) { return x->toString(&e, values, scope); };
                s.save = [x, values, scope](fl::Engine& e, const std::string& p) { x->toFile(p, &e, values, scope); };
            } else {
                std::string data = dataset(e);
                s.name = "FldExporter reader";
                s.text = [x, data](fl::Engine& e) {
                    std::istringstream in(data);
                    return x->toString(&e, in);
                };
                s.save = [x, data](fl::Engine& e, const std::string& p) {
                    std::istringstream in(data);
                    x->toFile(p, &e, in);
                };
            }
            return s;
        }
        std::shared_ptr<fl::RScriptExporter> x(new fl::RScriptExporter);
        int a = draw((uint32_t)e.numberOfInputVariables() + 0), b = draw((uint32_t)e.numberOfInputVariables() + 0);
        if (kind == 7) {
            int values = range(1, 60);
            s.name = "RScriptExporter " + std::to_string(values);
            s.text = [=](fl::Engine& e) {
                return x->toString(&e, e.getInputVariable(a), e.getInputVariable(b), values, fl::FldExporter::AllVariables, e.outputVariables());
            };
            s.save = [=](fl::Engine& e, const std::string& p) {
                x->toFile(p, &e, e.getInputVariable(a), e.getInputVariable(b), values, fl::FldExporter::AllVariables, e.outputVariables());
            };
        } else if (kind == 8) {
            std::string data = dataset(e);
            s.name = "RScriptExporter reader";
            s.text = [=](fl::Engine& e) {
                std::istringstream in(data);
                return x->toString(&e, e.getInputVariable(a), e.getInputVariable(b), in, e.outputVariables());
            };
            s.save = [=](fl::Engine& e, const std::string& p) {
                std::istringstream in(data);
                x->toFile(p, &e, e.getInputVariable(a), e.getInputVariable(b), in, e.outputVariables());
            };
        } else {  // through the interface of exporters: 1024 values
            if (chance(1, 2))
                s = textSaver("Exporter FldExporter", std::shared_ptr<fl::Exporter>(new fl::FldExporter));
            else
                s = textSaver("Exporter RScriptExporter", std::shared_ptr<fl::Exporter>(new fl::RScriptExporter));
            s.evaluates = true;
        }
        return s;
    }

    bool opaque(disk::OpType t) {  // its failure may go unnoticed without harm
        return t == disk::SEEK or t == disk::STAT;
    }
}

static void run() {
    disk::reset();
    disk::mkdir("/sim/dir");
    gen::Options g;
    if (chance(1, 4)) {
        g.maxRules = 40;
        g.maxTerms = 8;
    }
    gen::EngineSpec s = ops::spec(g);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    if (chance(1, 16)) {  // texts of many pages
        if (chance(1, 2))
            e->setDescription(std::string((size_t)range(40, 300) * 1000 + range(0, 4096), 'd'));
        else {
            std::string text;
            for (auto* b : e->ruleBlocks())
                for (auto* r : b->rules())
                    if (r->isLoaded())
                        text = r->getText();
            fl::RuleBlock* b = new fl::RuleBlock("many");
            b->setEnabled(false);
            e->addRuleBlock(b);
            for (int i = range(300, 2000); i > 0 and not text.empty(); --i)
                b->addRule(fl::Rule::parse(text, e.get()));
        }
        count("engine:many pages");
    }
    int attempts = range(1, thorough() ? 8 : 4);
    for (int n = 0; n < attempts; ++n) {
        for (int k = range(0, 2); k > 0; --k) {
            for (size_t i = 0; i < s.inputs.size(); ++i)
                e->getInputVariable(i)->setValue(gen::sensor(s.inputs[i], chance(1, 4)));
            guarded([&] { e->process(); });
        }
        Saver w = draw_saver(*e);
        std::string expected;
        Ended t = guarded([&] {
            std::unique_ptr<fl::Engine> c(e->clone());
            expected = w.text(*c);
        });
        std::string path = "/sim/out";
        bool reachable = true;
        switch (weighted({8, 3, 1, 1, 1})) {
            case 1:  // over an existing, often longer, file
                disk::put(path, std::string(range(0, 3) * 10000 + 5, 'x'));
                break;
            case 2:
                path = "/sim/missing/out";
                reachable = false;
                break;
            case 3:
                path = "/sim/dir";
                reachable = false;
                break;
            case 4:
                path = "/sim/dir/out";
                break;
            default:
                disk::erase(path);
        }
        // without faults, to learn the operations
        std::map<int, int> kinds;
        disk::noFaults();
        disk::clearLog();
        auto save = [&](std::string& before, std::string& after) {
            std::unique_ptr<fl::Engine> c(e->clone());
            before = util::snapshot(*c);
            Ended x = guarded([&] { w.save(*c, path); });
            after = w.evaluates ? before : util::snapshot(*c);
            return x;
        };
        std::string before, after;
        Ended x = save(before, after);
        evaluated();
        trace("%s to %s: %s, %zu bytes, %zu operations", w.name.c_str(), path.c_str(), x.threw ? "error" : "saved", disk::content(path).size(),
              disk::log().size());
        auto complete = [&](const char* when) {
            std::string c = disk::content(path);
            if (util::chomp(c) != util::chomp(expected) or c.size() < expected.size() or c.size() > expected.size() + 1)
                fail("C07:incomplete file", "%s, %s: the call returned normally but the file is wrong %s", w.name.c_str(), when,
                     util::difference(c, expected).c_str());
        };
        auto common = [&](const char* when) {
            if (disk::openHandles())
                fail("C07:file left open", "%s, %s: %d files are still open", w.name.c_str(), when, disk::openHandles());
            if (before != after)
                fail("C07:engine changed", "%s, %s: saving changed the engine %s", w.name.c_str(), when, util::difference(after, before).c_str());
        };
        common("working disk");
        if (not reachable) {
            count("fault:disk unreachable path");
            if (not x.threw)
                fail("C07:failure ignored", "%s: saving to %s was reported as a success", w.name.c_str(), path.c_str());
            continue;
        }
        if (t.threw) {  // the engine cannot be exported
            if (not x.threw)
                fail("C07:failure ignored", "%s: the text cannot be produced (%s) but saving it was reported as a success", w.name.c_str(), t.what.c_str());
            continue;
        }
        if (x.threw)
            fail("C07:spurious error", "%s: saving to a working disk failed: %s", w.name.c_str(), x.what.c_str());
        complete("working disk");
        std::vector<disk::Op> operations = disk::log();
        if (operations.empty())
            harnessError("no operations on the simulated disk");
        int faults = range(1, 4);
        for (int f = 0; f < faults; ++f) {
            disk::noFaults();
            disk::clearLog();
            if (chance(1, 3))
                disk::erase(path);
            else if (chance(1, 2))
                disk::put(path, std::string(expected.size() + range(0, 200), 'o'));
            bool benign = chance(1, 3);
            if (benign)
                disk::benign(chance(2, 3), chance(2, 3));
            int kind = weighted({benign ? 3 : 0, 4, 3, 3, 2});
            int op = draw((uint32_t)operations.size());
            static const int errors[] = {ENOSPC, EIO, EDQUOT, EFBIG};
            int err = errors[draw(4)];
            bool persistent = chance(1, 2);
            bool inReach = true;
            if (kind == 0)
                ;
            else if (kind == 1) {
                if (operations[op].type == disk::OPEN_WRITE)
                    err = std::vector<int>{EACCES, EMFILE, EROFS, ENOSPC}[draw(4)];
                disk::inject(op, disk::FAIL, err, 0, persistent);
            } else if (kind == 2) {
                // the disk becomes full after that many bytes
                disk::inject(0, disk::FULL, ENOSPC, (long)draw((uint32_t)expected.size() + 1), true);
            } else if (kind == 3) {
                disk::inject(op, disk::TORN_FAIL, err, (long)draw(8192), persistent);
            } else
                disk::inject(op, disk::CRASH, 0, 0, false);
            x = save(before, after);
            evaluated();
            bool mustFail = false, mayFail = false;
            int fired = disk::fired();
            if (kind == 1 and fired) {
                // with short writes, operation number `op` need not be what it was in the dry run
                disk::OpType type = disk::log()[op].type;
                mustFail = not opaque(type);
                mayFail = true;
            } else if ((kind == 2 or kind == 3) and fired)
                mustFail = mayFail = true;
            (void)inReach;
            trace("fault %d at %d (%s) err %d %s: %s", kind, op, disk::opName(operations[op].type), err, persistent ? "persistent" : "once",
                  x.threw ? "error" : "saved");
            state(hashOf(w.name.substr(0, 16)) * 31 + kind * 7 + (uint64_t)operations[op].type * 101 + (x.threw ? 1 : 0) + (op ? op == (int)operations.size() - 1 ? 2 : 1 : 0) * 1009);
            if (mustFail and not x.threw)
                fail("C07:failure ignored", "%s: a disk error (%s, at operation %d of %zu, %s) was reported as a success; %zu of %zu bytes are in the file", w.name.c_str(),
                     strerror(err), op, operations.size(), disk::opName(operations[op].type), disk::content(path).size(), expected.size());
            if (x.threw and not mayFail)
                fail("C07:spurious error", "%s: failed without a disk error: %s", w.name.c_str(), x.what.c_str());
            if (not x.threw)
                complete(kind == 0 ? "short or interrupted writes" : "after faults");
            common("after faults");
            if (kind == 4 and disk::snapshotTaken()) {  // the process died there; the next one saves again over what is left
                disk::restoreSnapshot();
                count("restart after crash");
            }
            if (chance(1, 2) or kind == 4) {
                disk::noFaults();
                disk::clearLog();
                x = save(before, after);
                if (x.threw)
                    fail("C07:spurious error", "%s: saving again to a working disk failed: %s", w.name.c_str(), x.what.c_str());
                complete("again on a working disk");
            }
        }
    }
    nontrivial();
}
static Property p("C07", run);
