// C08: loading from a disk that fails, and from files cut off or damaged.
#include <errno.h>
#include <string.h>

#include <functional>
#include <sstream>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "util.h"

using namespace sim;

namespace {
    std::string damage(std::string t) {
        switch (weighted({3, 3, 2, 2, 1, 1, 1, 1})) {
            case 0:  // cut off
                t.resize(draw((uint32_t)t.size() + 1));
                count("content cut off");
                break;
            case 1:  // no newline at the end
                while (not t.empty() and t.back() == '\n')
                    t.pop_back();
                break;
            case 2: {  // a byte is changed
                if (not t.empty())
                    t[draw((uint32_t)t.size())] = (char)draw(256);
                count("content corrupted");
                break;
            }
            case 3: {  // a piece is lost
                size_t a = draw((uint32_t)t.size() + 1), n = draw(200);
                t.erase(a, n);
                count("content lost");
                break;
            }
            case 4: {  // a piece is repeated
                size_t a = draw((uint32_t)t.size() + 1), n = draw(200);
                t.insert(a, t.substr(a, n));
                count("content repeated");
                break;
            }
            case 5: {  // long lines
                size_t a = t.find('\n', draw((uint32_t)t.size() + 1));
                if (a != std::string::npos)
                    t.insert(a, std::string(range(1, 3) * 9000, ' '));
                break;
            }
            case 6:
                t.insert(draw((uint32_t)t.size() + 1), std::string(range(1, 200), '\n'));
                break;
            default:
                t.clear();
                for (int n = range(0, 300); n > 0; --n)
                    t += (char)draw(256);
        }
        return t;
    }

    // comments and empty lines anywhere between and after the lines
    std::string annotated(const std::string& t, int format) {
        std::istringstream in(t);
        std::string line, r;
        auto comment = [&] {
            std::string c = pick(std::vector<std::string>{"#", "# ", "# a comment", "#rule: if nothing then nothing", "## term: x # y", "#InputVariable: x"});
            if (format and chance(1, 2))
                c = "//" + c.substr(1);
            return c;
        };
        bool all = chance(1, 6);
        while (std::getline(in, line)) {
            if (all or chance(1, 8))
                for (int k = range(1, 3); k > 0; --k)
                    r += std::string(draw(3), ' ') + (chance(1, 4) ? "" : comment()) + "\n";
            if (all or chance(1, 8))
                line = std::string(draw(3), ' ') + line + std::string(range(1, 2), chance(1, 4) ? '\t' : ' ') + (chance(1, 4) ? "" : comment());
            r += line + "\n";
        }
        if (chance(1, 2))
            r += comment();
        return r;
    }

    // the same engine, or one with stated differences, in words that the exporters do not use
    typedef std::vector<std::function<void(fl::Engine&)>> Changes;
    std::vector<std::string> linesOf(const std::string& t) {
        std::vector<std::string> l;
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line))
            l.push_back(line);
        return l;
    }
    bool starts(const std::string& l, const std::string& with) {
        return l.compare(0, with.size(), with) == 0;
    }
    std::string fllOtherwise(const std::string& t) {
        std::vector<std::string> l = linesOf(t);
        std::string r;
        for (size_t i = 0; i < l.size();) {
            if (not starts(l[i], "InputVariable:") and not starts(l[i], "OutputVariable:") and not starts(l[i], "RuleBlock:")) {
                r += l[i++] + "\n";
                continue;
            }
            r += l[i++] + "\n";
            std::vector<std::string> keys, ordered;  // the order of terms and of rules matters
            for (; i < l.size() and starts(l[i], "  "); ++i) {
                std::string k = l[i];
                if (starts(k, "  term:") or starts(k, "  rule:")) {
                    ordered.push_back(k);
                    continue;
                }
                static const char* implied[] = {"  enabled: true", "  lock-range: false", "  lock-previous: false", "  aggregation: none", "  default: nan", "  defuzzifier: none", "  conjunction: none",
                                                "  disjunction: none", "  implication: none", "  activation: General", "  description:"};
                bool omit = false;
                for (auto* x : implied)
                    omit = omit or (k == x and chance(1, 2));
                if (omit)
                    continue;
                bool former = chance(1, 2), none = k.find(": none") != std::string::npos;
                if (starts(k, "  aggregation:") and former)
                    k = "  accumulation:" + k.substr(14);
                else if (starts(k, "  implication:") and former and not none)
                    k = "  activation:" + k.substr(14);
                else if (starts(k, "  lock-previous:") and former)
                    k = "  lock-valid:" + k.substr(16);
                if (chance(1, 8))  // stated twice
                    keys.push_back(k);
                keys.push_back(k);
            }
            for (size_t k = keys.size(); k > 1; --k)
                std::swap(keys[k - 1], keys[draw((uint32_t)k)]);
            size_t first = draw((uint32_t)ordered.size() + 1);
            while (not keys.empty() or not ordered.empty()) {  // interleaved
                if (not ordered.empty() and (keys.empty() or chance(1, 2) or ordered.size() > first)) {
                    r += ordered.front() + "\n";
                    ordered.erase(ordered.begin());
                } else if (not keys.empty()) {
                    r += keys.front() + "\n";
                    keys.erase(keys.begin());
                }
            }
        }
        return r;
    }
    std::string fclOtherwise(const std::string& t, Changes& changes) {
        std::vector<std::string> l = linesOf(t);
        std::string r, indent = pick(std::vector<std::string>{"", "  ", "\t"});
        int input = -1, output = -1, block = -1;
        for (size_t i = 0; i < l.size(); ++i) {
            std::string k = l[i];
            if (starts(k, "FUZZIFY ")) {
                ++input;
                r += k + "\n";
                if (chance(1, 2)) {
                    bool on = chance(1, 3);
                    int at = input;
                    r += indent + "ENABLED : " + (on ? "TRUE;\n" : "FALSE;\n");
                    changes.push_back([=](fl::Engine& e) { e.getInputVariable(at)->setEnabled(on); });
                }
                continue;
            }
            if (starts(k, "DEFUZZIFY ")) {
                int at = ++output;
                std::vector<std::string> body;
                r += k + "\n";
                for (++i; i < l.size() and not starts(l[i], "END_"); ++i)
                    body.push_back(l[i]);
                size_t stated = 0;
                bool nc = false;
                for (size_t b = 0; b < body.size(); ++b)
                    if (body[b].find("DEFAULT") != std::string::npos) {
                        stated = b;
                        nc = body[b].find("| NC") != std::string::npos;
                    }
                if (chance(2, 3)) {
                    int flags = draw(3) + 1;
                    size_t where = draw((uint32_t)body.size() + 1);
                    bool later = where > stated;
                    std::string lock = flags == 1 ? "PREVIOUS" : flags == 2 ? "RANGE" : chance(1, 2) ? "PREVIOUS | RANGE" : "RANGE|PREVIOUS";
                    body.insert(body.begin() + where, indent + "LOCK : " + lock + ";");
                    bool previous = (flags & 1) or (nc and not later), range = flags & 2;
                    changes.push_back([=](fl::Engine& e) {
                        e.getOutputVariable(at)->setLockPreviousValue(previous);
                        e.getOutputVariable(at)->setLockValueInRange(range);
                    });
                }
                if (chance(1, 3)) {
                    bool on = chance(1, 3);
                    body.insert(body.begin() + draw((uint32_t)body.size() + 1), indent + "ENABLED : " + (on ? "TRUE;" : "FALSE;"));
                    changes.push_back([=](fl::Engine& e) { e.getOutputVariable(at)->setEnabled(on); });
                }
                for (auto& b : body)
                    r += b + "\n";
                if (i < l.size())
                    r += l[i] + "\n";
                continue;
            }
            if (starts(k, "RULEBLOCK")) {
                ++block;
                r += k + "\n";
                int at = block;
                int what = draw(4);
                if (what == 1) {
                    bool on = chance(1, 3);
                    r += indent + "ENABLED : " + (on ? "TRUE;\n" : "FALSE;\n");
                    changes.push_back([=](fl::Engine& e) { e.getRuleBlock(at)->setEnabled(on); });
                }
                continue;
            }
            size_t rule = k.find("RULE "), colon = k.find(':');
            if (block >= 0 and rule != std::string::npos and rule < 4 and colon != std::string::npos and chance(1, 2))
                k = indent + "RULE" + (chance(1, 2) ? "" : " 7 :") + k.substr(colon + 1);
            else if (block >= 0 and (k.find("AND :") < 4 or k.find("OR :") < 4 or k.find("ACT :") < 4) and chance(1, 4)) {
                std::string name = k.substr(0, k.find(':'));
                k = name + ": NONE;";
                int at = block;
                char c = k[k.find_first_not_of(" ") + 1];
                changes.push_back([=](fl::Engine& e) {
                    if (c == 'N')
                        e.getRuleBlock(at)->setConjunction(nullptr);
                    else if (c == 'R')
                        e.getRuleBlock(at)->setDisjunction(nullptr);
                    else
                        e.getRuleBlock(at)->setImplication(nullptr);
                });
            }
            if (chance(1, 8) and not k.empty() and k.back() == ';')
                k.pop_back();
            r += k + "\n";
        }
        return r;
    }
    std::string fisOtherwise(const std::string& t, Changes& changes) {
        std::vector<std::string> l = linesOf(t);
        std::string r;
        int input = -1, output = -1;
        auto flag = [&](const std::string& key, const std::function<void(fl::Engine&, bool)>& set) {
            if (not chance(1, 3))
                return;
            bool on = chance(1, 2);
            r += key + "=" + (on ? pick(std::vector<std::string>{"1", "1.000", " 1"}) : pick(std::vector<std::string>{"0", "0.000"})) + "\n";
            changes.push_back([=](fl::Engine& e) { set(e, on); });
        };
        for (auto& k : l) {
            if (starts(k, "[Rules") or starts(k, "[System"))
                input = output = -1000;
            if (starts(k, "NumMFs=") or starts(k, "NumInputs=") or starts(k, "Version=")) {  // redundant
                if (chance(1, 2))
                    r += k + "\n";
            } else
                r += k + "\n";
            if (starts(k, "[System"))
                input = output = -1;
            if (starts(k, "[Input"))
                ++input;
            if (starts(k, "[Output"))
                ++output;
            if (starts(k, "Range=")) {
                if (output >= 0) {
                    int at = output;
                    flag("Enabled", [=](fl::Engine& e, bool on) { e.getOutputVariable(at)->setEnabled(on); });
                    flag("LockPrevious", [=](fl::Engine& e, bool on) { e.getOutputVariable(at)->setLockPreviousValue(on); });
                    flag("LockRange", [=](fl::Engine& e, bool on) { e.getOutputVariable(at)->setLockValueInRange(on); });
                    if (chance(1, 3)) {
                        double x = pick(std::vector<double>{0.0, 1.0, -0.25, 12.5, fl::nan, fl::inf});
                        r += "Default=" + fl::Op::str(x) + "\n";
                        changes.push_back([=](fl::Engine& e) { e.getOutputVariable(at)->setDefaultValue(x); });
                    }
                } else if (input >= 0) {
                    int at = input;
                    flag("Enabled", [=](fl::Engine& e, bool on) { e.getInputVariable(at)->setEnabled(on); });
                }
            }
        }
        return r;
    }

    struct Loaded {
        Ended ended;
        std::string engine;
    };
}

static void run() {
    disk::reset();
    disk::mkdir("/sim/dir");
    int files = range(1, thorough() ? 5 : 3);
    for (int n = 0; n < files; ++n) {
        int format = weighted({3, 1, 1});
        gen::Options g;
        if (format == 1)
            g.style = "fis";
        if (format == 2)
            g.style = "fcl";
        if (chance(1, 4)) {
            g.maxRules = 40;
            g.maxTerms = 8;
        }
        gen::EngineSpec s = ops::spec(g);
        std::unique_ptr<fl::Importer> importer;
        std::string content;
        if (format == 0) {
            importer.reset(new fl::FllImporter);
            content = gen::fll(s);
            size_t last = content.rfind("  rule: ");
            if (chance(1, 16) and last != std::string::npos and content.find('\n', last) == content.size() - 1) {
                std::string rule = content.substr(last), more;  // a file of many pages
                for (int i = range(500, 4000); i > 0; --i)
                    more += rule;
                content += more;
                count("content:many pages");
            }
        } else {
            std::unique_ptr<fl::Engine> e = gen::build(s);
            if (format == 1) {
                importer.reset(new fl::FisImporter);
                content = fl::FisExporter().toString(e.get());
            } else {
                importer.reset(new fl::FclImporter);
                content = fl::FclExporter().toString(e.get());
            }
        }
        std::string plain;
        Changes changes;
        bool changed = false;
        int condition = weighted({2, 3, 1, 2});
        if (condition == 1)
            content = damage(content);
        else if (condition == 2) {
            plain = content;
            content = annotated(content, format);
            count("content annotated");
        } else if (condition == 3) {
            plain = content;
            content = format == 0 ? fllOtherwise(content) : format == 1 ? fisOtherwise(content, changes) : fclOtherwise(content, changes);
            trace("said otherwise:\n%s", content.substr(0, 3000).c_str());
            count("content said otherwise");
        }
        std::vector<double> in;
        for (size_t i = 0; i < s.inputs.size(); ++i)
            in.push_back(gen::sensor(s.inputs[i], false));
        auto load = [&](bool fromFile, const std::string& path) {
            Loaded r;
            std::unique_ptr<fl::Engine> e;
            r.ended = guarded([&] { e.reset(fromFile ? importer->fromFile(path) : importer->fromString(content)); });
            if (r.ended.ok()) {
                if (not e)
                    fail("C08:no engine", "loading from a file gave null instead of an engine or an error");
                if (changed)
                    for (auto& c : changes)
                        c(*e);
                r.engine = util::snapshot(*e);
                for (size_t i = 0; i < in.size() and i < e->numberOfInputVariables(); ++i)
                    e->getInputVariable(i)->setValue(in[i]);
                bool costly = false;  // damage can make for resolutions of millions
                for (auto* o : e->outputVariables())
                    if (auto* d = dynamic_cast<fl::IntegralDefuzzifier*>(o->getDefuzzifier()))
                        costly = costly or d->getResolution() > 2000;
                Ended x = guarded([&] {
                    if (not costly)
                        e->process();
                });
                r.engine += util::values(*e) + (x.threw ? "threw" : "");
            }
            return r;
        };
        Loaded expected = load(false, "");
        if (condition == 2) {
            plain.swap(content);
            Loaded without = load(false, "");
            plain.swap(content);
            if (expected.ended.threw or expected.engine != without.engine)
                fail("C08:comments", "with comments, %s: %s", expected.ended.threw ? expected.ended.what.c_str() : util::difference(expected.engine, without.engine).c_str(),
                     content.substr(0, 3000).c_str());
        }
        if (condition == 3) {
            changed = true;
            plain.swap(content);
            Loaded without = load(false, "");
            plain.swap(content);
            changed = false;
            evaluated();
            if (expected.ended.threw or without.ended.threw or expected.engine != without.engine)
                fail("C08:another engine", "the engine loaded is not the one described: %s\n%s",
                     expected.ended.threw ? expected.ended.what.c_str() : util::difference(expected.engine, without.engine).c_str(), content.substr(0, 3000).c_str());
        }
        std::string path = "/sim/engine";
        disk::put(path, content);
        const char* formats[] = {"FLL", "FIS", "FCL"};
        trace("%s file of %zu bytes: %s", formats[format], content.size(), expected.ended.threw ? "invalid" : "valid");
        std::vector<disk::Op> operations;
        int faults = range(2, thorough() ? 10 : 6);
        for (int f = 0; f < faults; ++f) {
            disk::noFaults();
            disk::clearLog();
            std::string from = path;
            int kind = f == 0 ? 0 : weighted({2, 3, 4, 4, 1});
            int op = operations.empty() ? 0 : (int)draw((uint32_t)operations.size());
            static const int errors[] = {EIO, ESTALE, ENOMEM, EBADF};
            int err = errors[draw(4)];
            bool persistent = chance(1, 2);
            if (kind == 1 or (kind >= 2 and chance(1, 3)))
                disk::benign(chance(2, 3), chance(2, 3));
            if (kind == 2) {
                if (operations[op].type == disk::OPEN_READ)
                    err = std::vector<int>{EACCES, EMFILE, ENOENT, EIO}[draw(4)];
                disk::inject(op, disk::FAIL, err, 0, persistent);
            } else if (kind == 3)
                disk::inject(op, disk::TORN_FAIL, err, (long)draw((uint32_t)content.size() + 1), persistent);
            else if (kind == 4) {
                from = pick(std::vector<std::string>{"/sim/missing", "/sim/dir", "/sim/nowhere/engine", ""});
                count("fault:disk unreadable path");
            }
            Loaded x = load(true, from);
            evaluated();
            bool fired = disk::fired() > 0;
            disk::OpType type = operations.empty() ? disk::OTHER : operations[op].type;
            if (kind == 2 and fired)
                type = disk::log()[op].type;
            bool must = kind == 4 or (kind == 3 and fired) or (kind == 2 and fired and (type == disk::OPEN_READ or type == disk::READ));
            trace("load %d at %d (%s) err %d: %s", kind, op, disk::opName(type), err, x.ended.threw ? "error" : "loaded");
            state(((uint64_t)format * 5 + kind) * 64 + (uint64_t)type * 4 + (x.ended.threw ? 2 : 0) + (expected.ended.threw ? 1 : 0));
            if (f == 0)
                operations = disk::log();
            if (operations.empty())
                harnessError("no operations on the simulated disk");
            if (disk::openHandles())
                fail("C08:file left open", "%s: %d files are still open after loading", formats[format], disk::openHandles());
            if (must and not x.ended.threw)
                fail("C08:failure ignored", "%s: %s (%s) but an engine was returned; it is %s the one described by the complete file", formats[format],
                     kind == 4 ? "the file cannot be read" : "reading failed", kind == 4 ? from.c_str() : strerror(err), x.engine == expected.engine ? "" : "not");
            if (not fired and kind != 4 and x.ended.threw != expected.ended.threw)
                fail("C08:differs from content", "%s: loading from the file %s, loading the content from a string %s", formats[format],
                     x.ended.threw ? x.ended.what.c_str() : "gives an engine", expected.ended.threw ? expected.ended.what.c_str() : "gives an engine");
            if (not x.ended.threw and (expected.ended.threw or x.engine != expected.engine))
                fail("C08:wrong engine", "%s: the engine loaded from the file (%s) is not the one its content describes: %s", formats[format],
                     kind == 0 ? "working disk" : kind == 1 ? "short or interrupted reads" : "after faults",
                     expected.ended.threw ? "the content is invalid" : util::difference(x.engine, expected.engine).c_str());
            // nothing is left allocated: an apparent loss is repeated to exclude memory kept for later
            if (chance(1, 3)) {
                uint64_t live = 0;
                for (int again = 0; again < 3; ++again) {
                    disk::clearLog();
                    if (kind == 2)
                        disk::inject(op, disk::FAIL, err, 0, persistent);
                    else if (kind == 3)
                        disk::inject(op, disk::TORN_FAIL, err, (long)content.size() / 2, persistent);
                    std::unique_ptr<fl::Engine> e;
                    mem::begin();
                    Ended t = guarded([&] { e.reset(importer->fromFile(from)); });
                    e.reset();
                    {
                        std::string().swap(t.what);
                        live = mem::live();
                    }
                    if (live and again == 2) {
                        std::string what = mem::liveSummary();
                        mem::end();
                        fail("C08:memory lost", "%s: loading loses memory every time: %s", formats[format], what.c_str());
                    }
                    mem::forget();
                    mem::end();
                    if (not live)
                        break;
                }
                disk::closeAll();
            }
        }
    }
    nontrivial();
}
static Property p("C08", run);
