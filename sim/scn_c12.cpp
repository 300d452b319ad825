// C12: the command line, on a simulated disk, terminal and standard output.
#include <errno.h>
#include <math.h>

#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>

#include "session.h"
#include "streams.h"

using namespace sim;

extern "C" int fuzzylite_main(int argc, const char* argv[]);

namespace {
    typedef std::map<std::string, std::string> Options;

    // what main changes for the whole process
    struct Process {
        std::terminate_handler terminate = std::get_terminate();
        bool logging = fl::fuzzylite::isLogging(), debugging = fl::fuzzylite::isDebugging();
        int decimals = fl::fuzzylite::decimals();
        void restore() {
            std::set_terminate(terminate);
            fl::fuzzylite::setLogging(logging);
            fl::fuzzylite::setDebugging(debugging);
            fl::fuzzylite::setDecimals(decimals);
        }
        ~Process() {
            restore();
        }
    };
    // standard output that may fail
    struct Stdout {
        streams::Sink sink;
        std::ostringstream err;
        std::streambuf *o, *e;
        Stdout() {
            mem::Off off;
            std::cout.clear();
            o = std::cout.rdbuf(&sink);
            e = std::cerr.rdbuf(err.rdbuf());
        }
        ~Stdout() {
            std::cout.rdbuf(o);
            std::cerr.rdbuf(e);
            std::cout.clear();
            std::cerr.clear();
        }
    };

    struct Command {
        std::vector<std::string> args;
        bool valid = true;
        bool standardOutput = false;  // is the destination
        std::vector<std::string> written;
        std::map<std::string, std::string> inPlace;  // what is read is written over
        std::vector<int> keys;
        // given the output after a success, fails unless it is complete
        std::function<void(const std::string& out)> judge;
        std::string kind;
    };
    struct Outcome {
        int status = 0;
        bool threw = false;
        std::string out, err, what;
        bool success() const {
            return not threw and status == EXIT_SUCCESS;
        }
    };
    Outcome execute(const Command& c, long room, long failAllocation, bool persistent, bool* memoryFired, bool* outputFired) {
        Process process;
        Stdout out;
        out.sink.room = room;
        std::vector<const char*> argv = {"fuzzylite"};
        for (auto& a : c.args)
            argv.push_back(a.c_str());
        int argc = (int)argv.size();
        argv.push_back(nullptr);
        tty::reset(true);
        tty::feed(c.keys);
        Outcome r;
        if (failAllocation) {
            mem::begin();
            mem::failAt(failAllocation, persistent);
        }
        Ended x = guarded([&] { r.status = fuzzylite_main(argc, argv.data()); });
        if (failAllocation) {
            *memoryFired = mem::fired();
            mem::failNever();
            mem::end();
            mem::forget();
        }
        *outputFired = out.sink.fired;
        r.threw = x.threw;
        r.what = x.what;
        r.out = out.sink.got;
        r.err = out.err.str();
        return r;
    }

    std::unique_ptr<fl::Importer> importer(const std::string& f) {
        if (f == "fll")
            return std::unique_ptr<fl::Importer>(new fl::FllImporter);
        if (f == "fis")
            return std::unique_ptr<fl::Importer>(new fl::FisImporter);
        return std::unique_ptr<fl::Importer>(new fl::FclImporter);
    }
    std::unique_ptr<fl::Exporter> exporter(const std::string& f) {
        fl::Exporter* e = f == "fll"   ? (fl::Exporter*)new fl::FllExporter
                          : f == "fis" ? (fl::Exporter*)new fl::FisExporter
                          : f == "fcl" ? (fl::Exporter*)new fl::FclExporter
                          : f == "cpp" ? (fl::Exporter*)new fl::CppExporter
                                       : (fl::Exporter*)new fl::JavaExporter;
        return std::unique_ptr<fl::Exporter>(e);
    }
    std::string damage(std::string text) {
        switch (draw(4)) {
            case 0:
                return text.substr(0, draw((uint32_t)text.size() + 1));
            case 1: {
                size_t a = draw((uint32_t)text.size() + 1);
                return text.substr(0, a) + pick(std::vector<std::string>{"@", "\nFoo: bar\n", "\n[Foo]\n", " = ", "\n:\n"}) + text.substr(a);
            }
            case 2: {
                size_t a = text.find(pick(std::vector<std::string>{"term:", "range", "Input", "MF1", "TERM", "rule"}));
                return a == std::string::npos ? text + "\nFoo" : text.erase(a, 3);
            }
            default:
                return "Foo: bar\n" + text;
        }
    }
    std::string dataSet(const gen::EngineSpec& s, int rows, bool outputs, bool malformed) {
        std::string t;
        if (chance(1, 2)) {
            for (auto& v : s.inputs)
                t += v.name + " ";
            for (auto& v : s.outputs)
                t += v.name + " ";
            t += "\n";
        }
        int bad = malformed ? 1 + (int)draw(rows) : -1;
        for (int i = 0; i <= rows; ++i) {
            if (chance(1, 6))
                t += "# comment\n";
            for (auto& v : s.inputs)
                t += gen::num(gen::sensor(v, false)) + " ";
            if (outputs)
                for (auto& v : s.outputs)
                    t += gen::num(gen::sensor(v, false)) + " ";
            if (i == bad)
                t += "x1";
            t += "\n";
        }
        return t;
    }

    // the engine on the disk
    struct Input {
        std::string format, path, text;
    };
    Input input(const gen::EngineSpec& s, const fl::Engine& e, const std::string& format) {
        Input r;
        r.format = format;
        r.text = exporter(format)->toString(&e);
        r.path = "/sim/in" + pick(std::vector<std::string>{"", ".v2", "_a"}) + "." + format;
        return r;
    }
    void complete(const char* cls, const std::string& got, const std::string& expected) {
        if (got != expected)
            fail(cls, "%s", util::difference(got, expected).c_str());
        evaluated();
    }

    Command conversion(const gen::EngineSpec& s, const fl::Engine& e, const std::string& inFormat) {
        Command c;
        Options o;
        Input in = input(s, e, inFormat);
        if (chance(1, 12))
            in.text = damage(in.text);
        bool two = chance(1, 5), example = not two and chance(1, 6);
        int kind = two ? 0 : weighted({5, 3, 2});  // text, data, interactive
        std::string outFormat = kind ? "fld" : pick(std::vector<std::string>{"fll", "fis", "fcl", "cpp", "java"});
        bool file = two or chance(2, 3);
        std::string extension = outFormat;
        bool explicitFormat = not two and (not file or chance(1, 3));
        if (explicitFormat and chance(1, 2))
            extension = pick(std::vector<std::string>{"txt", "fll", "out"});
        std::string path = file ? "/sim/out" + pick(std::vector<std::string>{"", ".v2", "_b"}) + "." + extension : "";
        if (example) {
            o["-example"] = pick(std::vector<std::string>{"m", "mamdani", "t", "ts", "takagi-sugeno"});
            std::unique_ptr<fl::Engine> x(o["-example"][0] == 'm' ? fl::Console::mamdani() : fl::Console::takagiSugeno());
            in.format = "fll";
            in.text = "";  // written with the decimals in force
            in.path = "";
        } else if (not two) {
            o["-i"] = in.path;
            if (chance(1, 3)) {
                o["-if"] = in.format;
                if (chance(1, 2))
                    o["-i"] = in.path = "/sim/engine" + pick(std::vector<std::string>{"", ".fll", ".txt"});
            }
        }
        if (not two) {
            if (file)
                o["-o"] = path;
            if (explicitFormat)
                o["-of"] = outFormat;
            if (chance(1, 3))
                o["-decimals"] = std::to_string(range(0, 9));
        }
        if (in.path.size())
            disk::put(in.path, in.text);
        std::string data;
        int values = 0;
        if (kind) {
            if (chance(1, 3))
                o["-dheader"] = chance(1, 2) ? "true" : "false";
            if (chance(1, 3))
                o["-dinputs"] = chance(1, 2) ? "true" : "false";
        }
        if (kind == 1) {
            if (chance(1, 2) and not example) {
                o["-d"] = "/sim/data.fld";
                data = dataSet(s, range(1, weighted({5, 1}) ? 60 : 6), chance(1, 2), chance(1, 6));
                disk::put("/sim/data.fld", data);
            } else {
                values = range(1, 12);
                o["-values"] = std::to_string(values);
                if (chance(1, 2))
                    o["-scope"] = chance(1, 2) ? "EachVariable" : "AllVariables";
                else if (s.inputs.size() > 2)
                    values = std::min(values, 5), o["-values"] = std::to_string(values);
            }
        }
        if (kind == 2)
            c.keys = session::keystrokes(s, range(0, 20));
        bool inPlace = file and in.path.size() and kind == 0 and (two ? outFormat == in.format : true) and chance(1, two ? 2 : 8);
        if (inPlace) {
            path = in.path;
            c.inPlace[path] = in.text;
            if (not two)
                o["-o"] = path, o["-of"] = outFormat;
            count("converted in place");
        }
        // arguments in any order
        std::vector<std::string> keys;
        for (auto& k : o)
            keys.push_back(k.first);
        for (size_t i = keys.size(); i > 1; --i)
            std::swap(keys[i - 1], keys[draw((uint32_t)i)]);
        // wrong arguments
        int wrong = not inPlace and chance(1, 5) ? 1 + (int)draw(two ? 3 : 11) : 0;
        c.kind = "convert";
        if (wrong) {
            c.kind = "wrong arguments " + std::to_string(wrong);
            c.valid = false;
            switch (wrong) {
                case 1:
                    if (in.path.size()) {
                        disk::erase(in.path);
                    } else
                        o["-example"] = "x";
                    break;
                case 2:
                    if (file) {
                        path = o["-o"] = "/sim/none/out.fll";
                        if (not explicitFormat)
                            path = o["-o"] = "/sim/none/out." + outFormat;
                    } else
                        o["-of"] = "xyz";
                    break;
                case 3:
                    keys.push_back(pick(std::vector<std::string>{"-foo", "foo", "--values", "-I", "-"}));
                    o[keys.back()] = "1";
                    break;
                case 4:
                    o["-of"] = pick(std::vector<std::string>{"xyz", "FLL", "", "R"});
                    break;
                case 5:
                    if (example)
                        o["-example"] = pick(std::vector<std::string>{"", "x", "Mamdani", "tsk"});
                    else
                        o["-if"] = pick(std::vector<std::string>{"xyz", "FLL", "", "fld"});
                    break;
                case 6:
                    o["-decimals"] = pick(std::vector<std::string>{"x", "", "3x", "three"});
                    break;
                case 7:
                    o.erase(example ? "-example" : "-i");
                    o["-decimals"] = "3";
                    break;
                case 8:
                    o.erase("-of");
                    if (file)
                        path = o["-o"] = chance(1, 2) ? "/sim/out" : "/sim/out.";
                    o["-decimals"] = "3";
                    break;
                case 9:
                    if (kind == 1) {
                        if (o.count("-d"))
                            disk::erase("/sim/data.fld");
                        else
                            o["-values"] = pick(std::vector<std::string>{"x", "", "5x"});
                    } else
                        o["-foo"] = "x";
                    break;
                case 10:
                    if (kind == 1 and not o.count("-d"))
                        o["-scope"] = pick(std::vector<std::string>{"x", "", "all", "eachvariable"});
                    else
                        o["-foo"] = "x";
                    break;
                default:  // an option without value
                    break;
            }
            if (wrong != 3) {
                std::vector<std::string> known;
                for (auto& k : keys)
                    if (o.count(k))
                        known.push_back(k);
                for (auto& k : o)
                    if (std::find(known.begin(), known.end(), k.first) == known.end())
                        known.push_back(k.first);
                keys = known;
            }
        }
        if (two) {
            c.args = {in.path, path};
            if (wrong == 3)
                c.args.insert(c.args.begin() + (chance(1, 2) ? 2 : 0), {"/sim/more.fll", "/sim/more"});
        } else
            for (auto& k : keys) {
                c.args.push_back(k);
                c.args.push_back(o[k]);
            }
        if (wrong == 11) {
            c.args.pop_back();
            if (c.args.size() < 2)
                c.valid = true;
        }
        c.standardOutput = not file;
        if (file)
            c.written.push_back(path);
        if (c.args.size() < 2) {  // usage
            c.judge = [](const std::string& out) {};
            return c;
        }
        // what a success leaves
        Options options = o;
        bool headings = not o.count("-dheader") or o["-dheader"] == "true";
        bool inputs = not o.count("-dinputs") or o["-dinputs"] == "true";
        int digits = o.count("-decimals") and c.valid ? atoi(o["-decimals"].c_str()) : -1;
        if (c.valid) {
            Process process;
            fl::fuzzylite::setLogging(true);
            if (digits >= 0)
                fl::fuzzylite::setDecimals(digits);
            Stdout logs;
            std::string expected;
            session::Session played;
            Ended x = guarded([&] {
                // line by line, as it is read from the file
                std::string text = in.text;
                if (example) {
                    std::unique_ptr<fl::Engine> x(o["-example"][0] == 'm' ? fl::Console::mamdani() : fl::Console::takagiSugeno());
                    text = exporter("fll")->toString(x.get());
                }
                std::unique_ptr<fl::Engine> engine(importer(in.format)->fromString(text));
                if (kind == 0) {
                    expected = exporter(outFormat)->toString(engine.get());
                    return;
                }
                fl::FldExporter f(" ");
                f.setExportHeader(headings);
                f.setExportInputValues(inputs);
                if (kind == 2) {
                    expected = f.header(engine.get());
                    played = session::play(*engine, c.keys);
                    return;
                }
                std::ostringstream os;
                if (o.count("-d")) {
                    std::istringstream is(data);
                    f.write(engine.get(), os, is);
                } else
                    f.write(engine.get(), os, atoi(o["-values"].c_str()), o.count("-scope") and o["-scope"] == "AllVariables" ? fl::FldExporter::AllVariables : fl::FldExporter::EachVariable);
                expected = os.str();
            });
            c.valid = not x.threw;
            std::string log = logs.sink.got;
            if (c.valid)
                c.judge = [=](const std::string& out) {
                    Process process;
                    if (digits >= 0)
                        fl::fuzzylite::setDecimals(digits);
                    std::string got = file ? disk::content(path) : out;
                    if (file and not disk::exists(path))
                        fail("C12:output missing", "success, but %s does not exist", path.c_str());
                    if (kind < 2)
                        complete("C12:incomplete output", got, file ? expected : log + expected);
                    else {
                        size_t a = got.find(expected);
                        if (a == std::string::npos or got.find("=\t") < a)
                            fail("C12:incomplete output", "the heading `%s' is missing", expected.c_str());
                        session::check(got.substr(a + expected.size()), played, "the output", "C12");
                        if (file)
                            session::check(out.substr(out.find(expected) == std::string::npos ? 0 : out.find(expected) + expected.size()), played, "the screen", "C12");
                    }
                };
        }
        return c;
    }

    std::vector<std::string> columns(const std::string& line) {
        return session::split(line, "\t");
    }
    void judgeBenchmarks(const std::string& text, const std::vector<std::string>& names, int runs, const std::vector<int>& rows) {
        std::vector<std::string> lines = session::split(util::chomp(text), "\n");
        if (lines.size() != names.size() + 1)
            fail("C12:incomplete benchmark", "%zu lines instead of %zu: %s", lines.size(), names.size() + 1, text.c_str());
        std::vector<std::string> h = columns(lines[0]);
        for (size_t i = 0; i < names.size(); ++i) {
            std::vector<std::string> b = columns(lines[i + 1]);
            if (b.size() != h.size())
                fail("C12:incomplete benchmark", "%zu columns under %zu headings: %s", b.size(), h.size(), text.c_str());
            int seen = 0, times = 0;
            for (size_t k = 0; k < h.size(); ++k) {
                if (h[k] == "name" and b[k] != names[i])
                    fail("C12:wrong benchmark", "name %s instead of %s", b[k].c_str(), names[i].c_str());
                if (h[k] == "runs" and atoi(b[k].c_str()) != runs)
                    fail("C12:wrong benchmark", "%s runs instead of %d", b[k].c_str(), runs);
                if (h[k] == "evaluations" and atoi(b[k].c_str()) != rows[i])
                    fail("C12:wrong benchmark", "%s evaluations instead of %d", b[k].c_str(), rows[i]);
                seen += h[k] == "name" or h[k] == "runs" or h[k] == "evaluations";
                if (h[k].size() > 1 and h[k][0] == 't' and isdigit((unsigned char)h[k][1])) {
                    ++times;
                    double t = atof(b[k].c_str());
                    if (not(t >= 0) or not isdigit((unsigned char)b[k][0]))
                        fail("C12:wrong benchmark", "elapsed time %s", b[k].c_str());
                }
            }
            if (seen != 3 or times != runs)
                fail("C12:incomplete benchmark", "%d times for %d runs: %s", times, runs, text.c_str());
        }
        evaluated();
    }
    Command benchmark(const gen::EngineSpec& s, const fl::Engine& e, bool many) {
        Command c;
        c.kind = many ? "benchmarks" : "benchmark";
        int runs = range(1, 4);
        int n = many ? range(0, 4) : 1;
        std::string fll, fld;
        std::vector<std::string> names;
        std::vector<int> rows;
        std::string text = exporter("fll")->toString(&e);
        int wrong = chance(1, 4) ? 1 + (int)draw(6) : 0;
        int which = (int)draw(std::max(1, n));
        for (int i = 0; i < n; ++i) {
            std::string a = "/sim/" + std::to_string(i) + ".fll", b = "/sim/" + std::to_string(i) + ".fld";
            int k = range(1, weighted({5, 1}) ? 30 : 5);
            std::string d = dataSet(s, k - 1, true, false);
            if (wrong == 1 and i == which)
                d += "1 x 2\n";
            disk::put(a, wrong == 2 and i == which ? "Foo: bar\n" + text : text);
            disk::put(b, d);
            if (wrong == 3 and i == which)
                disk::erase(chance(1, 2) ? a : b);
            if (many and chance(1, 4)) {
                fll += "#comment\n";
                fld += "#comment\n";
            }
            fll += a + "\n";
            fld += b + "\n";
            names.push_back(e.getName());
            rows.push_back(k);
        }
        if (wrong)
            c.valid = n == 0 and wrong <= 3;
        if (many) {
            disk::put("/sim/fll.txt", fll);
            disk::put("/sim/fld.txt", fld);
            if (wrong == 4)
                disk::erase(chance(1, 2) ? "/sim/fll.txt" : "/sim/fld.txt");
            c.args = {"benchmarks", "/sim/fll.txt", "/sim/fld.txt", std::to_string(runs)};
        } else {
            c.args = {"benchmark", "/sim/0.fll", "/sim/0.fld", std::to_string(runs)};
            if (wrong == 4)
                c.args[1 + draw(2)] = "/sim/none";
        }
        bool file = chance(1, 2);
        std::string path = "/sim/out.tsv";
        if (wrong == 5)
            c.args[3] = pick(std::vector<std::string>{"x", "", "2x"});
        if (wrong == 6) {
            if (chance(1, 2) or not file)
                c.args.pop_back(), file = false;
            else
                path = "/sim/none/out.tsv";
        }
        if (file) {
            c.args.push_back(path);
            c.written.push_back(path);
        }
        c.standardOutput = not file;
        if (c.valid)
            c.judge = [=](const std::string& out) { judgeBenchmarks(file ? disk::content(path) : out, names, runs, rows); };
        return c;
    }

    const char* const EXAMPLES[] = {
        "mamdani/AllTerms", "mamdani/SimpleDimmer", "mamdani/Laundry", "mamdani/ObstacleAvoidance", "mamdani/SimpleDimmerChained",
        "mamdani/SimpleDimmerInverse", "mamdani/matlab/mam21", "mamdani/matlab/mam22", "mamdani/matlab/shower", "mamdani/matlab/tank",
        "mamdani/matlab/tank2", "mamdani/matlab/tipper", "mamdani/matlab/tipper1", "mamdani/octave/investment_portfolio",
        "mamdani/octave/mamdani_tip_calculator", "takagi-sugeno/approximation", "takagi-sugeno/ObstacleAvoidance",
        "takagi-sugeno/SimpleDimmer", "takagi-sugeno/matlab/fpeaks", "takagi-sugeno/matlab/invkine1", "takagi-sugeno/matlab/invkine2",
        "takagi-sugeno/matlab/juggler", "takagi-sugeno/matlab/membrn1", "takagi-sugeno/matlab/membrn2", "takagi-sugeno/matlab/slbb",
        "takagi-sugeno/matlab/slcp", "takagi-sugeno/matlab/slcp1", "takagi-sugeno/matlab/slcpp1", "takagi-sugeno/matlab/sltbu_fl",
        "takagi-sugeno/matlab/sugeno1", "takagi-sugeno/matlab/tanksg", "takagi-sugeno/matlab/tippersg",
        "takagi-sugeno/octave/cubic_approximator", "takagi-sugeno/octave/heart_disease_risk", "takagi-sugeno/octave/linear_tip_calculator",
        "takagi-sugeno/octave/sugeno_tip_calculator", "tsukamoto/tsukamoto", "hybrid/tipper", "hybrid/ObstacleAvoidance"};
    const char* const EXAMPLE =
        "Engine: small\nInputVariable: a\n  enabled: true\n  range: 0.000 1.000\n  lock-range: false\n  term: low Triangle 0.000 0.250 0.500\n"
        "OutputVariable: o\n  enabled: true\n  range: 0.000 1.000\n  lock-range: false\n  aggregation: none\n"
        "  defuzzifier: WeightedAverage TakagiSugeno\n  default: nan\n  lock-previous: false\n  term: half Constant 0.500\n"
        "RuleBlock: \n  enabled: true\n  conjunction: none\n  disjunction: none\n  implication: none\n  activation: General\n"
        "  rule: if a is low then o is half\n";
    Command examples() {
        Command c;
        c.kind = "examples";
        for (const char* top : {"/sim/from", "/sim/to"})
            for (const char* d : {"", "/mamdani", "/mamdani/matlab", "/mamdani/octave", "/takagi-sugeno", "/takagi-sugeno/matlab", "/takagi-sugeno/octave",
                                  "/tsukamoto", "/hybrid"})
                disk::mkdir(std::string(top) + d);
        for (const char* x : EXAMPLES)
            disk::put(std::string("/sim/from/") + x + ".fll", EXAMPLE);
        c.args = {"export-examples", "/sim/from", "/sim/to"};
        int wrong = weighted({2, 1, 1, 1});
        c.valid = not wrong;
        if (wrong == 1)
            c.args[1] = "/sim/none";
        if (wrong == 2)
            disk::erase(std::string("/sim/from/") + EXAMPLES[draw(39)] + ".fll");
        if (wrong == 3)
            c.args[2] = "/sim/none";
        if (c.valid)
            c.judge = [](const std::string&) {
                Process process;
                std::unique_ptr<fl::Engine> e(fl::FllImporter().fromString(EXAMPLE));
                for (const char* f : {"fll", "fis", "fcl", "cpp", "java", "fld", "R"}) {
                    fl::fuzzylite::setDecimals(std::string(f) == "fld" ? 9 : 3);
                    static std::string data;
                    std::string expected;
                    if (std::string(f) == "fld")
                        expected = fl::FldExporter(" ").toString(e.get());
                    else if (std::string(f) != "R")
                        expected = exporter(f)->toString(e.get());
                    bool whole = std::string(f) != "cpp" and std::string(f) != "java" and std::string(f) != "R";
                    for (const char* x : EXAMPLES) {
                        std::string path = std::string("/sim/to/") + x + "." + f, got = disk::content(path);
                        if (got.empty() or (whole and got != expected) or got.find(expected) == std::string::npos or (not whole and got.back() != '\n'))
                            fail("C12:incomplete output", "success, but %s is incomplete: %s", path.c_str(), util::difference(got, expected).c_str());
                    }
                }
                evaluated();
            };
        return c;
    }
}

static void run() {
    disk::reset();
    clk::set((clk::Mode)(1 + draw(4)));
    mem::setStreamExempt(true);
    gen::Options g;
    std::string format = pick(std::vector<std::string>{"fll", "fll", "fis", "fcl"});
    g.style = format == "fll" ? "" : format;
    g.maxResolution = 12;
    g.missing = chance(1, 16);
    gen::EngineSpec s = ops::spec(g);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    int n = range(1, thorough() ? 4 : 2);
    for (int i = 0; i < n; ++i) {
        disk::reset();
        Command c;
        switch (g.missing ? 0 : weighted({20, 4, 3, 1})) {
            case 0:
                c = conversion(s, *e, format);
                break;
            case 1:
                c = benchmark(s, *e, false);
                break;
            case 2:
                c = benchmark(s, *e, true);
                break;
            default:
                if (chance(1, thorough() ? 4 : 12))
                    c = examples();
                else {
                    c.kind = "usage";
                    if (chance(1, 2))
                        c.args.push_back(pick(std::vector<std::string>{"-h", "--help", "x", "benchmark", "-i"}));
                    c.standardOutput = true;
                    c.judge = [](const std::string& out) {
                        if (out.find("usage") == std::string::npos)
                            fail("C12:usage", "no usage is shown: %s", out.c_str());
                    };
                }
        }
        std::string line;
        for (auto& a : c.args)
            line += " '" + a + "'";
        trace("fuzzylite%s", line.c_str());
        bool usage = c.args.size() < 2;
        bool memoryFired = false, outputFired = false;
        disk::clearLog();
        disk::benign(chance(1, 3), chance(1, 3));
        Outcome r = execute(c, -1, 0, false, &memoryFired, &outputFired);
        int operations = (int)disk::log().size();
        std::vector<disk::Op> log = disk::log();
        trace("status %d", r.status);
        if (r.threw)
            fail("C12:terminated", "an exception reached main's caller: %s", r.what.c_str());
        if (r.success() != c.valid)
            fail(c.valid ? "C12:valid run fails" : "C12:wrong run succeeds", "%s: status %d, output: %s%s", line.c_str(), r.status, r.out.substr(0, 800).c_str(), r.err.substr(0, 300).c_str());
        if (c.valid and c.judge)
            c.judge(r.out);
        if (not r.success() and r.out.empty() and r.err.empty())
            fail("C12:silent failure", "status %d without any message", r.status);
        if (disk::openHandles())
            fail("C12:file left open", "%d", disk::openHandles());
        state(hashOf(c.kind) + c.valid + c.standardOutput * 2);
        if (not c.valid)
            continue;
        // with faults
        bool heavy = c.kind == "examples";
        int tries = heavy ? 1 : range(1, thorough() ? 6 : 4);
        for (int k = 0; k < tries; ++k) {
            int what = weighted({6, c.standardOutput ? 3 : 1, 3});
            long room = -1, allocation = 0;
            int op = -1;
            for (auto& p : c.written)
                disk::erase(p);
            for (auto& p : c.inPlace)
                disk::put(p.first, p.second);
            if (heavy)
                for (auto& f : disk::list())
                    if (f.compare(0, 8, "/sim/to/") == 0)
                        disk::erase(f);
            disk::noFaults();
            disk::clearLog();
            if (what == 0 and operations) {
                op = (int)draw(operations);
                int f = weighted({4, 2, 2});
                disk::inject(op, f == 0 ? disk::FAIL : f == 1 ? disk::TORN_FAIL : disk::FULL, f == 2 ? ENOSPC : EIO, (long)draw(600), chance(1, 2));
            } else if (what == 1)
                room = (long)draw((uint32_t)r.out.size() + 1);
            else
                allocation = 1 + draw(chance(1, 3) ? 100 : heavy ? 200000 : 3000);
            bool persistent = chance(1, 3);
            memoryFired = outputFired = false;
            Outcome f = execute(c, room, allocation, persistent, &memoryFired, &outputFired);
            bool fired = disk::fired() > 0;
            trace("again%s%s%s: status %d%s", fired ? ", disk fault" : "", outputFired ? ", output fails" : "", memoryFired ? ", out of memory" : "", f.status, f.threw ? ", terminated" : "");
            if (memoryFired)
                count("fault:out of memory");
            if (f.threw and not memoryFired)
                fail("C12:terminated", "an exception reached main's caller: %s", f.what.c_str());
            bool must = disk::firedOn(disk::READ) or disk::firedOn(disk::OPEN_READ) or disk::firedOn(disk::WRITE) or disk::firedOn(disk::OPEN_WRITE);
            if (op >= 0 and fired and op < (int)log.size() and disk::firedOn(disk::CLOSE))
                for (auto& p : c.written)
                    must = must or (log[op].path == p and log[op].type == disk::CLOSE and std::any_of(log.begin(), log.begin() + op, [](const disk::Op& o) { return o.type == disk::OPEN_WRITE; }));
            if (outputFired and c.standardOutput and not usage)
                must = true;
            if (f.success()) {
                if (must)
                    fail("C12:failure ignored", "%s: success although %s", line.c_str(), outputFired ? "standard output failed" : "a file operation failed");
                if (c.judge and not(memoryFired and c.keys.size()))  // sessions show the error and go on
                    c.judge(outputFired ? r.out : f.out);
            } else {
                if (not fired and not outputFired and not memoryFired)
                    fail("C12:valid run fails", "%s: status %d, output: %s%s", line.c_str(), f.status, f.out.substr(0, 800).c_str(), f.err.substr(0, 300).c_str());
                if (f.out.empty() and f.err.empty() and not outputFired and not f.threw)
                    fail("C12:silent failure", "status %d without any message", f.status);
            }
            if (disk::openHandles())
                fail("C12:file left open", "%d", disk::openHandles());
            state(hashOf(c.kind) + c.standardOutput * 2 + f.success() * 4 + fired * 8 + outputFired * 16 + memoryFired * 32 + (op >= 0 and op < (int)log.size() ? (int)log[op].type + 1 : 0) * 64 + must * 4096);
            evaluated();
        }
        disk::noFaults();
    }
    nontrivial();
}
static Property p("C12", run);
