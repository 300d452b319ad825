// C16: settings of the process are those the user set, whatever happens in between, and results reflect those in force.
#include <fenv.h>
#include <locale.h>
#include <math.h>
#include <stdio.h>
#include <string.h>

#include <fstream>
#include <functional>
#include <iostream>
#include <locale>
#include <map>
#include <sstream>

#include "probes.h"
#include "session.h"
#include "streams.h"

using namespace sim;

namespace {
    typedef std::ios_base::fmtflags Format;
    const Format FIXED = std::ios_base::fixed, SCIENTIFIC = std::ios_base::scientific, GENERAL = std::ios_base::dec;
    const Format UPPER = std::ios_base::scientific | std::ios_base::uppercase, POINT = std::ios_base::dec | std::ios_base::showpoint;

    struct Settings {
        int decimals = 3;
        double macheps = 1e-6, atol = 1e-3;
        Format format = FIXED;
        bool logging = true, debugging = false;
        int resolution = 1000;
    };
    Settings S;  // as the user set them

    void apply(const Settings& s) {
        fl::fuzzylite::setDecimals(s.decimals);
        fl::fuzzylite::setMachEps(s.macheps);
        fl::fuzzylite::setAbsoluteTolerance(s.atol);
        fl::fuzzylite::setScalarFormat(s.format);
        fl::fuzzylite::setLogging(s.logging);
        fl::fuzzylite::setDebugging(s.debugging);
        fl::IntegralDefuzzifier::setDefaultResolution(s.resolution);
        model::eps = s.macheps;
    }

    // what belongs to the user and the rest of the process
    std::string ios(const std::ios& s) {
        char b[200];
        snprintf(b, sizeof b, "flags %x precision %d fill %d exceptions %d tie %d locale %s", (unsigned)s.flags(), (int)s.precision(), (int)s.fill(), (int)s.exceptions(),
                 s.tie() != nullptr, s.getloc().name().c_str());
        return b;
    }
    template <class F>
    std::string constructors(const char* name, const F* f) {
        std::string r = std::string(name) + (f ? f->name() : "none");
        char b[40];
        if (f)
            for (auto& c : f->constructors()) {
                snprintf(b, sizeof b, "=%p ", (void*)c.second);
                r += c.first + b;
            }
        return r + "\n";
    }
    std::string factories() {
        fl::FactoryManager* m = fl::FactoryManager::instance();
        char b[80];
        snprintf(b, sizeof b, "%p %p %p %p %p %p %p %p\n", (void*)m, (void*)m->tnorm(), (void*)m->snorm(), (void*)m->activation(), (void*)m->defuzzifier(),
                 (void*)m->term(), (void*)m->hedge(), (void*)m->function());
        std::string r = b;
        r += constructors("tnorm ", m->tnorm()) + constructors("snorm ", m->snorm()) + constructors("activation ", m->activation())
             + constructors("defuzzifier ", m->defuzzifier()) + constructors("term ", m->term()) + constructors("hedge ", m->hedge());
        for (auto& o : m->function()->objects()) {
            snprintf(b, sizeof b, "=%p ", (void*)o.second);
            r += o.first + b;
        }
        return r;
    }
    std::string process() {
        char b[80];
        snprintf(b, sizeof b, "\nrounding %d ", fegetround());
        return "cout " + ios(std::cout) + "\ncerr " + ios(std::cerr) + "\nclog " + ios(std::clog) + "\ncin " + ios(std::cin) + b + setlocale(LC_ALL, nullptr) + " "
               + std::locale().name();
    }
    std::string rest, registered;

    void check(const std::string& what) {
        evaluated();
        auto wrong = [&](const char* name, double is, double expected) {
            fail("C16:setting changed", "after %s, %s is %g instead of %g", what.c_str(), name, is, expected);
        };
        if (fl::fuzzylite::decimals() != S.decimals)
            wrong("the number of decimals", fl::fuzzylite::decimals(), S.decimals);
        if (fl::fuzzylite::macheps() != S.macheps)
            wrong("the tolerance of comparisons", fl::fuzzylite::macheps(), S.macheps);
        if (fl::fuzzylite::absoluteTolerance() != S.atol)
            wrong("the absolute tolerance", fl::fuzzylite::absoluteTolerance(), S.atol);
        if (fl::fuzzylite::scalarFormat() != S.format)
            wrong("the format of numbers", (int)fl::fuzzylite::scalarFormat(), (int)S.format);
        if (fl::fuzzylite::isLogging() != S.logging)
            wrong("logging", fl::fuzzylite::isLogging(), S.logging);
        if (fl::fuzzylite::isDebugging() != S.debugging)
            wrong("debugging", fl::fuzzylite::isDebugging(), S.debugging);
        if (fl::IntegralDefuzzifier::defaultResolution() != S.resolution)
            wrong("the default resolution", fl::IntegralDefuzzifier::defaultResolution(), S.resolution);
        std::string now = factories();
        if (now != registered)
            fail("C16:factories changed", "after %s, the factories differ %s", what.c_str(), util::difference(now, registered).c_str());
        now = process();
        if (now != rest)
            fail("C16:process changed", "after %s, streams or locale of the process differ: %s\ninstead of\n%s", what.c_str(), now.c_str(), rest.c_str());
        if (not tty::pristine())
            fail("C16:terminal changed", "after %s, the attributes of the terminal differ", what.c_str());
    }

    // ------------------------------------------------------------------------------------------------ numbers as text
    std::string shown(double x, int decimals, Format f) {
        if (x != x)
            return "nan";
        if (std::isinf(x))
            return x < 0 ? "-inf" : "inf";
        if (x == 0.0 or fabs(x) < pow(10.0, -decimals))
            x = 0.0;
        const char* format = f & std::ios_base::fixed ? "%.*f" : f & std::ios_base::scientific ? (f & std::ios_base::uppercase ? "%.*E" : "%.*e")
                             : f & std::ios_base::showpoint ? "%#.*g" : "%.*g";
        char b[400];
        snprintf(b, sizeof b, format, decimals, x);
        return b;
    }
    std::string shown(double x) {
        return shown(x, S.decimals, S.format);
    }
    // the length of a number in scientific notation with 17 decimals at that position
    size_t number(const std::string& t, size_t i) {
        size_t k = i;
        if (k < t.size() and t[k] == '-')
            ++k;
        if (k + 20 > t.size() or not isdigit((unsigned char)t[k]) or t[k + 1] != '.')
            return 0;
        for (int d = 2; d < 19; ++d)
            if (not isdigit((unsigned char)t[k + d]))
                return 0;
        k += 19;
        if (t[k] != 'e')
            return 0;
        ++k;
        if (t[k] == '-' or t[k] == '+')
            ++k;
        size_t digits = 0;
        while (k < t.size() and isdigit((unsigned char)t[k]))
            ++k, ++digits;
        return digits >= 2 ? k - i : 0;
    }
    // the text in which every number of the exact text is shown as set
    std::string rendered(const std::string& exact, int& numbers) {
        std::string r;
        numbers = 0;
        for (size_t i = 0; i < exact.size();) {
            size_t n = i == 0 or not isalnum((unsigned char)exact[i - 1]) ? number(exact, i) : 0;
            if (n) {
                r += shown(strtod(exact.substr(i, n).c_str(), nullptr));
                ++numbers;
                i += n;
            } else
                r += exact[i++];
        }
        return r;
    }

    std::string unsignedZeros(const std::string& t) {
        std::string r;
        for (size_t i = 0; i < t.size(); ++i) {
            if (t[i] == '-' and (i == 0 or not isalnum((unsigned char)t[i - 1])) and i + 1 < t.size() and isdigit((unsigned char)t[i + 1]) and strtod(t.c_str() + i, nullptr) == 0.0)
                continue;
            r += t[i];
        }
        return r;
    }

    // ------------------------------------------------------------------------------------------------ faults
    struct Fault {
        int kind = 0;  // 0 none, 1 memory, 2 exception in an evaluation, 3 disk, 4 stream, 5 terminal
        int at = 0;
        bool persistent = false;
        bool happened = false;
        void arm(int k) {
            kind = k;
            at = kind == 0 ? 0 : kind == 1 ? range(1, chance(1, 2) ? 400 : 30) : kind == 2 ? range(1, chance(1, 2) ? 200 : 10) : kind == 3 ? range(0, 6) : range(0, 300);
            persistent = chance(1, 2);
        }
    };
    template <class F>
    Ended under(Fault& f, F action) {
        probes::seen = 0;
        probes::fired = false;
        probes::failAt = f.kind == 2 ? f.at : 0;
        if (f.kind == 3) {
            disk::noFaults();
            disk::clearLog();
            disk::inject(f.at, chance(1, 3) ? disk::FULL : disk::FAIL, chance(1, 2) ? 5 : 28, range(0, 200), f.persistent);
        }
        mem::begin();
        if (f.kind == 1)
            mem::failAt(f.at, f.persistent);
        Ended e = guarded(action);
        bool memory = f.kind == 1 and mem::fired();
        mem::failNever();
        mem::end();
        mem::forget();
        probes::failAt = 0;
        if (memory)
            count("fault:exhausted memory");
        if (probes::fired)
            count("fault:exception in an evaluation");
        f.happened = memory or probes::fired;
        if (f.kind == 3) {
            if (disk::fired()) {
                count("fault:disk");
                f.happened = true;
            }
            disk::noFaults();
        }
        return e;
    }

    struct Console : fl::Console {
        using fl::Console::benchmark;
        using fl::Console::interactive;
        using fl::Console::process;
    };

    // a stream of the user with formatting of its own
    struct UserStream {
        streams::Sink sink;
        std::ostream stream;
        std::string before;
        UserStream() : stream(&sink) {
            if (chance(1, 2)) {
                stream.setf(chance(1, 2) ? std::ios_base::scientific : std::ios_base::fixed, std::ios_base::floatfield);
                stream.precision(range(0, 12));
            }
            if (chance(1, 3))
                stream.setf(std::ios_base::hex, std::ios_base::basefield);
            if (chance(1, 3))
                stream.setf(std::ios_base::showpos | std::ios_base::boolalpha);
            if (chance(1, 3))
                stream.fill('*');
            if (chance(1, 4))
                stream.exceptions(std::ios_base::badbit);
            before = ios(stream);
        }
        void check(const std::string& what) {
            std::string now = ios(stream);
            if (now != before)
                fail("C16:stream changed", "after %s, the stream of the user has %s instead of %s", what.c_str(), now.c_str(), before.c_str());
        }
    };

    struct World {
        gen::EngineSpec s;
        model::Model m;
        std::unique_ptr<fl::Engine> e;
        ops::Options o;
        size_t variables;

        std::string text(int kind, const fl::Engine& x) {
            switch (kind) {
                case 0: return fl::FllExporter().toString(&x);
                case 1: return fl::FclExporter().toString(&x);
                case 2: return fl::FisExporter().toString(&x);
                case 3: return fl::CppExporter().toString(&x);
                case 4: return fl::JavaExporter().toString(&x);
                default: return x.toString();
            }
        }
        std::string dataset() {
            std::string d;
            for (int r = range(0, 5); r > 0; --r) {
                for (size_t i = 0; i < e->numberOfInputVariables(); ++i)
                    d += gen::num(gen::grid(-1, 2)) + " ";
                d += "\n";
            }
            return d;
        }
        static const char* outcome(const Ended& x) {
            return x.ok() ? "ok" : x.oom ? "out of memory" : x.injected ? "exception" : "error";
        }

        // ------------------------------------------------------------------------------------------------ the user changes settings
        void change() {
            switch (draw(7)) {
                case 0:
                    S.decimals = range(0, 9);
                    break;
                case 1:
                    S.macheps = pick(std::vector<double>{1e-6, 1e-9, 1e-3, 1e-2, 1e-7});
                    break;
                case 2:
                    S.atol = pick(std::vector<double>{1e-3, 1e-2, 1e-9});
                    break;
                case 3:
                    S.format = pick(std::vector<Format>{FIXED, SCIENTIFIC, GENERAL, UPPER, POINT, Format(0)});
                    break;
                case 4:
                    S.logging = not S.logging;
                    break;
                case 5:
                    S.debugging = not S.debugging;
                    break;
                default:
                    S.resolution = range(1, 2000);
            }
            apply(S);
            trace("settings: decimals %d macheps %g atol %g format %x logging %d debugging %d resolution %d", S.decimals, S.macheps, S.atol, (unsigned)S.format, S.logging,
                  S.debugging, S.resolution);
            check("changing settings");
        }
        void registration() {
            fl::FactoryManager* f = fl::FactoryManager::instance();
            std::string key = pick(std::vector<std::string>{"mine", "Other", "A"});
            if (chance(1, 2))
                f->tnorm()->registerConstructor(key, f->tnorm()->getConstructor("Minimum"));
            else if (chance(1, 2))
                f->term()->deregisterConstructor(key);
            else
                f->term()->registerConstructor(key, f->term()->getConstructor("Triangle"));
            registered = factories();
        }

        // ------------------------------------------------------------------------------------------------ results reflect them
        void numbers() {
            for (int i = 0; i < 6; ++i) {
                double x = chance(1, 8) ? pick(std::vector<double>{NAN, INFINITY, -INFINITY, 0.0, -0.0})
                                        : ((int)draw(2000001) - 1000000) / 1e6 * pow(10.0, range(-8, 6));
                std::string is = fl::Op::str(x), expected = shown(x);
                evaluated();
                if (is != expected)
                    fail("C16:earlier settings", "the number %.17g is shown as %s instead of %s", x, is.c_str(), expected.c_str());
                if (chance(1, 3)) {  // other formats for one number
                    int decimals = range(0, 9);
                    Format format = pick(std::vector<Format>{FIXED, SCIENTIFIC, GENERAL, UPPER, POINT, Format(0)});
                    is = fl::Op::str(x, decimals), expected = shown(x, decimals, S.format);
                    if (is == expected)
                        is = fl::Op::str(x, decimals, format), expected = shown(x, decimals, format);
                    if (is != expected)
                        fail("C16:earlier settings", "the number %.17g is shown as %s instead of %s", x, is.c_str(), expected.c_str());
                }
                double a = gen::grid(-2, 2), b = a + S.macheps * pick(std::vector<double>{0.5, -0.5, 2, -2, 0});
                bool equal = fabs(a - b) < S.macheps;
                if (fl::Op::isEq(a, b) != equal or fl::Op::isLt(a, b) != (a < b and not equal) or fl::Op::isGt(a, b) != (a > b and not equal)
                    or fl::Op::isLE(a, b) != (a < b or equal) or fl::Op::isGE(a, b) != (a > b or equal) or (fl::Op::eq(a, b) == 1.0) != equal)
                    fail("C16:earlier settings", "comparing %.17g and %.17g does not use the tolerance %g", a, b, S.macheps);
            }
            std::vector<double> v = {1.25, -0.5, 1e4};
            std::string expected = shown(1.25) + " " + shown(-0.5) + " " + shown(1e4), is = fl::Op::join(v, " ");
            if (is != expected)
                fail("C16:earlier settings", "numbers are joined as %s instead of %s", is.c_str(), expected.c_str());
            fl::Benchmark b("b", e.get());
            if (b.getTolerance() != S.macheps)
                fail("C16:earlier settings", "a new benchmark has the tolerance %g instead of %g", b.getTolerance(), S.macheps);
            fl::Triangle t("t", -0.25, 1.75, 3);
            expected = shown(-0.25) + " " + shown(1.75) + " " + shown(3);
            if (t.parameters() != expected)
                fail("C16:earlier settings", "the parameters of a term are %s instead of %s", t.parameters().c_str(), expected.c_str());
            trace("numbers");
        }
        void resolutions() {
            static const std::vector<std::string> classes = {"Centroid", "Bisector", "LargestOfMaximum", "SmallestOfMaximum", "MeanOfMaximum"};
            std::string c = pick(classes);
            std::unique_ptr<fl::Defuzzifier> d;
            std::unique_ptr<fl::Engine> x;
            const fl::Defuzzifier* is = nullptr;
            int how = draw(5);
            switch (how) {
                case 0:
                    d.reset(fl::FactoryManager::instance()->defuzzifier()->constructObject(c));
                    break;
                case 1:
                    x.reset(fl::FllImporter().fromString("OutputVariable: y\n  range: 0 1\n  defuzzifier: " + c + "\n"));
                    break;
                case 2: {
                    static const std::map<std::string, std::string> fis = {{"Centroid", "centroid"}, {"Bisector", "bisector"}, {"LargestOfMaximum", "lom"},
                                                                           {"SmallestOfMaximum", "som"}, {"MeanOfMaximum", "mom"}};
                    x.reset(fl::FisImporter().fromString("[System]\nName='e'\nType='mamdani'\nDefuzzMethod='" + fis.at(c) + "'\n[Output1]\nName='y'\nRange=[0 1]\nNumMFs=0\n"));
                    break;
                }
                case 3: {
                    static const std::map<std::string, std::string> fcl = {{"Centroid", "COG"}, {"Bisector", "COA"}, {"LargestOfMaximum", "RM"},
                                                                           {"SmallestOfMaximum", "LM"}, {"MeanOfMaximum", "MM"}};
                    x.reset(fl::FclImporter().fromString("FUNCTION_BLOCK e\nVAR_OUTPUT\n  y: REAL;\nEND_VAR\nDEFUZZIFY y\n  RANGE := (0.0 .. 1.0);\n  METHOD : " + fcl.at(c)
                                                         + ";\nEND_DEFUZZIFY\nEND_FUNCTION_BLOCK\n"));
                    break;
                }
                default:
                    d.reset(c == "Centroid"            ? (fl::Defuzzifier*)new fl::Centroid
                            : c == "Bisector"          ? (fl::Defuzzifier*)new fl::Bisector
                            : c == "LargestOfMaximum"  ? (fl::Defuzzifier*)new fl::LargestOfMaximum
                            : c == "SmallestOfMaximum" ? (fl::Defuzzifier*)new fl::SmallestOfMaximum
                                                       : (fl::Defuzzifier*)new fl::MeanOfMaximum);
            }
            is = x ? x->getOutputVariable(0)->getDefuzzifier() : d.get();
            auto* i = dynamic_cast<const fl::IntegralDefuzzifier*>(is);
            trace("new %s (%d)", c.c_str(), how);
            evaluated();
            if (not i or i->getResolution() != S.resolution)
                fail("C16:earlier settings", "a new %s (%d) has the resolution %d instead of the default %d", c.c_str(), how, i ? i->getResolution() : -1, S.resolution);
        }
        void texts() {
            int kind = draw(8);
            std::function<std::string()> f;
            std::string data = dataset();
            int values = range(1, 20);
            if (kind < 6)
                f = [&] { return text(kind, *e); };
            else if (kind == 6)
                f = [&] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    std::istringstream in(data);
                    fl::FldExporter x;
                    x.setExportHeader(false);
                    return chance(1, 2) ? x.toString(c.get(), in) : x.toString(c.get(), values);
                };
            else
                f = [&] {
                    std::unique_ptr<fl::Engine> c(e->clone());
                    return fl::RScriptExporter().toString(c.get(), c->getInputVariable(0), c->getInputVariable(c->numberOfInputVariables() - 1), values,
                                                          fl::FldExporter::AllVariables, c->outputVariables());
                };
            uint32_t from = mark();
            std::string is, exact;
            Ended first = guarded([&] { is = f(); });
            check("exporting");
            Settings user = S;
            S.decimals = 17;
            S.format = SCIENTIFIC;
            apply(S);
            reread(from);
            Ended second = guarded([&] { exact = f(); });
            rereadDone();
            S = user;
            apply(S);
            trace("text %d: %s", kind, outcome(first));
            if (first.ok() != second.ok())
                fail("C16:earlier settings", "exporting %s, but with other settings %s", first.ok() ? "succeeded" : first.what.c_str(),
                     second.ok() ? "succeeds" : second.what.c_str());
            if (not first.ok())
                return;
            int n;
            std::string expected = rendered(exact, n);
            if (kind == 2)  // a proposition negated is a sign and a number, so both -0 and 0 are right
                is = unsignedZeros(is), expected = unsignedZeros(expected);
            evaluated();
            if (is != expected)
                fail("C16:earlier settings", "exported text %d does not show its numbers as set (decimals %d, format %x) %s", kind, S.decimals, (unsigned)S.format,
                     util::difference(is, expected).c_str());
            if (kind < 6 and n < 2 * (int)variables)
                fail("C16:earlier settings", "exported text %d shows only %d numbers as set, of %d variables", kind, n, (int)variables);
            if (kind == 6) {
                std::istringstream in(exact);
                std::string cell;
                while (in >> cell)
                    if (cell != "nan" and cell != "inf" and cell != "-inf" and number(cell, 0) != cell.size())
                        fail("C16:earlier settings", "the data set has '%s', which is not shown as set", cell.c_str());
            }
        }
        void logs() {
            bool unknown = chance(1, 2);
            std::string fll = gen::fll(s) + (unknown ? "RuleBlock: odd\n  activation: General\n  rule: if nothing is known then nothing is told\n" : "");
            Capture c;
            std::unique_ptr<fl::Engine> x(fl::FllImporter().fromString(fll));
            std::string out = c.out();
            trace("log: %d bytes", (int)out.size());
            evaluated();
            if (not S.logging and not S.debugging and not out.empty())
                fail("C16:earlier settings", "neither logging nor debugging, but importing wrote: %s", out.substr(0, 300).c_str());
            if (S.logging and unknown and out.empty())
                fail("C16:earlier settings", "logging, but importing a rule that cannot be loaded wrote nothing");
            if (S.debugging and not s.blocks.empty() and not s.blocks[0].rules.empty() and out.empty())
                fail("C16:earlier settings", "debugging, but importing rules wrote nothing");
        }

        // ------------------------------------------------------------------------------------------------ operations, with faults
        void operation() {
            Fault f;
            Ended x;
            std::string what;
            Capture screen;
            bool silent = true;  // nothing may be written to the screen unless logging or debugging
            switch (weighted({4, 4, 3, 3, 3, 3, 3, 3, 3, 2, 2})) {
                case 0: {  // a cycle
                    what = "processing";
                    f.arm(weighted({2, 1, 2}));
                    std::unique_ptr<fl::Engine> c(e->clone());
                    for (size_t i = 0; i < s.inputs.size(); ++i)
                        c->getInputVariable(i)->setValue(gen::sensor(s.inputs[i], chance(1, 3)));
                    x = under(f, [&] { c->process(); });
                    break;
                }
                case 1: {  // import
                    int kind = draw(3);
                    std::string t;
                    Settings user = S;
                    guarded([&] { t = text(kind, *e); });
                    if (chance(1, 2)) {
                        for (int k = range(1, 3); k > 0 and not t.empty(); --k) {
                            size_t at = draw((uint32_t)t.size());
                            if (chance(1, 2))
                                t.erase(at, range(1, 8));
                            else
                                t.insert(at, pick(std::vector<std::string>{":", "\n", " x ", "1e9", ";", "if", "(", "'", "nan", "]", "#"}));
                        }
                    }
                    what = "importing";
                    f.arm(weighted({3, 2}));
                    x = under(f, [&] {
                        std::unique_ptr<fl::Importer> i;
                        kind == 0 ? i.reset(new fl::FllImporter) : kind == 1 ? i.reset(new fl::FclImporter) : i.reset(new fl::FisImporter);
                        delete i->fromString(t);
                    });
                    break;
                }
                case 2: {  // export
                    int kind = draw(6);
                    what = "exporting";
                    f.arm(weighted({1, 2}));
                    x = under(f, [&] { text(kind, *e); });
                    break;
                }
                case 3: {  // a data set to a stream of the user
                    UserStream u;
                    std::unique_ptr<fl::Engine> c(e->clone());
                    int k = weighted({2, 1, 2, 0, 2});
                    f.arm(k);
                    if (k == 4)
                        u.sink.room = f.at, u.sink.throws = chance(1, 2);
                    streams::Source source;
                    source.data = dataset();
                    source.pieces = chance(1, 2);
                    if (chance(1, 4))
                        source.failAt = draw((uint32_t)source.data.size() + 1);
                    std::istream in(&source);
                    std::string before = ios(in);
                    int values = range(1, 40), how = draw(5);
                    what = "writing a data set";
                    fl::FldExporter fld;
                    fl::RScriptExporter r;
                    x = under(f, [&] {
                        switch (how) {
                            case 0: fld.write(c.get(), u.stream, values); break;
                            case 1: fld.write(c.get(), u.stream, in); break;
                            case 2:
                                r.writeScriptExportingDataFrame(c.get(), u.stream, c->getInputVariable(0), c->getInputVariable(0), values, fl::FldExporter::AllVariables,
                                                                c->outputVariables());
                                break;
                            case 3: r.writeScriptImportingDataFrame(c.get(), u.stream, c->getInputVariable(0), c->getInputVariable(0), "data.fld", c->outputVariables()); break;
                            default:
                                r.writeScriptExportingDataFrame(c.get(), u.stream, c->getInputVariable(0), c->getInputVariable(0), in, c->outputVariables());
                        }
                    });
                    u.check(what);
                    if (ios(in) != before)
                        fail("C16:stream changed", "after %s, the stream with the data of the user differs", what.c_str());
                    if (u.sink.fired)
                        f.happened = true;
                    break;
                }
                case 4: {  // copies
                    what = "copying";
                    f.arm(weighted({1, 2}));
                    x = under(f, [&] {
                        fl::Engine c(*e);
                        fl::Engine d;
                        d = c;
                        c.process();
                    });
                    break;
                }
                case 5: {  // benchmark
                    std::unique_ptr<fl::Engine> c(e->clone());
                    int k = weighted({2, 1, 2});
                    f.arm(k);
                    std::string data;
                    for (int r = range(0, 4); r > 0; --r) {
                        for (size_t i = 0; i < variables; ++i)
                            data += gen::num(gen::grid(-1, 2)) + " ";
                        data += "\n";
                    }
                    clk::set(chance(1, 2) ? clk::STEADY : clk::JUMPS);
                    what = "a benchmark";
                    x = under(f, [&] {
                        fl::Benchmark b("b", c.get());
                        std::istringstream in(data);
                        b.prepare(in);
                        b.run(2);
                        b.results();
                        b.format(b.results(), fl::Benchmark::Vertical, fl::Benchmark::Header);
                    });
                    clk::set(clk::OFF);
                    break;
                }
                case 6: {  // files
                    f.arm(weighted({1, 1, 0, 3}));
                    disk::reset();
                    what = "saving and loading";
                    x = under(f, [&] {
                        fl::FllExporter().toFile("/sim/e.fll", e.get());
                        std::unique_ptr<fl::Engine> c(fl::FllImporter().fromFile("/sim/e.fll"));
                        fl::FldExporter().toFile("/sim/e.fld", c.get(), 10, fl::FldExporter::AllVariables);
                    });
                    break;
                }
                case 7: {  // rules and formulas that are wrong
                    std::unique_ptr<fl::Engine> c(e->clone());
                    std::string rule = s.blocks.empty() or s.blocks[0].rules.empty() ? "if a is b then c is d" : s.ruleText(pick(s.blocks[0].rules));
                    if (chance(2, 3) and not rule.empty())
                        rule.erase(draw((uint32_t)rule.size()), range(1, 6));
                    f.arm(weighted({2, 1}));
                    what = "loading rules and formulas";
                    x = under(f, [&] {
                        fl::Function g("f", chance(1, 2) ? "(1 + x" : "x ^ 2");
                        try {
                            g.load();
                        } catch (fl::Exception&) {
                        }
                        std::unique_ptr<fl::Rule> r(fl::Rule::parse(rule, c.get()));
                    });
                    break;
                }
                case 8: {  // the console
                    std::unique_ptr<fl::Engine> c(e->clone());
                    std::vector<int> keys = session::keystrokes(s, range(0, 12));
                    f.arm(weighted({2, 1, 2, 0, 0, 1}));
                    tty::reset(chance(3, 4));
                    tty::feed(keys);
                    if (f.kind == 5)
                        tty::failCalls(0, 2 * (int)draw((uint32_t)keys.size() + 1) + 1);
                    UserStream u;
                    silent = false;
                    what = "an interactive session";
                    x = under(f, [&] { Console().interactive(u.stream, c.get()); });
                    u.check(what);
                    break;
                }
                case 9: {  // a conversion or a benchmark of the console
                    disk::reset();
                    std::string fll;
                    guarded([&] { fll = text(0, *e); });
                    disk::put("/sim/in.fll", fll);
                    disk::put("/sim/in.fld", dataset());
                    f.arm(weighted({2, 1, 1, 3}));
                    silent = false;
                    what = "a conversion";
                    bool benchmark = chance(1, 3);
                    std::map<std::string, std::string> options;
                    options["-i"] = "/sim/in.fll";
                    options["-o"] = pick(std::vector<std::string>{"/sim/out.fis", "/sim/out.fcl", "/sim/out.fld", "/sim/out.cpp", "/sim/out.java", "/sim/out.fll", "/sim/out.odd"});
                    if (chance(1, 3))
                        options["-values"] = std::to_string(range(1, 20));
                    if (chance(1, 3) and not benchmark) {
                        int d = range(0, 9);
                        options["-decimals"] = std::to_string(d);
                        S.decimals = d;  // by the user
                        fl::fuzzylite::setDecimals(d);
                    }
                    x = under(f, [&] {
                        if (benchmark) {
                            std::ofstream w("/sim/out.tsv");
                            Console().benchmark("/sim/in.fll", "/sim/in.fld", 2, &w);
                        } else
                            Console().process(options);
                    });
                    break;
                }
                default: {  // the rest
                    std::unique_ptr<fl::Engine> c(e->clone());
                    f.arm(weighted({2, 1}));
                    what = "using an engine";
                    x = under(f, [&] {
                        c->isReady();
                        c->type();
                        for (auto* v : c->variables())
                            v->fuzzify(0.3), v->highestMembership(0.3), v->toString();
                        c->configure("Minimum", "Maximum", "Minimum", "Maximum", "Centroid", "General");
                        c->restart();
                        c->ruleBlocks().empty() ? (void)0 : c->getRuleBlock(0)->reloadRules(c.get());
                    });
                }
            }
            trace("%s: fault %d%s, %s", what.c_str(), f.kind, f.happened ? " happened" : "", outcome(x));
            state(hashOf(what) + f.kind * 8 + f.happened * 2 + x.ok());
            if (silent and not S.logging and not S.debugging and not screen.out().empty())
                fail("C16:earlier settings", "neither logging nor debugging, but %s wrote: %s", what.c_str(), screen.out().substr(0, 300).c_str());
            check(what);
        }
    };
}

static void run() {
    probes::install();
    disk::reset();
    tty::reset(true);
    S = Settings();
    World w;
    gen::Options g;
    g.oddRanges = false;
    g.maxResolution = 12;
    g.inactiveRules = true;
    w.s = ops::spec(g);
    w.e = gen::build(w.s);
    w.m = model::Model(w.s);
    w.o.gen = g;
    w.variables = w.s.inputs.size() + w.s.outputs.size();
    apply(S);
    registered = factories();
    rest = process();
    int steps = range(4, thorough() ? 60 : 24);
    for (int n = 0; n < steps; ++n) {
        if (chance(1, 3))
            w.change();
        switch (weighted({8, 2, 2, 3, 1, 3, 1})) {
            case 0:
                w.operation();
                break;
            case 1:
                w.numbers();
                break;
            case 2:
                w.resolutions();
                break;
            case 3:
                w.texts();
                break;
            case 4:
                w.logs();
                break;
            case 5: {
                Capture quiet;
                if (chance(1, 3))
                    ops::mutate(w.m, *w.e, w.o);
                model::setInputs(w.m, *w.e, chance(1, 4));
                trace("process");
                model::cycle(w.m, *w.e, "C16:cycle");
                if (not S.logging and not S.debugging and not quiet.out().empty())
                    fail("C16:earlier settings", "neither logging nor debugging, but a cycle wrote: %s", quiet.out().substr(0, 300).c_str());
                break;
            }
            default:
                w.registration();
        }
        check("a step");
    }
    nontrivial();
}
static Property p("C16", run);
