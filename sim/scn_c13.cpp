// C13: benchmarks under any clock, on data arriving in any way, with any history of the engine.
#include <errno.h>
#include <math.h>

#include <fstream>
#include <sstream>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "probes.h"
#include "streams.h"
#include "util.h"

using namespace sim;
using namespace streams;

namespace {
    typedef std::vector<std::vector<double>> Table;
    bool same(double a, double b) {
        return a == b or (a != a and b != b);
    }
    // the benchmark as it should be
    struct Reference {
        Table expected, obtained;
        std::vector<double> times;
        double tolerance;

        bool comparable(size_t ni, size_t no) const {
            return not expected.empty() and expected.size() == obtained.size() and expected.front().size() == ni + no and obtained.front().size() == ni + no;
        }
        // -1: every output
        void errors(size_t ni, size_t no, int output, int& all, int& nonFinite, int& accuracy, double& mse) const {
            all = nonFinite = accuracy = 0;
            double sum = 0;
            for (size_t i = 0; i < expected.size(); ++i)
                for (size_t y = 0; y < no; ++y) {
                    if (output >= 0 and output != (int)y)
                        continue;
                    double e = expected[i][ni + y], o = obtained[i][ni + y], d = e - o;
                    if (same(e, o) or fabs(d) < tolerance)
                        continue;
                    ++all;
                    if (std::isfinite(d)) {
                        ++accuracy;
                        sum += d * d;
                    } else
                        ++nonFinite;
                }
            mse = accuracy ? sum / accuracy : 0.0;
        }
    };
    bool close(double a, double b) {
        return same(a, b) or fabs(a - b) <= 1e-9 * (fabs(a) + fabs(b));
    }
    // a number of the results, shown with some decimals
    bool shows(const std::string& t, double v, int decimals) {
        if (v != v)
            return t == "nan";
        if (std::isinf(v))
            return t == (v > 0 ? "inf" : "-inf");
        char* end;
        double d = strtod(t.c_str(), &end), unit = pow(10.0, -decimals);
        return not t.empty() and not *end and (fabs(d - v) <= 0.500001 * unit + fabs(v) * 1e-9 or (d == 0 and fabs(v) <= unit * 1.0001));
    }
    bool showsScientific(const std::string& t, double v) {
        if (v != v)
            return t == "nan";
        if (std::isinf(v))
            return t == "inf";
        char* end;
        double d = strtod(t.c_str(), &end);
        return not t.empty() and not *end and (fabs(d - v) <= 1.1e-6 * fabs(v) or (d == 0 and fabs(v) <= 1.0001e-6));
    }

    struct Data {
        std::string text;
        Table rows;
        bool malformed = false;
    };
    // a data set with expected outputs: those the engine gives, some of them changed
    Data data(const fl::Engine& engine, const gen::EngineSpec& s, double tolerance) {
        Data d;
        std::unique_ptr<fl::Engine> twin(engine.clone());
        twin->restart();
        int n = range(1, weighted({6, 1}) ? 40 : 8);
        bool outputs = chance(7, 8);
        int bad = chance(1, 10) ? (int)draw(n) + 1 : -1;
        if (chance(1, 2)) {
            for (auto* v : twin->variables())
                d.text += v->getName() + " ";
            d.text += "\n";
        }
        for (int i = 0; i < n; ++i) {
            if (chance(1, 6))
                d.text += pick(std::vector<std::string>{"# comment\n", "#\n", "\n", "  \n", "  # 1 2 3\n"});
            std::vector<double> row;
            for (auto& v : s.inputs) {
                double x = gen::sensor(v, chance(1, 8));
                row.push_back(std::isfinite(x) and (fabs(x) > 1e6 or fabs(x) < 1e-6) ? 0.0 : x);
            }
            for (size_t k = 0; k < row.size(); ++k)
                twin->getInputVariable(k)->setValue(row[k]);
            bool processed = not guarded([&] { twin->process(); }).threw;
            if (outputs)
                for (auto* o : twin->outputVariables()) {
                    double y = processed ? o->getValue() : 0.0;
                    switch (weighted({6, 1, 1, 1, 1})) {
                        case 1:
                            y += tolerance * (chance(1, 2) ? 0.5 : -0.5);
                            break;
                        case 2:
                            y += (chance(1, 2) ? 1 : -1) * tolerance * range(2, 1000);
                            break;
                        case 3:
                            y = NAN;
                            break;
                        case 4:
                            y = chance(1, 2) ? INFINITY : -INFINITY;
                            break;
                        default:
                            break;
                    }
                    if (std::isfinite(y) and fabs(y) < 1e-200)
                        y = 0.0;
                    row.push_back(y);
                }
            std::string line;
            for (double x : row)
                line += (line.empty() ? "" : " ") + gen::num(x, -1);
            if (i + 1 == bad and d.text.size()) {
                line += pick(std::vector<std::string>{" x", "1x", " # note", " #"});
                d.malformed = true;
            }
            d.text += line + (i + 1 < n or chance(3, 4) ? "\n" : "");
            if (not d.malformed)
                d.rows.push_back(row);
            for (double& x : d.rows.empty() ? row : d.rows.back())
                if (std::isfinite(x))
                    x = strtod(gen::num(x, -1).c_str(), nullptr);
        }
        return d;
    }
    bool sameTable(const Table& a, const Table& b) {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i) {
            if (a[i].size() != b[i].size())
                return false;
            for (size_t k = 0; k < a[i].size(); ++k)
                if (not same(a[i][k], b[i][k]))
                    return false;
        }
        return true;
    }
    std::string show(const Table& t) {
        std::string r;
        for (auto& row : t) {
            for (double x : row)
                r += gen::num(x, -1) + " ";
            r += "| ";
            if (r.size() > 1500)
                break;
        }
        return std::to_string(t.size()) + " rows: " + r;
    }
    // what runs over the table give; false when the engine cannot be processed
    bool play(const fl::Engine& engine, const Table& expected, Table& obtained, int times) {
        std::unique_ptr<fl::Engine> twin(engine.clone());
        size_t ni = twin->numberOfInputVariables();
        for (int t = 0; t < times; ++t) {
            obtained.clear();
            twin->restart();
            for (auto& row : expected) {
                if (row.size() < ni)
                    return false;
                for (size_t i = 0; i < ni; ++i)
                    twin->getInputVariable(i)->setValue(row[i]);
                if (guarded([&] { twin->process(); }).threw)
                    return false;
                std::vector<double> o(row.begin(), row.begin() + ni);
                for (auto* v : twin->outputVariables())
                    o.push_back(v->getValue());
                obtained.push_back(o);
            }
        }
        return true;
    }
    void checkErrors(const fl::Benchmark& b, const fl::Engine& e, const Reference& r) {
        size_t ni = e.numberOfInputVariables(), no = e.numberOfOutputVariables();
        bool ragged = false;
        for (auto& row : r.expected)
            ragged = ragged or row.size() < ni + no;
        if (ragged)
            return;
        bool comparable = r.comparable(ni, no);
        if (b.canComputeErrors() != comparable)
            fail("C13:errors", "errors %s be computed", comparable ? "cannot" : "can");
        if (not comparable)
            return;
        for (int y = -1; y < (int)no; ++y) {
            int all, nonFinite, accuracy;
            double mse;
            r.errors(ni, no, y, all, nonFinite, accuracy, mse);
            const fl::OutputVariable* v = y < 0 ? nullptr : e.getOutputVariable(y);
            int a = b.allErrors(v), nf = b.nonFiniteErrors(v), ac = b.accuracyErrors(v);
            double m = b.meanSquaredError(v);
            if (a != all or nf != nonFinite or ac != accuracy)
                fail("C13:errors", "%s: %d errors (%d not finite, %d of accuracy) instead of %d (%d, %d)", y < 0 ? "all outputs" : v->getName().c_str(), a, nf, ac, all,
                     nonFinite, accuracy);
            if (not close(m, mse))
                fail("C13:errors", "mean squared error %s instead of %s", gen::num(m, -1).c_str(), gen::num(mse, -1).c_str());
            if (y < 0 and (b.allErrors() != all or b.nonFiniteErrors() != nonFinite or b.accuracyErrors() != accuracy or not close(b.meanSquaredError(), mse)))
                fail("C13:errors", "without an output: %d errors (%d not finite, %d of accuracy) instead of %d (%d, %d)", b.allErrors(), b.nonFiniteErrors(), b.accuracyErrors(),
                     all, nonFinite, accuracy);
            evaluated();
        }
        if (b.allErrors() != b.numberOfErrors(fl::Benchmark::All) or b.accuracyErrors() != b.numberOfErrors(fl::Benchmark::Accuracy))
            fail("C13:errors", "different numbers for the same errors");
    }
    void checkResults(const fl::Benchmark& b, const fl::Engine& e, const Reference& r) {
        static const double factors[] = {1, 1e-3, 1e-6, 1e-9, 1e-9 / 60, 1e-9 / 3600};
        int unit = (int)draw(6);
        size_t ni = e.numberOfInputVariables(), no = e.numberOfOutputVariables();
        for (auto& row : r.expected)
            if (row.size() < ni + no)
                return;
        if (not r.comparable(ni, no) and chance(1, 2))
            return;
        int y = chance(1, 3) ? (int)draw((uint32_t)no) : -1;
        const fl::OutputVariable* v = y < 0 ? nullptr : e.getOutputVariable(y);
        std::vector<fl::Benchmark::Result> results;
        Ended x = guarded([&] { results = b.results(v, (fl::Benchmark::TimeUnit)unit, true); });
        if (x.threw)
            fail("C13:results", "%s", x.what.c_str());
        int all = 0, nonFinite = 0, accuracy = 0;
        double mse = 0;
        bool comparable = r.comparable(ni, no);
        if (comparable)
            r.errors(ni, no, y, all, nonFinite, accuracy, mse);
        double f = factors[unit], sum = 0, square = 0;
        for (double t : r.times)
            sum += t;
        double mean = sum / r.times.size();
        for (double t : r.times)
            square += (t - mean) * (t - mean);
        double sd = r.times.empty() ? NAN : r.times.size() == 1 ? 0.0 : sqrt(square / (r.times.size() - 1));
        size_t times = 0;
        bool sawErrors = false;
        int decimals = fl::fuzzylite::decimals(), tdecimals = unit == 0 ? 0 : decimals;
        for (auto& p : results) {
            const std::string &k = p.first, &t = p.second;
            bool ok = true;
            if (k == "runs")
                ok = t == std::to_string(r.times.size());
            else if (k == "evaluations")
                ok = t == std::to_string(r.expected.size());
            else if (k == "inputs")
                ok = t == std::to_string(ni);
            else if (k == "outputs")
                ok = t == std::to_string(no);
            else if (k == "name")
                ok = t == b.getName();
            else if (k == "errors") {
                ok = comparable and t == std::to_string(all);
                sawErrors = true;
            } else if (k == "nfErrors")
                ok = t == std::to_string(nonFinite);
            else if (k == "accErrors")
                ok = t == std::to_string(accuracy);
            else if (k == "rmse")
                ok = showsScientific(t, sqrt(mse));
            else if (k == "sum(t)")
                ok = shows(t, sum * f, tdecimals);
            else if (k == "mean(t)")
                ok = shows(t, mean * f, decimals);
            else if (k == "sd(t)")
                ok = shows(t, sd * f, decimals) or fabs(atof(t.c_str()) - sd * f) < 1e-6 * sum * f;
            else if (k.size() > 1 and k[0] == 't' and isdigit((unsigned char)k[1])) {
                size_t i = atoi(k.c_str() + 1);
                ok = i == ++times and i <= r.times.size() and shows(t, r.times[i - 1] * f, tdecimals);
            }
            if (not ok)
                fail("C13:results", "%s is %s (%zu runs, sum of times %s ns, %d errors, unit %d)", k.c_str(), t.c_str(), r.times.size(), gen::num(sum).c_str(), all, unit);
            evaluated();
        }
        if (times != r.times.size() or sawErrors != comparable)
            fail("C13:results", "%zu times for %zu runs, errors %s", times, r.times.size(), sawErrors ? "shown" : "not shown");
        // the table holds the results
        int shape = (int)draw(2);
        std::string t = b.format(results, shape ? fl::Benchmark::Vertical : fl::Benchmark::Horizontal, fl::Benchmark::HeaderAndBody, "\t"), w;
        if (shape)
            for (auto& p : results)
                w += (w.empty() ? "" : "\n") + p.first + "\t" + p.second;
        else {
            std::string h;
            for (size_t i = 0; i < results.size(); ++i) {
                h += (i ? "\t" : "") + results[i].first;
                w += (i ? "\t" : "") + results[i].second;
            }
            w = h + "\n" + w;
        }
        if (t != w)
            fail("C13:table", "%s", util::difference(t, w).c_str());
    }
}

static void run() {
    probes::install();
    disk::reset();
    gen::Options g;
    g.missing = chance(1, 16);
    g.maxResolution = 12;
    gen::EngineSpec s = ops::spec(g);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    size_t ni = s.inputs.size();
    Reference r;
    r.tolerance = pick(std::vector<double>{1e-6, 1e-3, 0.25});
    fl::Benchmark b("bench", e.get(), r.tolerance);
    int steps = range(3, thorough() ? 24 : 12);
    for (int i = 0; i < steps; ++i) {
        int kind = i == 0 ? 0 : weighted({3, 1, 8, 2, 2, 1, 1});
        switch (kind) {
            case 0: {  // prepare from data
                Data d = data(*e, s, r.tolerance);
                long limit = chance(1, 5) ? (long)draw(12) : -1;
                bool file = chance(1, 3), fails = chance(1, 4);
                Source src;
                src.data = d.text;
                src.pieces = chance(1, 2);
                disk::put("/sim/data", d.text);
                disk::noFaults();
                disk::clearLog();
                if (file)
                    disk::benign(chance(1, 2), chance(1, 2));
                if (fails) {
                    if (file)
                        disk::only("/sim/data"), disk::inject(range(1, 3), chance(1, 2) ? disk::FAIL : disk::TORN_FAIL, EIO, (long)draw((uint32_t)d.text.size() + 1), true);
                    else
                        src.failAt = draw((uint32_t)d.text.size() + 1);
                }
                Ended x = guarded([&] {
                    std::ifstream in;
                    std::istream direct(&src);
                    if (file)
                        in.open("/sim/data");
                    b.prepare(file ? (std::istream&)in : direct, limit);
                });
                bool fired = file ? fails and disk::firedOn(disk::READ) : src.fired;
                disk::noFaults();
                trace("prepare from %s%s, limit %ld: %s\n%s", file ? "file" : "stream", fired ? " that fails" : "", limit, x.threw ? "error" : "done", d.text.c_str());
                if (fired and not x.threw and limit < 0)
                    fail("C13:failure ignored", "the data could not be read completely, which was not reported");
                if (x.threw and not fired and not d.malformed)
                    fail("C13:data rejected", "%s", x.what.c_str());
                if (not x.threw and limit < 0 and d.malformed)
                    fail("C13:malformed row accepted", "a malformed row was not reported");
                state(hashOf("prepare") + file * 2 + fired * 4 + x.threw * 8 + d.malformed * 16 + (limit >= 0) * 32);
                if (x.threw) {
                    r.expected = Table();
                    b.setExpected(r.expected);
                    break;
                }
                Table want = d.rows;
                if (limit >= 0) {  // so many lines
                    std::istringstream in(d.text);
                    std::string line, head;
                    for (long k = 0; k < limit and std::getline(in, line); ++k)
                        head += line + "\n";
                    size_t rows = b.getExpected().size();
                    Table cut(want.begin(), want.begin() + std::min(rows, want.size()));
                    fl::Benchmark other("other", e.get(), r.tolerance);
                    Ended y = guarded([&] {
                        std::istringstream whole(head);
                        other.prepare(whole);
                    });
                    if (y.threw or not sameTable(other.getExpected(), b.getExpected()))
                        fail("C13:limit", "the first %ld lines give %s instead of %s", limit, show(b.getExpected()).c_str(), show(other.getExpected()).c_str());
                    want = cut;
                }
                if (not sameTable(b.getExpected(), want))
                    fail("C13:wrong data", "%s instead of %s", show(b.getExpected()).c_str(), show(want).c_str());
                r.expected = want;
                evaluated();
                break;
            }
            case 1: {  // prepare a grid
                bool each = chance(1, 2);
                int k = ni == 1 ? range(1, 20) : ni == 2 ? range(1, 6) : range(1, 3), values = k;
                if (not each)
                    values = (int)lround(pow(k, (double)ni)) + (int)(k > 1 and ni > 1 ? draw(2) : 0);
                Ended x = guarded([&] { b.prepare(values, each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables); });
                trace("prepare %d values of %s", values, each ? "each variable" : "all variables");
                if (x.threw)
                    fail("C13:data rejected", "%s", x.what.c_str());
                Table want;
                auto grid = [&](int n) {
                    want.clear();
                    std::vector<int> index(ni, 0);
                    for (;;) {
                        std::vector<double> row;
                        for (size_t v = 0; v < ni; ++v) {
                            double lo = s.inputs[v].min, hi = s.inputs[v].max;
                            row.push_back(lo + index[v] * (hi - lo) / std::max(1, n - 1));
                        }
                        want.push_back(row);
                        int v = (int)ni - 1;
                        while (v >= 0 and ++index[v] == n)
                            index[v--] = 0;
                        if (v < 0)
                            return;
                    }
                };
                grid(k);
                if (not each and b.getExpected().size() != want.size())
                    grid(std::max(1, k - 1));  // an exact root may be rounded down
                bool ok = want.size() == b.getExpected().size();
                for (size_t row = 0; ok and row < want.size(); ++row)
                    for (size_t v = 0; v < ni; ++v)
                        ok = ok and b.getExpected()[row].size() == ni and (same(want[row][v], b.getExpected()[row][v]) or fabs(want[row][v] - b.getExpected()[row][v]) < 1e-9);
                if (not ok)
                    fail("C13:wrong grid", "%s instead of %s", show(b.getExpected()).c_str(), show(want).c_str());
                r.expected = b.getExpected();
                break;
            }
            case 2: {  // run
                int times = weighted({4, 2, 1, 1}) + 1;
                bool once = times == 1 and chance(1, 2);
                int mode = 1 + (int)draw(4);
                if (not r.expected.empty() and chance(1, 16))  // a row too short
                    r.expected[draw((uint32_t)r.expected.size())].resize(ni - 1), b.setExpected(r.expected);
                Table obtained;
                bool possible = play(*e, r.expected, obtained, times);
                long failAt = chance(1, 8) ? 1 + draw(300) : 0;
                probes::seen = 0;
                probes::fired = false;
                probes::failAt = failAt;
                uint64_t before = shared->simTimeNs;
                clk::set((clk::Mode)mode);
                std::vector<double> t;
                Ended x = guarded([&] {
                    if (once)
                        t = {b.runOnce()};
                    else
                        t = b.run(times);
                });
                uint64_t passed = shared->simTimeNs - before;
                clk::set(clk::OFF);
                probes::failAt = 0;
                trace("run %d times, clock %d: %s", times, mode, x.threw ? "error" : "done");
                state(hashOf("run") + times + mode * 8 + x.threw * 64 + (probes::fired ? 128 : 0) + (r.expected.size() > 8) * 256);
                if (probes::fired) {
                    count("fault:exception in a cycle");
                    if (not x.threw)
                        fail("C13:failure ignored", "an exception out of the engine was not reported");
                } else if (x.threw == possible)
                    fail(possible ? "C13:run rejected" : "C13:failure ignored", "%s", possible ? x.what.c_str() : "a run that is impossible was not reported");
                if (x.threw) {
                    if (b.getTimes().size() < r.times.size() or b.getTimes().size() >= r.times.size() + times)
                        fail("C13:times", "an aborted run left %zu times after %zu", b.getTimes().size(), r.times.size());
                    r.times.assign(b.getTimes().begin(), b.getTimes().end());
                    r.obtained.clear();
                    b.setObtained(r.obtained);
                    break;
                }
                if ((int)t.size() != times)
                    fail("C13:times", "%zu times for %d runs", t.size(), times);
                double sum = 0;
                for (double d : t) {
                    if (not(d >= 0) or std::isinf(d))
                        fail("C13:times", "elapsed time %s", gen::num(d, -1).c_str());
                    if (mode == clk::STEADY and d < 999)
                        fail("C13:times", "%s ns between readings at least 1000 ns apart", gen::num(d, -1).c_str());
                    sum += d;
                    r.times.push_back(d);
                }
                if (sum > (double)passed * (1 + 1e-9) + 1)
                    fail("C13:times", "runs of %s ns within %s ns", gen::num(sum).c_str(), gen::num((double)passed).c_str());
                if (b.getTimes().size() != r.times.size() or not std::equal(r.times.begin(), r.times.end(), b.getTimes().begin()))
                    fail("C13:times", "%zu times were kept of %zu runs", b.getTimes().size(), r.times.size());
                if (not sameTable(b.getObtained(), obtained))
                    fail("C13:wrong results", "%s instead of %s", show(b.getObtained()).c_str(), show(obtained).c_str());
                if (not sameTable(b.getExpected(), r.expected))
                    fail("C13:wrong data", "running changed the expected values");
                r.obtained = obtained;
                evaluated();
                break;
            }
            case 3:  // the engine lives on
                for (int k = range(1, 4); k > 0; --k) {
                    for (size_t v = 0; v < ni; ++v)
                        e->getInputVariable(v)->setValue(gen::sensor(s.inputs[v], chance(1, 4)));
                    guarded([&] { e->process(); });
                }
                trace("engine used");
                break;
            case 4:
                trace("results");
                checkErrors(b, *e, r);
                checkResults(b, *e, r);
                break;
            case 5:
                r.tolerance = pick(std::vector<double>{1e-6, 1e-3, 0.25, 0.0});
                b.setTolerance(r.tolerance);
                trace("tolerance %g", r.tolerance);
                break;
            default:
                if (chance(1, 2)) {
                    b.reset();
                    r.times.clear();
                    r.obtained.clear();
                    trace("reset");
                } else {
                    fl::Benchmark copy(b);
                    b = copy;
                    trace("copied");
                }
        }
        checkErrors(b, *e, r);
    }
    nontrivial();
}
static Property p("C13", run);
