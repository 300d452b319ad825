// C10: data sets, however the data arrives.
#include <errno.h>
#include <stdarg.h>
#include <string.h>

#include <fstream>
#include <sstream>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "streams.h"
#include "util.h"

using namespace sim;
using namespace streams;

namespace {
    // One line of a data set
    struct Line {
        enum Kind { ROW, COMMENT, BLANK, HEADING, MALFORMED, SHORT } kind = ROW;
        std::vector<double> x;
        std::string text;
    };
    std::string cell(double v) {
        if (v != v)
            return "nan";
        switch (weighted({6, 2, 1})) {
            case 1:
                return gen::num(v, range(0, 1) ? 6 : 3);
            case 2: {
                if (std::isinf(v))
                    break;
                char b[64];
                snprintf(b, sizeof b, "%.9e", v);
                return b;
            }
            default:
                break;
        }
        return gen::num(v);
    }
    std::vector<Line> lines(const gen::EngineSpec& s, int n, bool bad) {
        std::vector<Line> r;
        int badLine = bad ? (int)draw(n + 1) : -1;
        for (int i = 0; i < n; ++i) {
            Line l;
            int k = i == 0 ? weighted({6, 2, 1, 5}) : weighted({10, 2, 2});
            if (i == badLine)
                k = i == 0 ? 5 : 4 + weighted({1, 1});
            l.kind = (Line::Kind)k;
            std::string lead(weighted({4, 1, 1}), ' ');
            switch (l.kind) {
                case Line::COMMENT:
                    l.text = lead + pick(std::vector<std::string>{"# a comment", "#", "# 1 2 3 4 5 6", "#1"});
                    break;
                case Line::BLANK:
                    l.text = lead;
                    break;
                case Line::HEADING:
                    for (auto& v : s.inputs)
                        l.text += (l.text.empty() ? "" : " ") + v.name;
                    if (chance(1, 2))
                        for (auto& v : s.outputs)
                            l.text += " " + v.name;
                    if (chance(1, 4))
                        l.text = "x1 2 3 4";
                    break;
                case Line::MALFORMED:
                case Line::SHORT:
                case Line::ROW: {
                    int columns = (int)s.inputs.size();
                    if (l.kind == Line::SHORT)
                        columns = (int)draw(columns);
                    if (l.kind == Line::SHORT and columns == 0) {  // a malformed first line is a heading
                        columns = i ? 1 : (int)s.inputs.size();
                        l.kind = i ? Line::MALFORMED : Line::ROW;
                    }
                    l.text = lead;
                    bool after = l.kind == Line::MALFORMED and chance(1, 4);  // all inputs are fine
                    int damaged = l.kind == Line::MALFORMED and not after ? (int)draw(columns) : -1;
                    for (int c = 0; c < columns; ++c) {
                        const gen::VarSpec& v = s.inputs[std::min(c, (int)s.inputs.size() - 1)];
                        double d = gen::sensor(v, chance(1, 8));
                        if (std::fabs(d) > 1e6 and std::isfinite(d))
                            d = 1e6;
                        if (std::fabs(d) < 1e-3)
                            d = 0;
                        std::string t = cell(d);
                        if (c == damaged)
                            t = pick(std::vector<std::string>{"x", "1.2.3", "1x", "--1", "one", "1,2", c ? "#" : "x"});
                        l.x.push_back(atof(t.c_str()));
                        l.text += (c ? std::string(1 + weighted({4, 1, 1}), ' ') : "") + t;
                    }
                    if (l.kind == Line::ROW and chance(1, 4))  // columns beyond the inputs
                        for (int c = range(1, 3); c > 0; --c)
                            l.text += " " + gen::num(gen::grid(-3, 3));
                    if (after)
                        l.text += pick(std::vector<std::string>{" # note", " 1.000 x", " #", " 0.5 # 1"});
                    l.text += std::string(weighted({4, 1, 1}), ' ');
                }
            }
            if (chance(1, 40))
                l.text += std::string(range(1, 9) * 1000, ' ');
            r.push_back(l);
        }
        return r;
    }

    struct Exports {
        bool header = true, inputs = true, outputs = true;
        std::string separator = " ";
    };
    struct Reference {
        std::vector<std::vector<double>> rows;  // empty: a blank row
        bool error = false;                     // after these rows
        bool undefined = false;                 // the engine could not be processed
    };
    // evaluates a point with the engine itself
    bool evaluate(fl::Engine& e, const std::vector<double>& shown, const Exports& x, Reference& r) {
        std::vector<double> row;
        for (size_t i = 0; i < e.numberOfInputVariables(); ++i) {
            e.getInputVariable(i)->setValue(shown[i]);
            if (x.inputs)
                row.push_back(shown[i]);
        }
        Ended p = guarded([&] { e.process(); });
        if (p.threw) {
            r.error = r.undefined = true;
            return false;
        }
        if (x.outputs)
            for (auto* o : e.outputVariables())
                row.push_back(o->getValue());
        r.rows.push_back(row);
        return true;
    }
    Reference expect(fl::Engine& e, const std::vector<Line>& data, const Exports& x) {
        Reference r;
        for (const Line& l : data) {
            if (l.kind == Line::COMMENT or l.kind == Line::HEADING)
                continue;
            if (l.kind == Line::BLANK)
                r.rows.push_back({});
            else if (l.kind != Line::ROW) {
                r.error = true;
                break;
            } else if (not evaluate(e, l.x, x, r))
                break;
        }
        return r;
    }
    bool sameNumber(const std::string& t, double v) {
        if (v != v)
            return t == "nan";
        if (std::isinf(v))
            return t == (v > 0 ? "inf" : "-inf");
        char* end;
        double d = strtod(t.c_str(), &end);
        if (t.empty() or *end)
            return false;
        size_t point = t.find('.');
        if (point == std::string::npos or t.size() - point - 1 != 3)
            return false;
        // anything nearer to zero than the precision is shown as zero
        return std::fabs(d - v) <= 0.000500001 + std::fabs(v) * 1e-12 or (d == 0.0 and std::fabs(v) <= 0.0010000001);
    }
    // checks a complete or cut-off text against the reference; gives the number of rows
    struct Problem {
        std::string cls, what;
        explicit operator bool() const {
            return not cls.empty();
        }
    };
    Problem problem(const char* cls, const char* format, ...) {
        char b[2000];
        va_list a;
        va_start(a, format);
        vsnprintf(b, sizeof b, format, a);
        va_end(a);
        return {cls, b};
    }
    Problem compare(const fl::Engine& e, const std::string& text, const Reference& r, const Exports& x, const char* what) {
        size_t pos = 0;
        auto next = [&](std::string& line) {
            size_t end = text.find('\n', pos);
            if (end == std::string::npos)
                return false;
            line = text.substr(pos, end - pos);
            pos = end + 1;
            return true;
        };
        std::string line;
        if (x.header) {
            std::string h;
            if (x.inputs)
                for (auto* v : e.inputVariables())
                    h += (h.empty() ? "" : x.separator) + v->getName();
            if (x.outputs)
                for (auto* v : e.outputVariables())
                    h += (h.empty() ? "" : x.separator) + v->getName();
            if (not next(line) or line != h)
                return problem("C10:heading", "%s: the heading is `%s' instead of `%s'", what, line.c_str(), h.c_str());
        }
        for (size_t i = 0; i < r.rows.size(); ++i) {
            if (not next(line))
                return problem("C10:rows missing", "%s: %zu rows instead of %zu", what, i, r.rows.size());
            std::vector<std::string> cells;
            if (not line.empty()) {
                size_t a = 0, b;
                while ((b = line.find(x.separator, a)) != std::string::npos) {
                    cells.push_back(line.substr(a, b - a));
                    a = b + x.separator.size();
                }
                cells.push_back(line.substr(a));
            }
            bool same = cells.size() == r.rows[i].size();
            for (size_t c = 0; same and c < cells.size(); ++c)
                same = sameNumber(cells[c], r.rows[i][c]);
            if (not same) {
                std::string w;
                for (double d : r.rows[i])
                    w += gen::num(d, 6) + " ";
                return problem("C10:wrong row", "%s: row %zu of %zu is `%s' instead of `%s'", what, i + 1, r.rows.size(), line.c_str(), w.c_str());
            }
        }
        if (pos != text.size())
            return problem("C10:extra rows", "%s: after %zu rows: `%s'", what, r.rows.size(), text.substr(pos, 200).c_str());
        return {};
    }
    void check(const fl::Engine& e, const std::string& text, const Reference& r, const Exports& x, const char* what) {
        if (Problem p = compare(e, text, r, x, what))
            fail(p.cls.c_str(), "%s", p.what.c_str());
        evaluated();
    }
    std::unique_ptr<fl::FldExporter> exporter(const Exports& x) {
        std::unique_ptr<fl::FldExporter> f(new fl::FldExporter(x.separator));
        f->setExportHeader(x.header);
        f->setExportInputValues(x.inputs);
        f->setExportOutputValues(x.outputs);
        return f;
    }
    Exports exports() {
        Exports x;
        x.header = chance(2, 3);
        if (chance(1, 4)) {
            x.inputs = chance(1, 2);
            x.outputs = not x.inputs or chance(1, 2);
        }
        if (chance(1, 4))
            x.separator = pick(std::vector<std::string>{", ", "\t", ";"});
        return x;
    }

    void fromReader(const fl::Engine& e, const gen::EngineSpec& s) {
        Exports x = exports();
        bool bad = chance(1, 4);
        std::vector<Line> data = lines(s, range(0, weighted({6, 1}) ? 60 : 8), bad);
        std::string text;
        const char* eol = chance(1, 8) ? "\r\n" : "\n";
        bool ended = chance(3, 4);
        for (size_t i = 0; i < data.size(); ++i)
            text += data[i].text + (i + 1 < data.size() or ended ? eol : "");
        // a blank last line without newline does not exist
        if (not data.empty() and data.back().kind == Line::BLANK and not ended and data.back().text.empty())
            data.pop_back();
        std::unique_ptr<fl::Engine> twin(e.clone());
        Reference r = expect(*twin, data, x);
        trace("data set of %zu lines%s:\n%s", data.size(), r.error ? " (invalid)" : "", text.c_str());
        auto f = exporter(x);
        // without faults
        std::string complete;
        int how = weighted({3, 2, 2, 2});
        std::unique_ptr<fl::Engine> c(e.clone());
        Ended t;
        std::string out;
        if (how == 0) {
            t = guarded([&] {
                std::istringstream in(text);
                out = f->toString(c.get(), in);
            });
        } else {
            std::ostringstream o;
            t = guarded([&] {
                std::istringstream in(text);
                f->write(c.get(), o, in);
            });
            out = o.str();
        }
        if (t.threw != r.error)
            fail(r.error ? "C10:malformed row accepted" : "C10:valid data rejected", "%s", r.error ? "a malformed row or a failing cycle was not reported" : t.what.c_str());
        if (how != 0 or not t.threw) {
            check(*c, out, r, x, "regular");
            complete = out;
            if (not r.undefined and util::values(*c) != util::values(*twin))
                fail("C10:engine differs", "after the data set the engine is not as after processing its rows: %s", util::difference(util::values(*c), util::values(*twin)).c_str());
        } else {
            std::unique_ptr<fl::Engine> d(e.clone());
            std::ostringstream o;
            guarded([&] {
                std::istringstream in(text);
                f->write(d.get(), o, in);
            });
            complete = o.str();
            check(*d, complete, r, x, "regular");
        }
        state(hashOf("reader") + how * 7 + r.error * 3 + x.header + (data.size() > 8) * 100 + (data.empty() ? 200 : (int)data[0].kind * 1000));
        // the same data through sources and sinks with faults
        int tries = range(1, 4);
        for (int k = 0; k < tries; ++k) {
            std::unique_ptr<fl::Engine> c(e.clone());
            bool file = chance(1, 3), toFile = chance(1, 3);
            bool sourceFails = chance(1, 3), sinkFails = not sourceFails and not toFile and chance(1, 3);
            Source src;
            src.data = text;
            src.pieces = chance(2, 3);
            Sink dst;
            disk::noFaults();
            disk::put("/sim/in", text);
            disk::erase("/sim/out");
            disk::clearLog();
            if (sourceFails) {
                if (file)
                    disk::only("/sim/in"), disk::inject(range(0, 3), chance(1, 2) ? disk::FAIL : disk::TORN_FAIL, EIO, (long)draw((uint32_t)text.size() + 1), true);
                else
                    src.failAt = draw((uint32_t)text.size() + 1);
            }
            if (file)
                disk::benign(chance(2, 3), chance(2, 3));
            if (sinkFails) {
                dst.room = draw((uint32_t)complete.size() + 1);
                dst.throws = chance(1, 2);
            }
            std::ostream o(&dst);
            bool sinkBad = false;
            if (sinkFails and chance(1, 3))
                o.exceptions(std::ios_base::badbit);
            Ended t = guarded([&] {
                std::ifstream in;
                std::istream direct(&src);
                if (file)
                    in.open("/sim/in");
                std::istream& reader = file ? (std::istream&)in : direct;
                if (file and not in.is_open())
                    throw SourceFailure();
                if (toFile)
                    f->toFile("/sim/out", c.get(), reader);
                else
                    f->write(c.get(), o, reader);
            });
            sinkBad = not o.good();
            bool fired = file ? sourceFails and (disk::firedOn(disk::READ) or disk::firedOn(disk::OPEN_READ)) : src.fired;
            bool other = file and sourceFails and disk::fired() and not fired;  // seeking and the like may fail without harm
            std::string got = toFile ? disk::content("/sim/out") : dst.got;
            trace("again: %s %s%s%s: %s, %zu bytes", file ? "file" : "stream", toFile ? "to file" : "to stream", fired ? ", source failed" : "",
                  dst.fired ? ", sink failed" : "", t.threw ? "error" : "done", got.size());
            state(hashOf("faults") + file * 2 + toFile * 4 + fired * 8 + dst.fired * 16 + t.threw * 32 + r.error * 64);
            if (fired and not t.threw)
                fail("C10:failure ignored", "a source that failed after %ld of %zu bytes was taken for the end of the data", file ? -1l : src.failAt, text.size());
            if (not fired and not other and not dst.fired and t.threw != r.error)
                fail("C10:depends on delivery", "the same data %s", t.threw ? t.what.c_str() : "is not rejected");
            if (dst.fired and not t.threw and not sinkBad)
                fail("C10:failure ignored", "a failing destination was not reported");
            if (got.size() > complete.size() or complete.compare(0, got.size(), got) != 0)
                fail("C10:not a prefix", "what was written is no prefix of the complete result %s", util::difference(got, complete).c_str());
            if (not t.threw and not dst.fired and got != complete)
                fail("C10:depends on delivery", "the same data in other pieces gives another result %s", util::difference(got, complete).c_str());
            if (disk::openHandles())
                fail("C10:file left open", "%d files are open", disk::openHandles());
            evaluated();
        }
        disk::noFaults();
    }

    void fromGrid(const fl::Engine& e, const gen::EngineSpec& s) {
        Exports x = exports();
        int n = (int)s.inputs.size();
        std::vector<char> active(n, 1);
        bool partial = chance(1, 3);
        if (partial)
            for (int i = 0; i < n; ++i)
                active[i] = chance(1, 2);
        bool each = chance(1, 2);
        int values = each ? range(1, n == 1 ? 40 : n == 2 ? 8 : 4) : range(1, 120);
        if (not each and chance(1, 3))
            values = (int)std::pow(range(1, n == 1 ? 50 : n == 2 ? 9 : 4), n);
        std::unique_ptr<fl::Engine> c(e.clone());
        auto f = exporter(x);
        std::string out;
        bool named = not partial and chance(1, 2);
        Ended t = guarded([&] {
            std::vector<fl::InputVariable*> variables;
            for (int i = 0; i < n; ++i)
                variables.push_back(active[i] ? c->getInputVariable(i) : nullptr);
            fl::FldExporter::ScopeOfValues scope = each ? fl::FldExporter::EachVariable : fl::FldExporter::AllVariables;
            if (named)
                out = f->toString(c.get(), values, scope);
            else
                out = f->toString(c.get(), values, scope, variables);
        });
        int rootish = (int)std::floor(std::pow((long double)values, 1.0L / n) + 1e-9L);
        std::vector<int> candidates;
        if (each)
            candidates = {values};
        else {
            candidates = {rootish};
            if (std::pow(rootish, n) == values and rootish > 1)  // an exact root may be rounded down
                candidates.push_back(rootish - 1);
        }
        size_t rows = 0;
        for (char ch : out)
            rows += ch == '\n';
        rows -= x.header and not t.threw;
        int k = candidates[0], na = 0;
        for (int i = 0; i < n; ++i)
            na += active[i];
        if (candidates.size() > 1 and not t.threw) {
            size_t first = 1;
            for (int i = 0; i < na; ++i)
                first *= candidates[0];
            if (rows != first)
                k = candidates[1];
        }
        trace("grid of %d values, %s scope, %d of %d variables: %s, %zu rows", values, each ? "each" : "all", na, n, t.threw ? "error" : "done", rows);
        // The points of the grid may be computed in any order of operations: the last bit of an input can decide about a
        // discontinuous membership, so the table has to agree with one of them.
        Problem first;
        for (int variant = 0; variant < 4; ++variant) {
            Reference r;
            std::unique_ptr<fl::Engine> twin(e.clone());
            std::vector<int> index(n, 0);
            for (;;) {
                std::vector<double> p(n);
                for (int i = 0; i < n; ++i) {
                    fl::InputVariable* v = twin->getInputVariable(i);
                    if (active[i]) {
                        double low = v->getMinimum(), width = v->getMaximum() - low, steps = std::max(1, k - 1);
                        p[i] = variant == 0   ? low + index[i] * width / steps
                               : variant == 1 ? low + index[i] * (width / steps)
                               : variant == 2 ? low + (index[i] / steps) * width
                                              : low * (1.0 - index[i] / steps) + v->getMaximum() * (index[i] / steps);
                    } else
                        p[i] = v->getValue();
                }
                if (not evaluate(*twin, p, x, r))
                    break;
                int i = n - 1;
                while (i >= 0 and (not active[i] or ++index[i] == k))
                    index[i--] = 0;
                if (i < 0)
                    break;
            }
            Problem p;
            if (t.threw != r.error)
                p = problem("C10:grid rejected", "%s", t.threw ? t.what.c_str() : "an engine that cannot be processed was exported");
            else if (not t.threw) {
                p = compare(*c, out, r, x, "grid");
                if (not p and util::values(*c) != util::values(*twin))
                    p = problem("C10:engine differs", "after the data set the engine is not as after processing its rows: %s",
                                util::difference(util::values(*c), util::values(*twin)).c_str());
            }
            if (variant == 0)
                first = p;
            if (not p)
                break;
            if (variant == 3)
                fail(first.cls.c_str(), "%s", first.what.c_str());
        }
        evaluated();
        state(hashOf("grid") + each * 2 + partial * 4 + t.threw * 8 + n * 16 + k * 1000);
    }
}

static void run() {
    disk::reset();
    gen::Options g;
    g.missing = chance(1, 12);
    g.maxResolution = 12;
    gen::EngineSpec s = ops::spec(g);
    std::unique_ptr<fl::Engine> e = gen::build(s);
    int n = range(1, thorough() ? 6 : 3);
    for (int i = 0; i < n; ++i) {
        for (int k = range(0, 2); k > 0; --k) {
            for (size_t v = 0; v < s.inputs.size(); ++v)
                e->getInputVariable(v)->setValue(gen::sensor(s.inputs[v], chance(1, 4)));
            guarded([&] { e->process(); });
        }
        if (chance(3, 5))
            fromReader(*e, s);
        else
            fromGrid(*e, s);
    }
    nontrivial();
}
static Property p("C10", run);
