// Sessions with the interactive console: what keystrokes mean, and how what is shown is judged.
#pragma once
#include <ctype.h>
#include <math.h>

#include "env.h"
#include "guard.h"
#include "ops.h"
#include "util.h"

namespace session {
    using namespace sim;
    // a number as a user may type it, or not a number
    inline bool number(const std::string& t, double& v) {
        static const std::string d = "0123456789";
        if (t == "nan" or t == "inf" or t == "-inf") {
            v = t == "nan" ? NAN : t == "inf" ? INFINITY : -INFINITY;
            return true;
        }
        size_t i = 0, digits = 0;
        if (i < t.size() and (t[i] == '-' or t[i] == '+'))
            ++i;
        for (; i < t.size() and isdigit((unsigned char)t[i]); ++i)
            ++digits;
        if (i < t.size() and t[i] == '.')
            for (++i; i < t.size() and isdigit((unsigned char)t[i]); ++i)
                ++digits;
        if (not digits)
            return false;
        if (i < t.size() and (t[i] == 'e' or t[i] == 'E')) {
            ++i;
            if (i < t.size() and (t[i] == '-' or t[i] == '+'))
                ++i;
            size_t k = i;
            while (i < t.size() and isdigit((unsigned char)t[i]))
                ++i;
            if (i == k)
                return false;
        }
        if (i != t.size())
            return false;
        v = strtod(t.c_str(), nullptr);
        return std::isfinite(v) and (v == 0.0 or fabs(v) > 1e-300);
    }
    inline std::string shown(double v) {
        return fl::Op::str(v);
    }
    inline bool sameNumber(const std::string& t, double v) {
        if (v != v)
            return t == "nan";
        if (std::isinf(v))
            return t == (v > 0 ? "inf" : "-inf");
        char* end;
        double d = strtod(t.c_str(), &end);
        double unit = pow(10.0, -fl::fuzzylite::decimals());
        // anything nearer to zero than the precision is shown as zero
        return not t.empty() and not *end and (fabs(d - v) <= 0.500001 * unit + fabs(v) * 1e-12 or (d == 0.0 and fabs(v) <= 1.0000001 * unit));
    }

    // What a session does: a state machine over the keystrokes, evaluating a twin of the engine.
    struct Result {
        std::string before;  // echoed since the last prompt
        bool error = false;
        std::vector<double> outputs;
    };
    struct Session {
        std::vector<Result> results;
        size_t consumed = 0;
        bool quit = false;
        int restarts = 0, discards = 0, helps = 0;
    };
    inline Session play(fl::Engine& twin, const std::vector<int>& keys) {
        Session s;
        std::vector<double> given;
        std::string partial, echo;
        size_t n = twin.numberOfInputVariables();
        auto process = [&] {
            partial.clear();
            for (size_t i = 0; i < n; ++i) {
                if (i < given.size())
                    twin.getInputVariable(i)->setValue(given[i]);
                else
                    echo += shown(twin.getInputVariable(i)->getValue()) + "\t";
            }
            given.clear();
            Result r;
            r.before = echo;
            echo.clear();
            r.error = guarded([&] { twin.process(); }).threw;
            if (not r.error)
                for (auto* o : twin.outputVariables())
                    r.outputs.push_back(o->getValue());
            s.results.push_back(r);
        };
        for (int k : keys) {
            ++s.consumed;
            bool space = k == ' ' or (k >= 9 and k <= 13);
            if (space and given.size() < n) {
                double v = twin.getInputVariable(given.size())->getValue();
                if (not number(partial, v))
                    echo += "[" + shown(v) + "]";
                echo += "\t";
                partial.clear();
                given.push_back(v);
                if (given.size() == n)
                    process();
            } else if (k == 'p' or k == 'P')
                process();
            else if (k == 'r' or k == 'R') {
                twin.restart();
                given.clear();
                partial.clear();
                echo.clear();
                ++s.restarts;
            } else if (k == 'd' or k == 'D') {
                given.clear();
                partial.clear();
                echo.clear();
                ++s.discards;
            } else if (k == 'h' or k == 'H') {
                partial.clear();
                echo.clear();
                ++s.helps;
            } else if (k == 'q' or k == 'Q' or k == 4) {
                s.quit = true;
                break;
            } else if (k > 32 and k < 127) {
                partial += (char)k;
                echo += (char)k;
            }
        }
        return s;
    }

    inline void type(std::vector<int>& keys, const std::string& t) {
        for (char c : t)
            keys.push_back((unsigned char)c);
    }
    inline std::vector<int> keystrokes(const gen::EngineSpec& s, int n) {
        std::vector<int> keys;
        size_t next = 0;
        for (int i = 0; i < n; ++i) {
            switch (weighted({12, 3, 2, 1, 1, 2, 2, 1, 2, 1})) {
                case 0: {  // a number
                    const gen::VarSpec& v = s.inputs[next++ % s.inputs.size()];
                    double x = gen::sensor(v, chance(1, 8));
                    if (fabs(x) < 1e-300)
                        x = 0;
                    std::string t = gen::num(x, range(1, 4));
                    if (std::isfinite(x) and chance(1, 6)) {
                        char b[40];
                        snprintf(b, sizeof b, "%.3e", x);
                        t = b;
                    }
                    type(keys, t);
                    keys.push_back(pick(std::vector<int>{' ', '\n', '\t', '\r'}));
                    break;
                }
                case 1:
                    type(keys, pick(std::vector<std::string>{"p", "P"}));
                    break;
                case 2:
                    type(keys, pick(std::vector<std::string>{"r", "R"}));
                    break;
                case 3:
                    type(keys, pick(std::vector<std::string>{"d", "D"}));
                    break;
                case 4:
                    type(keys, pick(std::vector<std::string>{"h", "H"}));
                    break;
                case 5:  // not a number
                    type(keys, pick(std::vector<std::string>{"x ", "1.2.3 ", "--1 ", "1,5 ", "=", "# ", "abc\n", "1e ", "[", "0x"}));
                    break;
                case 6:  // skip a value
                    keys.push_back(pick(std::vector<int>{' ', '\n'}));
                    break;
                case 7:  // cut-off number
                    type(keys, gen::num(gen::grid(-2, 2), 2));
                    break;
                case 8: {  // arbitrary bytes, control characters, escape sequences
                    for (int k = range(1, 5); k > 0; --k)
                        keys.push_back(chance(1, 3) ? (int)pick(std::vector<int>{0, 27, 127, 8, 3, 26, 128, 160, 255, 133, 11, 12}) : range(0, 255));
                    break;
                }
                case 9:
                    if (chance(1, 3))
                        keys.push_back(pick(std::vector<int>{'q', 'Q', 4}));
            }
        }
        return keys;
    }

    inline std::vector<std::string> split(const std::string& t, const std::string& d) {
        std::vector<std::string> r;
        size_t a = 0, b;
        while ((b = t.find(d, a)) != std::string::npos) {
            r.push_back(t.substr(a, b - a));
            a = b + d.size();
        }
        r.push_back(t.substr(a));
        return r;
    }
    // the results on a screen are those of the session
    inline void check(const std::string& screen, const Session& s, const char* where, const std::string& pre) {
        std::vector<std::string> parts = split(screen, "=\t");
        if (parts.size() != s.results.size() + 1)
            fail((std::string(pre)+":results").c_str(), "%s shows %zu results instead of %zu:\n%s", where, parts.size() - 1, s.results.size(), screen.c_str());
        for (size_t i = 0; i < s.results.size(); ++i) {
            const Result& r = s.results[i];
            const std::string& b = r.before;
            if (parts[i].size() < b.size() or parts[i].compare(parts[i].size() - b.size(), b.size(), b) != 0)
                fail((pre + ":values shown").c_str(), "%s: before result %zu: `%s' instead of `%s'", where, i + 1,
                     parts[i].substr(parts[i].size() > 80 ? parts[i].size() - 80 : 0).c_str(), b.c_str());
            std::string after = parts[i + 1].substr(0, parts[i + 1].find('\n'));
            if (r.error) {
                if (after.find("rror") == std::string::npos)
                    fail((pre + ":error not shown").c_str(), "%s: result %zu is `%s' although the cycle failed", where, i + 1, after.c_str());
                continue;
            }
            std::vector<std::string> cells;
            if (not r.outputs.empty())
                cells = split(after, "\t");
            bool same = cells.size() == r.outputs.size();
            std::string expected;
            for (size_t k = 0; k < r.outputs.size(); ++k) {
                expected += gen::num(r.outputs[k], 6) + " ";
                same = same and sameNumber(cells[k], r.outputs[k]);
            }
            if (not same)
                fail((pre + ":wrong outputs").c_str(), "%s: result %zu is `%s' instead of `%s'", where, i + 1, after.c_str(), expected.c_str());
            evaluated();
        }
    }
}
