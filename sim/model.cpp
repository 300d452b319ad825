#include "model.h"

#include <algorithm>
#include <cmath>
#include <map>

using namespace sim;
using namespace gen;

namespace model {
    double eps = 1e-6;  // documented tolerance of comparisons
    static bool eq(double a, double b) {
        return a == b or std::fabs(a - b) < eps or (a != a and b != b);
    }
    static bool lt(double a, double b) {
        return a < b and not eq(a, b);
    }
    static bool gt(double a, double b) {
        return a > b and not eq(a, b);
    }
    static bool le(double a, double b) {
        return a < b or eq(a, b);
    }
    static bool ge(double a, double b) {
        return a > b or eq(a, b);
    }
    static double mn(double a, double b) {
        return a != a or b != b ? NAN : (b < a ? b : a);
    }
    static double mx(double a, double b) {
        return a != a or b != b ? NAN : (a < b ? b : a);
    }

    bool near(double a, double b, double tol) {
        if (a == b or (a != a and b != b))
            return true;
        if (not std::isfinite(a) or not std::isfinite(b))
            return false;
        return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    }
    bool within(const Result& r, double real) {
        if (r.loose or near(r.value, real))
            return true;
        return r.interval and real >= r.lo - 1e-7 * std::max(1.0, std::fabs(r.lo))
               and real <= r.hi + 1e-7 * std::max(1.0, std::fabs(r.hi));
    }

    double tnorm(const std::string& n, double a, double b) {
        if (n == "Minimum")
            return mn(a, b);
        if (n == "AlgebraicProduct")
            return a * b;
        if (n == "BoundedDifference")
            return mx(0.0, a + b - 1.0);
        if (n == "DrasticProduct")
            return eq(mx(a, b), 1.0) ? mn(a, b) : 0.0;
        if (n == "EinsteinProduct")
            return (a * b) / (2.0 - (a + b - a * b));
        if (n == "HamacherProduct")
            return eq(a + b, 0.0) ? 0.0 : (a * b) / (a + b - a * b);
        if (n == "NilpotentMinimum")
            return gt(a + b, 1.0) ? mn(a, b) : 0.0;
        harnessError("unknown t-norm %s", n.c_str());
    }
    double snorm(const std::string& n, double a, double b) {
        if (n == "Maximum")
            return mx(a, b);
        if (n == "AlgebraicSum")
            return a + b - (a * b);
        if (n == "BoundedSum")
            return mn(1.0, a + b);
        if (n == "DrasticSum")
            return eq(mn(a, b), 0.0) ? mx(a, b) : 1.0;
        if (n == "EinsteinSum")
            return (a + b) / (1.0 + a * b);
        if (n == "HamacherSum")
            return eq(a * b, 1.0) ? 1.0 : (a + b - 2.0 * a * b) / (1.0 - a * b);
        if (n == "NilpotentMaximum")
            return lt(a + b, 1.0) ? mx(a, b) : 1.0;
        if (n == "NormalizedSum")
            return (a + b) / mx(1.0, a + b);
        if (n == "UnboundedSum")
            return a + b;
        harnessError("unknown s-norm %s", n.c_str());
    }
    double hedge(const std::string& n, double x) {
        if (n == "any")
            return 1.0;
        if (n == "not")
            return 1.0 - x;
        if (n == "very")
            return x * x;
        if (n == "somewhat")
            return std::sqrt(x);
        if (n == "extremely")
            return le(x, 0.5) ? 2.0 * x * x : 1.0 - 2.0 * (1.0 - x) * (1.0 - x);
        if (n == "seldom")
            return le(x, 0.5) ? std::sqrt(0.5 * x) : 1.0 - std::sqrt(0.5 * (1.0 - x));
        harnessError("unknown hedge %s", n.c_str());
    }

    double Model::eval(const Formula& f, double x) const {
        switch (f.kind) {
            case Formula::NUMBER:
                return f.number;
            case Formula::NAME: {
                if (f.name == "x")
                    return x;
                if (f.constant)
                    return f.number;
                for (size_t i = 0; i < s.inputs.size(); ++i)
                    if (s.inputs[i].name == f.name)
                        return in[i];
                for (size_t i = 0; i < s.outputs.size(); ++i)
                    if (s.outputs[i].name == f.name)
                        return out[i].value;
                throw Undefined{"unknown variable in formula"};
            }
            case Formula::UNARY: {
                double a = eval(f.args[0], x);
                return f.name == "!" ? (eq(a, 1.0) ? 0.0 : 1.0) : -a;
            }
            case Formula::BINARY: {
                double a = eval(f.args[0], x), b = eval(f.args[1], x);
                switch (f.name[0]) {
                    case '+': return a + b;
                    case '-': return a - b;
                    case '*': return a * b;
                    case '/': return a / b;
                    case '%': return std::fmod(a, b);
                    case '^': return std::pow(a, b);
                    case 'a': return eq(a, 1.0) and eq(b, 1.0) ? 1.0 : 0.0;
                    case 'o': return eq(a, 1.0) or eq(b, 1.0) ? 1.0 : 0.0;
                }
                break;
            }
            case Formula::CALL1: {
                double a = eval(f.args[0], x);
                if (f.name == "sin") return std::sin(a);
                if (f.name == "cos") return std::cos(a);
                if (f.name == "tanh") return std::tanh(a);
                if (f.name == "abs") return std::fabs(a);
                if (f.name == "sqrt") return std::sqrt(a);
                if (f.name == "exp") return std::exp(a);
                if (f.name == "floor") return std::floor(a);
                if (f.name == "atan") return std::atan(a);
                if (f.name == "round") return a > 0.0 ? std::floor(a + 0.5) : std::ceil(a - 0.5);
                break;
            }
            case Formula::CALL2: {
                double a = eval(f.args[0], x), b = eval(f.args[1], x);
                if (f.name == "min") return mn(a, b);
                if (f.name == "max") return mx(a, b);
                if (f.name == "pow") return std::pow(a, b);
                if (f.name == "gt") return gt(a, b);
                if (f.name == "le") return le(a, b);
                if (f.name == "eq") return eq(a, b);
                if (f.name == "atan2") return std::atan2(a, b);
                if (f.name == "fmod") return std::fmod(a, b);
                break;
            }
        }
        harnessError("unknown element %s in formula", f.name.c_str());
    }

    static double discrete(const std::vector<double>& p, double x) {
        size_t n = p.size() / 2;
        if (le(x, p[0]))
            return p[1];
        if (ge(x, p[2 * n - 2]))
            return p[2 * n - 1];
        for (size_t i = 0; i < n; ++i)
            if (eq(x, p[2 * i]) and x <= p[2 * i])
                return p[2 * i + 1];
        size_t k = 0;
        while (k + 1 < n and p[2 * (k + 1)] <= x)
            ++k;
        double x0 = p[2 * k], y0 = p[2 * k + 1], x1 = p[2 * k + 2], y1 = p[2 * k + 3];
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0);
    }

    static double sshape(double x, double a, double b) {
        if (le(x, a))
            return 0.0;
        if (le(x, 0.5 * (a + b))) {
            double d = (x - a) / (b - a);
            return 2.0 * d * d;
        }
        if (lt(x, b)) {
            double d = (x - b) / (b - a);
            return 1.0 - 2.0 * d * d;
        }
        return 1.0;
    }

    double Model::membership(const TermSpec& t, double x, bool) const {
        const std::string& c = t.cls;
        const std::vector<double>& p = t.p;
        const double h = t.height;
        if (c == "Constant")
            return p[0];
        if (c == "Linear") {
            double r = 0.0;
            for (size_t i = 0; i < s.inputs.size() and i < p.size(); ++i)
                r += p[i] * in[i];
            if (p.size() > s.inputs.size())
                r += p.back();
            return r;
        }
        if (c == "Function")
            return eval(t.formula, x);
        if (x != x)
            return NAN;
        if (c == "Triangle") {
            if (lt(x, p[0]) or gt(x, p[2]))
                return h * 0.0;
            if (eq(x, p[1]))
                return h;
            return x < p[1] ? h * (x - p[0]) / (p[1] - p[0]) : h * (p[2] - x) / (p[2] - p[1]);
        }
        if (c == "Trapezoid") {
            if (lt(x, p[0]) or gt(x, p[3]))
                return h * 0.0;
            if (lt(x, p[1]))
                return h * std::min(1.0, (x - p[0]) / (p[1] - p[0]));
            if (le(x, p[2]))
                return h;
            if (lt(x, p[3]))
                return h * (p[3] - x) / (p[3] - p[2]);
            return h * 0.0;
        }
        if (c == "Rectangle")
            return ge(x, p[0]) and le(x, p[1]) ? h : 0.0;
        if (c == "Ramp") {
            if (p[0] < p[1])
                return le(x, p[0]) ? 0.0 : ge(x, p[1]) ? h : h * (x - p[0]) / (p[1] - p[0]);
            return ge(x, p[0]) ? 0.0 : le(x, p[1]) ? h : h * (p[0] - x) / (p[0] - p[1]);
        }
        if (c == "Concave") {
            if (le(p[0], p[1])) {
                if (lt(x, p[1]))
                    return h * (p[1] - p[0]) / (2.0 * p[1] - p[0] - x);
            } else if (gt(x, p[1]))
                return h * (p[0] - p[1]) / (p[0] - 2.0 * p[1] + x);
            return h;
        }
        if (c == "SShape")
            return h * sshape(x, p[0], p[1]);
        if (c == "ZShape") {
            if (le(x, p[0]))
                return h;
            if (le(x, 0.5 * (p[0] + p[1]))) {
                double d = (x - p[0]) / (p[1] - p[0]);
                return h * (1.0 - 2.0 * d * d);
            }
            if (lt(x, p[1])) {
                double d = (x - p[1]) / (p[1] - p[0]);
                return h * (2.0 * d * d);
            }
            return 0.0;
        }
        if (c == "PiShape") {
            double a = sshape(x, p[0], p[1]), z;
            if (le(x, p[2]))
                z = 1.0;
            else if (le(x, 0.5 * (p[2] + p[3]))) {
                double d = (x - p[2]) / (p[3] - p[2]);
                z = 1.0 - 2.0 * d * d;
            } else if (lt(x, p[3])) {
                double d = (x - p[3]) / (p[3] - p[2]);
                z = 2.0 * d * d;
            } else
                z = 0.0;
            return h * a * z;
        }
        if (c == "Sigmoid")
            return h / (1.0 + std::exp(-p[1] * (x - p[0])));
        if (c == "SigmoidDifference") {
            double a = 1.0 / (1.0 + std::exp(-p[1] * (x - p[0]))), b = 1.0 / (1.0 + std::exp(-p[2] * (x - p[3])));
            return h * std::fabs(a - b);
        }
        if (c == "SigmoidProduct") {
            double a = 1.0 + std::exp(-p[1] * (x - p[0])), b = 1.0 + std::exp(-p[2] * (x - p[3]));
            return h / (a * b);
        }
        if (c == "Bell")
            return h * (1.0 / (1.0 + std::pow(std::fabs((x - p[0]) / p[1]), 2.0 * p[2])));
        if (c == "Binary") {
            if (p[1] > p[0] and ge(x, p[0]))
                return h;
            if (p[1] < p[0] and le(x, p[0]))
                return h;
            return h * 0.0;
        }
        if (c == "Cosine") {
            if (lt(x, p[0] - 0.5 * p[1]) or gt(x, p[0] + 0.5 * p[1]))
                return 0.0;
            return h * (0.5 * (1.0 + std::cos(2.0 / p[1] * M_PI * (x - p[0]))));
        }
        if (c == "Gaussian")
            return h * std::exp((-(x - p[0]) * (x - p[0])) / (2.0 * p[1] * p[1]));
        if (c == "GaussianProduct") {
            double a = 1.0, b = 1.0;
            if (lt(x, p[0]))
                a = std::exp((-(x - p[0]) * (x - p[0])) / (2.0 * p[1] * p[1]));
            if (gt(x, p[2]))
                b = std::exp((-(x - p[2]) * (x - p[2])) / (2.0 * p[3] * p[3]));
            return h * a * b;
        }
        if (c == "Spike")
            return h * std::exp(-std::fabs(10.0 / p[1] * (x - p[0])));
        if (c == "Discrete")
            return h * discrete(p, x);
        harnessError("unknown term class %s", c.c_str());
    }

    double tsukamoto(const TermSpec& t, double y) {
        const double h = t.height, a = t.p[0], b = t.p[1];
        if (t.cls == "Ramp")
            return a + (b - a) * y / h;
        if (t.cls == "Concave")
            return h * (a - b) / y + 2 * b - a;
        if (t.cls == "Sigmoid")
            return a + std::log(h / y - 1.0) / -b;
        if (t.cls == "SShape")
            return y <= h / 2 ? a + (b - a) * std::sqrt(y / (2 * h)) : b - (b - a) * std::sqrt((h - y) / (2 * h));
        if (t.cls == "ZShape")
            return y <= h / 2 ? b - (b - a) * std::sqrt(y / (2 * h)) : a + (b - a) * std::sqrt((h - y) / (2 * h));
        throw Undefined{"term does not support Tsukamoto"};
    }

    // ------------------------------------------------------------------------------------------------ engine
    Model::Model(const EngineSpec& spec) : s(spec) {
        in.assign(s.inputs.size(), NAN);
        out.resize(s.outputs.size());
        for (auto& b : s.blocks)
            rules.push_back(std::vector<RuleState>(b.rules.size()));
        settle();
    }
    void Model::settle() {
        results.assign(out.size(), Result());
        for (size_t i = 0; i < out.size(); ++i)
            results[i].value = out[i].value;
    }
    static double bounded(const VarSpec& v, double x) {
        if (not v.lock)
            return x;
        if (x > v.max)
            return v.max;
        if (x < v.min)
            return v.min;
        return x;
    }
    void Model::restart() {
        for (size_t i = 0; i < in.size(); ++i)
            in[i] = NAN;
        for (auto& o : out)
            o = OutState();
        settle();
    }
    void Model::setInput(int i, double v) {
        in[i] = bounded(s.inputs[i], v);
    }

    double Model::fuzzyDegree(int o, int term) const {
        double r = 0.0;
        const std::string& agg = s.outputs[o].aggregation;
        for (auto& a : out[o].fuzzy)
            if (a.term == term)
                r = agg.empty() ? r + a.degree : snorm(agg, r, a.degree);
        return r;
    }

    double Model::degreeOf(const BlockSpec& b, const Expr& e) const {
        if (e.op.empty()) {
            const VarSpec& v = s.var(e.prop.var);
            if (not v.enabled)
                return 0.0;
            double d;
            auto h = e.prop.hedges.rbegin();
            if (e.prop.term < 0) {
                d = 1.0;
                ++h;
            } else if (v.output)
                d = fuzzyDegree(e.prop.var - (int)s.inputs.size(), e.prop.term);
            else
                d = membership(v.terms[e.prop.term], in[e.prop.var]);
            for (; h != e.prop.hedges.rend(); ++h)
                d = hedge(*h, d);
            return d;
        }
        if (e.op == "and" and b.conjunction.empty())
            throw Undefined{"conjunction needed"};
        if (e.op == "or" and b.disjunction.empty())
            throw Undefined{"disjunction needed"};
        double l = degreeOf(b, e.args[0]), r = degreeOf(b, e.args[1]);
        return e.op == "and" ? tnorm(b.conjunction, l, r) : snorm(b.disjunction, l, r);
    }

    void Model::trigger(int block, int r) {
        const BlockSpec& b = s.blocks[block];
        RuleState& st = rules[block][r];
        if (not b.rules[r].enabled or not gt(st.degree, 0.0))
            return;
        double d = st.degree;
        for (auto& p : b.rules[r].consequent) {
            const VarSpec& v = s.var(p.var);
            if (not v.enabled)
                continue;
            for (auto h = p.hedges.rbegin(); h != p.hedges.rend(); ++h)
                d = hedge(*h, d);
            out[p.var - (int)s.inputs.size()].fuzzy.push_back({p.term, d, b.implication, st.degree});
        }
        st.triggered = true;
    }

    static void adoptDegree(double& mine, const Observed* o, int b, int r) {
        if (o and b < (int)o->degrees.size() and r < (int)o->degrees[b].size() and near(mine, o->degrees[b][r]))
            mine = o->degrees[b][r];
    }
    void Model::adopt(std::vector<Act>& mine, const std::vector<Act>& real) {
        std::vector<char> used(real.size());
        for (auto& a : mine)
            for (size_t k = 0; k < real.size(); ++k)
                if (not used[k] and real[k].term == a.term and real[k].implication == a.implication and near(real[k].degree, a.degree)) {
                    used[k] = 1;
                    a.degree = real[k].degree;
                    break;
                }
    }

    void Model::activate(int bi, Observed* o) {
        BlockSpec& b = s.blocks[bi];
        const std::string cls = b.activation.cls.empty() ? "General" : b.activation.cls;
        if (b.activation.cls.empty())
            b.activation.cls = "General";  // documented default, visible from then on
        const int n = (int)b.rules.size();
        auto degree = [&](int r) {
            double& d = rules[bi][r].degree;
            d = b.rules[r].weight * degreeOf(b, b.rules[r].antecedent);
            if (cls != "Proportional")
                adoptDegree(d, o, bi, r);
            return d;
        };
        auto reset = [&](int r) {
            rules[bi][r].degree = 0.0;
            rules[bi][r].triggered = false;
        };
        if (cls == "General" or cls == "Threshold") {
            for (int r = 0; r < n; ++r) {
                reset(r);
                if (not rules[bi][r].loaded)
                    continue;
                double d = degree(r);
                bool yes = true;
                if (cls == "Threshold") {
                    const std::string& c = b.activation.comparison;
                    double t = b.activation.threshold;
                    yes = c == "<" ? lt(d, t) : c == "<=" ? le(d, t) : c == "==" ? eq(d, t) : c == "!=" ? not eq(d, t)
                        : c == ">=" ? ge(d, t) : gt(d, t);
                }
                if (yes)
                    trigger(bi, r);
            }
        } else if (cls == "First" or cls == "Last") {
            int done = 0;
            for (int k = 0; k < n; ++k) {
                int r = cls == "First" ? k : n - 1 - k;
                reset(r);
                if (not rules[bi][r].loaded)
                    continue;
                double d = degree(r);
                if (done < b.activation.n and gt(d, 0.0) and ge(d, b.activation.threshold)) {
                    trigger(bi, r);
                    ++done;
                }
            }
        } else if (cls == "Proportional") {
            double sum = 0.0;
            for (int r = 0; r < n; ++r) {
                reset(r);
                if (rules[bi][r].loaded)
                    sum += degree(r);
            }
            for (int r = 0; r < n; ++r)
                if (rules[bi][r].loaded) {
                    double d = rules[bi][r].degree / sum;
                    rules[bi][r].degree = d != d ? 0.0 : d;
                    adoptDegree(rules[bi][r].degree, o, bi, r);
                    trigger(bi, r);
                }
        } else {
            const bool highest = cls == "Highest";
            std::vector<int> c;
            for (int r = 0; r < n; ++r) {
                reset(r);
                if (rules[bi][r].loaded and gt(degree(r), 0.0))
                    c.push_back(r);
            }
            std::stable_sort(c.begin(), c.end(), [&](int x, int y) {
                double a = rules[bi][x].degree, d = rules[bi][y].degree;
                return highest ? a > d : a < d;
            });
            std::vector<int> chosen;
            if ((int)c.size() <= b.activation.n)
                chosen = c;
            else if (b.activation.n > 0) {
                // rules tied (within rounding) with the last place are interchangeable: follow the real engine
                double last = rules[bi][c[b.activation.n - 1]].degree;
                std::vector<int> tied;
                for (int r : c)
                    if (near(rules[bi][r].degree, last, 1e-9))
                        tied.push_back(r);
                    else if (highest ? rules[bi][r].degree > last : rules[bi][r].degree < last)
                        chosen.push_back(r);
                int places = b.activation.n - (int)chosen.size(), seen = 0, disabled = 0;
                if (places >= (int)tied.size())
                    chosen.insert(chosen.end(), tied.begin(), tied.end());
                else {
                    count("ties of Highest/Lowest resolved");
                    if (not o)
                        ambiguous = true;
                    for (int r : tied) {
                        if (not b.rules[r].enabled)
                            ++disabled;
                        else if (o and bi < (int)o->triggered.size() and r < (int)o->triggered[bi].size()
                                 and o->triggered[bi][r]) {
                            chosen.push_back(r);
                            ++seen;
                        }
                    }
                    if (o and (seen > places or seen + disabled < places)) {
                        o->tieError = true;
                        o->error = "block " + std::to_string(bi) + " triggered " + std::to_string(seen)
                                   + " of the rules tied for " + std::to_string(places) + " places";
                    }
                }
            }
            std::vector<size_t> begin;
            for (auto& x : out)
                begin.push_back(x.fuzzy.size());
            bool open = false;
            for (size_t k = 0; k < chosen.size(); ++k) {
                trigger(bi, chosen[k]);
                double d = rules[bi][chosen[k]].degree;
                if (k and near(d, rules[bi][chosen[k - 1]].degree, 1e-9) and not(d >= 0.0 and d <= 1.0))
                    open = true;
            }
            // rules of the same degree may be triggered in any order, which matters for degrees beyond the unit interval
            if (open and not o)
                ambiguous = true;
            if (o)
                for (size_t k = 0; k < out.size() and k < o->fuzzy.size(); ++k)
                    follow(out[k].fuzzy, begin[k], o->fuzzy[k]);
        }
    }
    // Puts the activations from `begin` on in the order of the real engine, if only those of (nearly) the same rule degree move.
    void Model::follow(std::vector<Act>& mine, size_t begin, const std::vector<Act>& real) {
        if (mine.size() - begin < 2 or real.size() < mine.size())
            return;
        std::vector<Act> r = mine;
        for (size_t i = begin; i < r.size(); ++i) {
            bool found = false;
            for (size_t k = i; k < r.size() and near(r[k].rule, r[i].rule, 1e-9); ++k)
                if (r[k].term == real[i].term and r[k].implication == real[i].implication and near(r[k].degree, real[i].degree)) {
                    std::rotate(r.begin() + i, r.begin() + k, r.begin() + k + 1);
                    found = true;
                    break;
                }
            if (not found)
                return;
        }
        mine = r;
    }

    double Model::aggregated(int oi, double x) const {
        const VarSpec& v = s.outputs[oi];
        if (x != x)
            return NAN;
        if (not out[oi].fuzzy.empty() and v.aggregation.empty())
            throw Undefined{"aggregation needed"};
        double mu = 0.0;
        for (auto& a : out[oi].fuzzy) {
            if (a.implication.empty())
                throw Undefined{"implication needed"};
            mu = snorm(v.aggregation, mu, tnorm(a.implication, membership(v.terms[a.term], x), a.degree));
        }
        return mu;
    }

    Result Model::weighted(const VarSpec& v, const std::vector<Act>& fuzzy, bool perturb) const {
        Result r;
        if (fuzzy.empty()) {
            r.value = NAN;
            return r;
        }
        std::string type = v.type;
        auto monotonic = [](const std::string& c) {
            for (auto& m : MONOTONIC)
                if (m == c)
                    return true;
            return false;
        };
        if (type == "Automatic") {
            type = "";
            for (auto& a : fuzzy) {
                const std::string& c = v.terms[a.term].cls;
                std::string t = c == "Constant" or c == "Linear" or c == "Function" ? "TakagiSugeno"
                                : monotonic(c) ? "Tsukamoto" : "Automatic";
                if (not type.empty() and t != type)
                    throw Undefined{"several types"};
                type = t;
            }
            if (type == "Automatic")
                throw Undefined{"unexpected type"};
        }
        // group by name
        std::vector<std::pair<int, double>> groups;
        for (auto& a : fuzzy) {
            bool found = false;
            for (auto& g : groups)
                if (v.terms[g.first].name == v.terms[a.term].name) {
                    g.second = v.aggregation.empty() ? g.second + a.degree : snorm(v.aggregation, g.second, a.degree);
                    found = true;
                    break;
                }
            if (not found)
                groups.push_back({a.term, a.degree});
        }
        double sum = 0.0, weights = 0.0, magnitude = 0.0, wmag = 0.0;
        bool loose = false;
        for (auto& g : groups) {
            double w = g.second, z;
            const TermSpec& t = v.terms[g.first];
            auto f = [&](double y) { return type == "TakagiSugeno" ? membership(t, y) : tsukamoto(t, y); };
            z = f(w);
            if (perturb) {
                double z1 = f(w * (1 + 1e-12)), z2 = f(w * (1 - 1e-12));
                if (not near(z, z1, 1e-8) or not near(z, z2, 1e-8))
                    loose = true;
            }
            sum += w * z;
            weights += w;
            magnitude += std::fabs(w * z);
            wmag += std::fabs(w);
        }
        r.value = v.defuzzifier == "WeightedSum" ? sum : sum / weights;
        // cancellation
        if (v.defuzzifier != "WeightedSum" and std::fabs(weights) < 1e-9 * wmag)
            loose = true;
        if (std::isfinite(magnitude) and std::fabs(sum) < 1e-9 * magnitude and magnitude > 1e6)
            loose = true;
        r.loose = loose;
        return r;
    }

    Result Model::value(int oi) const {
        const VarSpec& v = s.outputs[oi];
        const std::string& d = v.defuzzifier;
        if (d.empty())
            throw Undefined{"defuzzifier needed"};
        if (d.find("Weighted") == 0)
            return weighted(v, out[oi].fuzzy, true);
        Result r;
        if (not std::isfinite(v.min + v.max)) {
            r.value = NAN;
            return r;
        }
        const int n = v.resolution;
        const double dx = (v.max - v.min) / n;
        std::vector<double> x(n), y(n);
        for (int i = 0; i < n; ++i) {
            x[i] = v.min + (i + 0.5) * dx;
            y[i] = aggregated(oi, x[i]);
        }
        if (d == "Centroid") {
            double a = 0.0, c = 0.0, mag = 0.0;
            for (int i = 0; i < n; ++i) {
                c += y[i] * x[i];
                a += y[i];
                mag += std::fabs(y[i]);
            }
            r.value = c / a;
            if (std::fabs(a) < 1e-9 * mag)
                r.loose = true;
            return r;
        }
        if (d == "Bisector") {
            double total = 0.0;
            std::vector<double> cum(n);
            for (int i = 0; i < n; ++i) {
                if (std::isfinite(y[i]))
                    total += y[i];
                cum[i] = total;
            }
            double best = INFINITY;
            for (int i = 0; i < n; ++i) {
                cum[i] = std::fabs(cum[i] / total - 0.5);
                if (cum[i] < best)
                    best = cum[i];
            }
            double sum = 0.0;
            int k = 0;
            r.interval = true;
            r.lo = INFINITY;
            r.hi = -INFINITY;
            for (int i = 0; i < n; ++i) {
                if (cum[i] == best) {
                    sum += x[i];
                    ++k;
                }
                if (cum[i] <= best + 1e-9) {
                    r.lo = std::min(r.lo, x[i]);
                    r.hi = std::max(r.hi, x[i]);
                }
            }
            r.value = k ? sum / k : NAN;
            r.interval = k > 0;
            return r;
        }
        double top = -INFINITY;
        for (int i = 0; i < n; ++i)
            if (y[i] > top)
                top = y[i];
        if (top == -INFINITY) {
            // LargestOfMaximum accepts -inf, the others need something greater
            r.value = NAN;
            double last = NAN;
            double sum = 0;
            int k = 0;
            for (int i = 0; i < n; ++i)
                if (y[i] == -INFINITY) {
                    last = x[i];
                    sum += x[i];
                    ++k;
                }
            if (d == "LargestOfMaximum")
                r.value = last;
            if (d == "MeanOfMaximum" and k)
                r.value = sum / k;
            return r;
        }
        double lo = NAN, hi = NAN, sum = 0;
        int k = 0;
        r.interval = true;
        r.lo = INFINITY;
        r.hi = -INFINITY;
        for (int i = 0; i < n; ++i) {
            if (y[i] == top) {
                if (k == 0)
                    lo = x[i];
                hi = x[i];
                sum += x[i];
                ++k;
            }
            if (std::isfinite(top) ? y[i] >= top - 1e-9 * std::max(1.0, std::fabs(top)) : y[i] == top) {
                r.lo = std::min(r.lo, x[i]);
                r.hi = std::max(r.hi, x[i]);
            }
        }
        r.value = d == "SmallestOfMaximum" ? lo : d == "LargestOfMaximum" ? hi : sum / k;
        // only values that really are near ties (exact plateaus leave no freedom)
        int nearTies = 0;
        for (int i = 0; i < n; ++i)
            if (y[i] != top and std::isfinite(top) and y[i] >= top - 1e-9 * std::max(1.0, std::fabs(top)))
                ++nearTies;
        // Points of an exact plateau are tied in the engine as well if the same numbers went into them, or if the norms
        // only select among numbers.
        bool exact = nearTies == 0;
        bool selects = v.aggregation == "Maximum";
        for (auto& a : out[oi].fuzzy)
            selects = selects and a.implication == "Minimum";
        if (exact and not selects) {
            int first = -1;
            for (int i = 0; i < n and exact; ++i)
                if (y[i] == top) {
                    if (first < 0)
                        first = i;
                    for (auto& a : out[oi].fuzzy) {
                        double p = membership(v.terms[a.term], x[first]), q = membership(v.terms[a.term], x[i]);
                        if (not(p == q or (p != p and q != q)))
                            exact = false;
                    }
                }
        }
        if (exact)
            r.interval = false;
        return r;
    }

    void Model::defuzzify(int oi) {
        const VarSpec& v = s.outputs[oi];
        if (not v.enabled)
            return;
        Result r = value(oi);
        OutState& o = out[oi];
        if (r.value != r.value) {
            r.interval = false;
            if (v.lockPrevious)
                r.value = o.previous;
            if (r.value != r.value)
                r.value = v.def;
        }
        r.value = bounded(v, r.value);
        if (r.interval) {
            r.lo = bounded(v, r.lo);
            r.hi = bounded(v, r.hi);
        }
        o.previous = o.value;
        o.value = r.value;
        results[oi] = r;
    }

    void Model::process(Observed* o) {
        for (auto& x : out)
            x.fuzzy.clear();
        results.assign(out.size(), Result());
        for (size_t b = 0; b < s.blocks.size(); ++b)
            if (s.blocks[b].enabled) {
                activate((int)b, o);
                for (size_t i = 0; o and i < out.size() and i < o->fuzzy.size(); ++i)
                    adopt(out[i].fuzzy, o->fuzzy[i]);
            }
        for (size_t i = 0; i < out.size(); ++i)
            defuzzify((int)i);
    }

    // ------------------------------------------------------------------------------------------------ comparison
    Observed observe(fl::Engine& e) {
        Observed o;
        for (size_t b = 0; b < e.numberOfRuleBlocks(); ++b) {
            o.triggered.push_back({});
            o.degrees.push_back({});
            for (size_t r = 0; r < e.getRuleBlock(b)->numberOfRules(); ++r) {
                o.triggered.back().push_back(e.getRuleBlock(b)->getRule(r)->isTriggered());
                o.degrees.back().push_back(e.getRuleBlock(b)->getRule(r)->getActivationDegree());
            }
        }
        for (auto* v : e.outputVariables()) {
            o.fuzzy.push_back({});
            for (auto& a : v->fuzzyOutput()->terms()) {
                Act x;
                x.term = -1;
                for (size_t t = 0; t < v->numberOfTerms(); ++t)
                    if (v->getTerm(t) == a.getTerm())
                        x.term = (int)t;
                x.degree = a.getDegree();
                x.implication = gen::normName(a.getImplication());
                o.fuzzy.back().push_back(x);
            }
        }
        return o;
    }

    void compare(const Model& m, fl::Engine& e, const char* cls, bool afterError) {
        evaluated();
        for (size_t i = 0; i < m.in.size(); ++i)
            if (not near(e.getInputVariable(i)->getValue(), m.in[i]))
                fail(cls, "input %s: real %s, expected %s", m.s.inputs[i].name.c_str(),
                     num(e.getInputVariable(i)->getValue(), -1).c_str(), num(m.in[i], -1).c_str());
        if (not afterError)
            for (size_t b = 0; b < m.rules.size(); ++b)
                for (size_t r = 0; r < m.rules[b].size(); ++r) {
                    fl::Rule* rule = e.getRuleBlock(b)->getRule(r);
                    const RuleState& st = m.rules[b][r];
                    if (rule->isLoaded() != st.loaded)
                        fail(cls, "rule %zu of block %zu: loaded=%d, expected %d", r, b, rule->isLoaded(), st.loaded);
                    if (rule->isEnabled() != m.s.blocks[b].rules[r].enabled)
                        fail(cls, "rule %zu of block %zu: enabled=%d, expected %d", r, b, rule->isEnabled(),
                             m.s.blocks[b].rules[r].enabled);
                    if (not near(rule->getActivationDegree(), st.degree))
                        fail(cls, "rule %zu of block %zu: degree %s, expected %s", r, b,
                             num(rule->getActivationDegree(), -1).c_str(), num(st.degree, -1).c_str());
                    if (rule->isTriggered() != st.triggered)
                        fail(cls, "rule %zu of block %zu: triggered=%d, expected %d", r, b, rule->isTriggered(), st.triggered);
                }
        for (size_t i = 0; i < m.out.size(); ++i) {
            fl::OutputVariable* o = e.getOutputVariable(i);
            const char* name = m.s.outputs[i].name.c_str();
            if (not afterError) {
                const std::vector<fl::Activated>& real = o->fuzzyOutput()->terms();
                if (real.size() != m.out[i].fuzzy.size())
                    fail(cls, "output %s: %zu activated terms, expected %zu", name, real.size(), m.out[i].fuzzy.size());
                std::vector<char> used(real.size());
                for (auto& a : m.out[i].fuzzy) {
                    bool found = false;
                    for (size_t k = 0; k < real.size() and not found; ++k)
                        if (not used[k] and real[k].getTerm() == o->getTerm(a.term) and near(real[k].getDegree(), a.degree)
                            and gen::normName(real[k].getImplication()) == a.implication)
                            found = used[k] = true;
                    if (not found)
                        fail(cls, "output %s: no activation of term %s with degree %s and implication <%s>", name,
                             m.s.outputs[i].terms[a.term].name.c_str(), num(a.degree, -1).c_str(), a.implication.c_str());
                }
                fl::Aggregated* set = o->fuzzyOutput();
                if (not near(set->getMinimum(), m.s.outputs[i].min) or not near(set->getMaximum(), m.s.outputs[i].max))
                    fail(cls, "output %s: the range of its fuzzy output is %s to %s, expected %s to %s", name, num(set->getMinimum(), -1).c_str(),
                         num(set->getMaximum(), -1).c_str(), num(m.s.outputs[i].min, -1).c_str(), num(m.s.outputs[i].max, -1).c_str());
            }
            Result r = m.results[i];
            if (not m.s.outputs[i].enabled or afterError) {
                r = Result();
                r.value = m.out[i].value;
            }
            if (not near(e.getOutputValue(m.s.outputs[i].name), o->getValue()))
                fail(cls, "output %s: %s by its name, but its value is %s", name, num(e.getOutputValue(m.s.outputs[i].name), -1).c_str(),
                     num(o->getValue(), -1).c_str());
            if (not within(r, o->getValue()))
                fail(cls, "output %s: value %s, expected %s%s", name, num(o->getValue(), -1).c_str(), num(r.value, -1).c_str(),
                     r.interval ? (" or within [" + num(r.lo, -1) + ", " + num(r.hi, -1) + "]").c_str() : "");
            if (not near(o->getPreviousValue(), m.out[i].previous))
                fail(cls, "output %s: previous value %s, expected %s", name, num(o->getPreviousValue(), -1).c_str(),
                     num(m.out[i].previous, -1).c_str());
        }
    }

    void adopt(Model& m, fl::Engine& e) {
        for (size_t i = 0; i < m.out.size(); ++i) {
            m.out[i].value = e.getOutputVariable(i)->getValue();
            m.out[i].previous = e.getOutputVariable(i)->getPreviousValue();
            m.results[i] = Result();
            m.results[i].value = m.out[i].value;
        }
    }

    bool cycle(Model& m, fl::Engine& e, const char* cls) {
        bool threw = false;
        std::string what;
        try {
            e.process();
        } catch (std::exception& x) {
            threw = true;
            what = x.what();
        }
        return judge(m, e, cls, threw, what);
    }

    static void oldOrNew(Model& m, const Model& before, fl::Engine& e, const char* cls) {
        evaluated();
        for (size_t i = 0; i < m.out.size(); ++i) {
            double v = e.getOutputVariable(i)->getValue(), p = e.getOutputVariable(i)->getPreviousValue();
            bool old = near(v, before.out[i].value) and near(p, before.out[i].previous);
            Result r = m.results[i];
            if (not m.s.outputs[i].enabled) {
                r = Result();
                r.value = m.out[i].value;
            }
            bool now = within(r, v) and near(p, m.out[i].previous);
            if (not old and not now)
                fail(cls, "output %s after a failed cycle: value %s previous %s is neither the old state (%s, %s) nor a new one (%s, %s)",
                     m.s.outputs[i].name.c_str(), num(v, -1).c_str(), num(p, -1).c_str(), num(before.out[i].value, -1).c_str(),
                     num(before.out[i].previous, -1).c_str(), num(m.out[i].value, -1).c_str(), num(m.out[i].previous, -1).c_str());
        }
    }
    static void adoptRules(Model& m, fl::Engine& e) {
        for (size_t b = 0; b < m.rules.size(); ++b)
            for (size_t r = 0; r < m.rules[b].size(); ++r) {
                m.rules[b][r].degree = e.getRuleBlock(b)->getRule(r)->getActivationDegree();
                m.rules[b][r].triggered = e.getRuleBlock(b)->getRule(r)->isTriggered();
            }
        Observed o = observe(e);
        for (size_t i = 0; i < m.out.size(); ++i)
            m.out[i].fuzzy = o.fuzzy[i];
        for (auto& b : m.s.blocks) {
            size_t k = &b - &m.s.blocks[0];
            if (e.getRuleBlock(k)->getActivation() and b.activation.cls.empty())
                b.activation.cls = "General";
        }
    }

    void judgeAborted(Model& m, fl::Engine& e, const char* cls) {
        Model before = m;
        m.ambiguous = false;
        try {
            m.process(nullptr);
        } catch (Undefined&) {
        }
        if (not m.ambiguous)
            oldOrNew(m, before, e, cls);
        adoptRules(m, e);
        adopt(m, e);
        for (auto& x : m.out)
            hashNum(x.value);
    }

    bool judge(Model& m, fl::Engine& e, const char* cls, bool threw, const std::string& what) {
        Model before = m;
        bool undefined = false;
        std::string why;
        Observed o = observe(e);
        try {
            m.process(&o);
        } catch (Undefined& u) {
            undefined = true;
            why = u.why;
        }
        if (o.tieError)
            fail(cls, "%s", o.error.c_str());
        if (threw and not undefined)
            fail(cls, "the cycle failed: %s", what.substr(0, 300).c_str());
        if (undefined and not threw)
            fail(cls, "the cycle ended normally although it must fail: %s", why.c_str());
        if (threw) {
            count("cycles that had to fail");
            oldOrNew(m, before, e, cls);
            adoptRules(m, e);
        } else {
            count("cycles");
            compare(m, e, cls);
        }
        adopt(m, e);
        hashMix(threw);
        for (auto& x : m.out)
            hashNum(x.value);
        state(stateHash(m));
        return not threw;
    }

    void setInputs(Model& m, fl::Engine& e, bool faults) {
        std::string t;
        for (size_t i = 0; i < m.in.size(); ++i) {
            double v = sensor(m.s.inputs[i], faults);
            t += " " + num(v, -1);
            if (i % 2)
                e.setInputValue(m.s.inputs[i].name, v);
            else
                e.getInputVariable(i)->setValue(v);
            m.setInput((int)i, v);
        }
        trace("inputs%s", t.c_str());
    }

    uint64_t stateHash(const Model& m) {
        uint64_t h = hashOf(m.s.name) ^ m.s.inputs.size() * 31 ^ m.s.outputs.size() * 131;
        auto mix = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL + (h >> 7); };
        for (size_t b = 0; b < m.rules.size(); ++b) {
            mix(hashOf(m.s.blocks[b].activation.cls));
            for (auto& r : m.rules[b])
                mix(r.triggered * 2 + r.loaded);
        }
        for (size_t i = 0; i < m.out.size(); ++i) {
            mix(hashOf(m.s.outputs[i].defuzzifier));
            mix(m.out[i].fuzzy.size());
            mix((m.out[i].value != m.out[i].value) * 4 + (m.out[i].previous != m.out[i].previous) * 2 + m.s.outputs[i].enabled);
        }
        return h;
    }

    std::string describe(const Model& m) {
        return fll(m.s);
    }
}
