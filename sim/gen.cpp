#include "gen.h"

#include <functional>

#include <cmath>
#include <cstdio>

using namespace sim;

namespace gen {

    const std::vector<std::string> TNORMS = {"Minimum", "AlgebraicProduct", "BoundedDifference", "DrasticProduct",
                                             "EinsteinProduct", "HamacherProduct", "NilpotentMinimum"};
    const std::vector<std::string> SNORMS = {"Maximum", "AlgebraicSum", "BoundedSum", "DrasticSum", "EinsteinSum",
                                             "HamacherSum", "NilpotentMaximum", "NormalizedSum", "UnboundedSum"};
    const std::vector<std::string> HEDGES = {"very", "not", "somewhat", "extremely", "seldom"};
    const std::vector<std::string> INTEGRAL = {"Centroid", "Bisector", "LargestOfMaximum", "SmallestOfMaximum", "MeanOfMaximum"};
    const std::vector<std::string> TERMS
        = {"Triangle", "Trapezoid", "Rectangle", "Ramp", "Gaussian", "Bell", "Sigmoid", "Binary", "Concave", "Cosine", "Discrete",
           "GaussianProduct", "PiShape", "SShape", "SigmoidDifference", "SigmoidProduct", "Spike", "ZShape"};
    const std::vector<std::string> MONOTONIC = {"Ramp", "Concave", "SShape", "Sigmoid", "ZShape"};

    std::string num(double d, int decimals) {
        if (d != d)
            return "nan";
        if (std::isinf(d))
            return d > 0 ? "inf" : "-inf";
        char buf[512];
        if (decimals < 0)
            snprintf(buf, sizeof buf, "%.17g", d);
        else
            snprintf(buf, sizeof buf, "%.*f", decimals, d);
        return buf;
    }

    double grid(double lo, double hi) {
        int a = (int)std::ceil(lo * 8.0 - 1e-9), b = (int)std::floor(hi * 8.0 + 1e-9);
        if (b < a)
            b = a;
        return range(a, b) / 8.0;
    }

    // ------------------------------------------------------------------------------------------------ formulas
    std::string Formula::text() const {
        switch (kind) {
            case NUMBER:
                return num(number);
            case NAME:
                return name;
            case UNARY:
                return "(" + name + " " + args[0].text() + ")";
            case BINARY:
                return "(" + args[0].text() + " " + name + " " + args[1].text() + ")";
            case CALL1:
                return name + "(" + args[0].text() + ")";
            case CALL2:
                return name + "(" + args[0].text() + ", " + args[1].text() + ")";
        }
        return "";
    }

    Formula formula(const EngineSpec& e, int depth, bool withX, int limit) {
        Formula f;
        int kind = depth <= 0 ? weighted({1, 1}) : weighted({2, 2, 4, 2, 1, 1});
        switch (kind) {
            case 0:
                f.kind = Formula::NUMBER;
                f.number = grid(0, 4);
                break;
            case 1: {
                f.kind = Formula::NAME;
                std::vector<std::string> names;
                if (withX)
                    names.push_back("x");
                for (int i = 0; i < limit and i < (int)(e.inputs.size() + e.outputs.size()); ++i)
                    names.push_back(e.var(i).name);
                if (names.empty()) {
                    f.kind = Formula::NUMBER;
                    f.number = 1.0;
                } else
                    f.name = pick(names);
                break;
            }
            case 2: {
                f.kind = Formula::BINARY;
                static const std::vector<std::string> ops = {"+", "-", "*", "/", "%", "^", "and", "or"};
                f.name = ops[weighted({6, 5, 5, 2, 1, 1, 1, 1})];
                f.args = {formula(e, depth - 1, withX, limit), formula(e, depth - 1, withX, limit)};
                break;
            }
            case 3: {
                f.kind = Formula::CALL1;
                static const std::vector<std::string> fs = {"sin", "cos", "tanh", "abs", "sqrt", "exp", "floor", "round", "atan"};
                f.name = pick(fs);
                f.args = {formula(e, depth - 1, withX, limit)};
                break;
            }
            case 4: {
                f.kind = Formula::CALL2;
                static const std::vector<std::string> fs = {"min", "max", "pow", "gt", "le", "eq", "atan2", "fmod"};
                f.name = pick(fs);
                f.args = {formula(e, depth - 1, withX, limit), formula(e, depth - 1, withX, limit)};
                break;
            }
            default:
                f.kind = Formula::UNARY;
                f.name = chance(1, 3) ? "!" : "~";
                f.args = {formula(e, depth - 1, withX, limit)};
        }
        return f;
    }

    // ------------------------------------------------------------------------------------------------ terms
    std::string TermSpec::parameters() const {
        if (cls == "Function")
            return formula.text();
        std::string s;
        for (double d : p)
            s += (s.empty() ? "" : " ") + num(d);
        if (height != 1.0 and cls != "Constant" and cls != "Linear")
            s += " " + num(height);
        return s;
    }
    std::string TermSpec::fll() const {
        return name + " " + cls + " " + parameters();
    }

    static std::vector<double> sorted(int n, double lo, double hi, bool strict) {
        // n grid values in order
        double step = (hi - lo) / n;
        std::vector<double> r;
        double at = lo;
        for (int i = 0; i < n; ++i) {
            double v = grid(at, std::min(hi, lo + (i + 1) * step));
            if (strict and not r.empty() and v <= r.back())
                v = r.back() + 0.125;
            r.push_back(v);
            at = v;
        }
        return r;
    }

    TermSpec term(const std::string& name, double min, double max, const EngineSpec& e, const Options& o, bool forOutput,
                  const std::string& cls, int limit) {
        TermSpec t;
        t.name = name;
        if (not std::isfinite(min))
            min = -2;
        if (not std::isfinite(max))
            max = 2;
        if (max - min < 1)
            max = min + 1;
        double w = max - min, lo = min - w / 4, hi = max + w / 4;
        if (not cls.empty())
            t.cls = cls;
        else if (not o.termClasses.empty())
            t.cls = pick(o.termClasses);
        else if (o.functions and o.style.empty() and chance(1, forOutput ? 8 : 24))
            t.cls = "Function";
        else
            t.cls = TERMS[weighted({5, 4, 2, 2, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1})];
        const std::string& c = t.cls;
        if (c == "Triangle")
            t.p = sorted(3, lo, hi, chance(3, 4));
        else if (c == "Trapezoid")
            t.p = sorted(4, lo, hi, chance(3, 4));
        if ((c == "Triangle" or c == "Trapezoid") and chance(1, 6)) {  // as given by the ends only
            double k = range(1, 16) / 8.0;
            if (c == "Triangle")
                t.p = {t.p[0], t.p[0] + k, t.p[0] + 2 * k};
            else
                t.p = {t.p[0], t.p[0] + k, t.p[0] + 4 * k, t.p[0] + 5 * k};
        } else if (c == "Triangle" or c == "Trapezoid")
            ;
        else if (c == "Rectangle" or c == "SShape" or c == "ZShape")
            t.p = sorted(2, lo, hi, true);
        else if (c == "Ramp" or c == "Concave") {
            t.p = sorted(2, lo, hi, true);
            if (chance(1, 3))
                std::swap(t.p[0], t.p[1]);
        } else if (c == "Sigmoid") {
            t.p = {grid(min, max), grid(0.125, 5)};
            if (chance(1, 3))
                t.p[1] = -t.p[1];
        } else if (c == "Bell")
            t.p = {grid(min, max), grid(0.125, w), grid(0.5, 4)};
        else if (c == "Binary")
            t.p = {grid(min, max), chance(1, 2) ? -INFINITY : INFINITY};
        else if (c == "Cosine" or c == "Spike")
            t.p = {grid(min, max), grid(0.5, w + 1)};
        else if (c == "Gaussian")
            t.p = {grid(min, max), grid(0.125, w)};
        else if (c == "GaussianProduct") {
            auto m = sorted(2, min, max, false);
            t.p = {m[0], grid(0.125, w), m[1], grid(0.125, w)};
        } else if (c == "PiShape")
            t.p = sorted(4, lo, hi, true);
        else if (c == "SigmoidDifference") {
            auto m = sorted(2, min, max, false);
            t.p = {m[0], grid(0.25, 5), grid(0.25, 5), m[1]};
        } else if (c == "SigmoidProduct") {
            auto m = sorted(2, min, max, false);
            t.p = {m[0], grid(0.25, 5), -grid(0.25, 5), m[1]};
        } else if (c == "Discrete") {
            auto x = sorted(range(2, 5), lo, hi, true);
            for (double d : x) {
                t.p.push_back(d);
                t.p.push_back(grid(0, 1));
            }
        } else if (c == "Constant")
            t.p = {grid(min, max)};
        else if (c == "Linear") {
            int n = (int)e.inputs.size() + (chance(1, 4) ? 0 : 1);
            for (int i = 0; i < n; ++i)
                t.p.push_back(grid(-2, 2));
            if (t.p.empty())
                t.p = {grid(-2, 2)};
        } else if (c == "Function") {
            t.formula = formula(e, range(1, 3), true, limit);
            if (o.constants and chance(1, 3)) {
                count("function:constants");
                double a = grid(-2, 2), b = grid(-2, 2);
                std::function<void(Formula&)> some = [&](Formula& f) {
                    for (auto& g : f.args)
                        some(g);
                    if (f.args.empty() and chance(1, 2)) {
                        bool first = chance(2, 3);
                        f.kind = Formula::NAME;
                        f.constant = true;
                        f.name = first ? "gain" : "offset";
                        f.number = first ? a : b;
                    }
                };
                some(t.formula);
            }
        }
        if (o.heights and not (o.style == "fcl" and c == "Discrete") and chance(1, 6))
            t.height = grid(0.25, 1.5);
        if (c == "Constant" or c == "Linear" or c == "Function")
            t.height = 1.0;
        t.route = chance(1, 2) ? range(1, 5) : 0;
        return t;
    }

    // ------------------------------------------------------------------------------------------------ rules
    std::string EngineSpec::propText(const Prop& p) const {
        std::string s = var(p.var).name + " is";
        for (auto& h : p.hedges)
            s += " " + h;
        if (p.term >= 0)
            s += " " + var(p.var).terms[p.term].name;
        return s;
    }
    std::string EngineSpec::exprText(const Expr& e) const {
        if (e.op.empty())
            return e.parens ? "( " + propText(e.prop) + " )" : propText(e.prop);
        std::string l = exprText(e.args[0]), r = exprText(e.args[1]);
        // `and` binds tighter than `or`
        if (e.op == "and" and e.args[0].op == "or" and not e.args[0].parens)
            l = "( " + l + " )";
        if ((not e.args[1].op.empty()) and not e.args[1].parens and not (e.op == "or" and e.args[1].op == "and"))
            r = "( " + r + " )";
        std::string s = l + " " + e.op + " " + r;
        return e.parens ? "( " + s + " )" : s;
    }
    std::string EngineSpec::ruleText(const RuleSpec& r) const {
        std::string s = "if " + exprText(r.antecedent) + " then ";
        for (size_t i = 0; i < r.consequent.size(); ++i)
            s += (i ? " and " : "") + propText(r.consequent[i]);
        if (r.weightInText)
            s += " with " + num(r.textWeight);
        return s;
    }

    static Prop proposition(const EngineSpec& e, const Options& o, bool consequent) {
        Prop p;
        std::vector<int> vars;
        int ni = (int)e.inputs.size(), no = (int)e.outputs.size();
        if (consequent) {
            for (int i = 0; i < no; ++i)
                if (not e.outputs[i].terms.empty())
                    vars.push_back(ni + i);
        } else {
            for (int i = 0; i < ni; ++i)
                if (not e.inputs[i].terms.empty())
                    vars.push_back(i);
            if (o.chained and o.style.empty() and (vars.empty() or chance(1, 6)))
                for (int i = 0; i < no; ++i)
                    if (not e.outputs[i].terms.empty())
                        vars.push_back(ni + i);
        }
        if (vars.empty())
            harnessError("no variable with terms");
        p.var = pick(vars);
        p.term = (int)draw((uint32_t)e.var(p.var).terms.size());
        if (o.hedges and chance(1, consequent ? 8 : 4)) {
            int n = weighted({4, 1}) + 1;
            for (int i = 0; i < n; ++i)
                p.hedges.push_back(pick(HEDGES));
            if (not consequent and chance(1, 5)) {
                p.hedges.push_back("any");
                p.term = -1;
                if (chance(2, 3))
                    p.hedges.erase(p.hedges.begin(), p.hedges.end() - 1);
            }
        }
        return p;
    }

    Expr expression(const EngineSpec& e, const Options& o, int depth) {
        Expr x;
        if (depth <= 0 or chance(1, 3)) {
            x.prop = proposition(e, o, false);
            x.parens = chance(1, 12);
            return x;
        }
        x.op = chance(1, 3) ? "or" : "and";
        x.args = {expression(e, o, depth - 1), expression(e, o, depth - 1)};
        x.parens = chance(1, 8);
        return x;
    }

    RuleSpec rule(const EngineSpec& e, const Options& o) {
        RuleSpec r;
        if (o.style == "fis" or o.style == "fcl") {
            // flat antecedents over distinct inputs
            std::string op = chance(1, 4) ? "or" : "and";
            std::vector<int> used;
            for (int i = 0; i < (int)e.inputs.size(); ++i)
                if (not e.inputs[i].terms.empty() and (used.empty() or chance(2, 3)))
                    used.push_back(i);
            for (size_t k = 0; k < used.size(); ++k) {
                Expr leaf;
                leaf.prop.var = used[k];
                leaf.prop.term = (int)draw((uint32_t)e.inputs[used[k]].terms.size());
                if (o.hedges and o.style == "fis" and chance(1, 3))
                    leaf.prop.hedges = pick(std::vector<std::vector<std::string>>{{"not"}, {"very"}, {"somewhat"}, {"extremely"}, {"seldom"}, {"not", "very"}, {"very", "very"}, {"not", "seldom"}});
                if (o.hedges and o.style == "fcl" and chance(1, 5))
                    leaf.prop.hedges = {pick(HEDGES)};
                if (k == 0)
                    r.antecedent = leaf;
                else {
                    Expr x;
                    x.op = op;
                    x.args = {r.antecedent, leaf};
                    r.antecedent = x;
                }
            }
            for (int i = 0; i < (int)e.outputs.size(); ++i)
                if (not e.outputs[i].terms.empty() and (r.consequent.empty() or chance(1, 2))) {
                    Prop p;
                    p.var = (int)e.inputs.size() + i;
                    p.term = (int)draw((uint32_t)e.outputs[i].terms.size());
                    r.consequent.push_back(p);
                }
        } else {
            r.antecedent = expression(e, o, weighted({3, 3, 1}));
            int n = weighted({4, 2, 1}) + 1;
            for (int i = 0; i < n; ++i)
                r.consequent.push_back(proposition(e, o, true));
        }
        if (o.weights and chance(1, 3)) {
            r.weight = r.textWeight = chance(1, 8) ? pick(std::vector<double>{0.95, 1.05, 0.999}) : grid(0, 1.5);
            r.weightInText = true;
        }
        if (o.weightsInText)
            r.weightInText = true;
        if (o.inactiveRules and chance(1, 10))
            r.enabled = false;
        return r;
    }

    std::string norm(bool t) {
        return t ? pick(TNORMS) : pick(SNORMS);
    }

    std::string ActivationSpec::parameters() const {
        if (cls == "First" or cls == "Last")
            return std::to_string(n) + " " + num(threshold);
        if (cls == "Highest" or cls == "Lowest")
            return std::to_string(n);
        if (cls == "Threshold")
            return comparison + " " + num(threshold);
        return "";
    }
    ActivationSpec activation() {
        ActivationSpec a;
        static const std::vector<std::string> cls = {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
        a.cls = cls[weighted({6, 1, 1, 1, 1, 1, 1})];
        a.n = range(0, 3) ? range(1, 3) : 1;
        a.threshold = grid(0, 0.75);
        static const std::vector<std::string> cmp = {">=", "<", "<=", "==", "!=", ">"};
        a.comparison = pick(cmp);
        return a;
    }

    void defuzzifier(VarSpec& v, const Options& o) {
        v.defuzzifier = pick(INTEGRAL);
        v.resolution = o.maxResolution <= 5 ? 5 : range(5, o.maxResolution);
        if (o.maxResolution > 100 and chance(1, 4))
            v.resolution = 100;
        if (not o.style.empty())  // not part of the format
            v.resolution = fl::IntegralDefuzzifier::defaultResolution();
    }

    static std::string identifier(const char* base, int i) {
        static const std::vector<std::string> forms = {"%s%d", "%s_%d", "%s.%d", "_%s%d", "%d%s"};
        char buf[64];
        std::string f = forms[weighted({8, 2, 1, 1, 1})];
        if (f == "%d%s")
            snprintf(buf, sizeof buf, "%s%d_", base, i);
        else
            snprintf(buf, sizeof buf, f.c_str(), base, i);
        return buf;
    }

    EngineSpec engine(const Options& options) {
        Options o = options;
        EngineSpec e;
        e.route = chance(1, 2) ? range(1, 3) : 0;
        bool large = o.large and chance(1, 12);
        if (large) {
            o.maxInputs = o.maxOutputs = 7;
            o.maxBlocks = 5;
            o.maxRules = 24;
            o.maxTerms = 9;
            o.maxResolution = std::max(o.maxResolution, 130);
            count("engine:large");
        }
        static const std::vector<std::string> names = {"engine", "controller one", "e.2", ""};
        e.name = names[weighted({6, 2, 1, o.style.empty() ? 1 : 0})];
        if (o.descriptions and chance(1, 3))
            e.description = "an engine: with a (description)";
        int ni = weighted({0, 5, 4, 2}), no = weighted({0, 5, 3, 1}), nb = weighted({0, 6, 2, 1});
        if (large) {
            ni = range(1, o.maxInputs);
            no = range(1, o.maxOutputs);
            nb = range(1, o.maxBlocks);
        }
        ni = std::min(ni, o.maxInputs);
        no = std::min(no, o.maxOutputs);
        nb = std::min(nb, o.maxBlocks);
        bool plain = not o.style.empty();
        static const char* termNames[] = {"low", "medium", "high", "t4", "t5", "t6", "t7", "t8", "t9"};
        for (int i = 0; i < ni; ++i) {
            VarSpec v;
            v.name = plain ? "in" + std::to_string(i) : identifier("in", i);
            if (o.descriptions and chance(1, 5))
                v.description = "input number " + std::to_string(i);
            v.min = grid(-10, 5);
            v.max = v.min + grid(1, 10);
            if (o.oddRanges and not plain and chance(1, 12)) {
                v.min = -INFINITY;
                v.max = INFINITY;
            }
            v.enabled = not (o.disabled and not plain and chance(1, 10));
            v.lock = not plain and chance(1, 4);
            v.route = chance(1, 2) ? range(1, 3) : 0;
            e.inputs.push_back(v);
        }
        bool tsukamoto = false, sugeno = false;
        for (int i = 0; i < no; ++i) {
            VarSpec v;
            v.output = true;
            v.name = plain ? "out" + std::to_string(i) : identifier("out", i);
            if (o.descriptions and chance(1, 5))
                v.description = "output number " + std::to_string(i);
            v.min = grid(-10, 5);
            v.max = v.min + grid(1, 10);
            v.enabled = not (o.disabled and not plain and chance(1, 10));
            v.lock = not plain and chance(1, 3);
            v.lockPrevious = o.style != "fis" and chance(1, 3);
            v.def = o.style == "fis" ? NAN : chance(1, 3) ? NAN : grid(v.min - 1, v.max + 1);
            v.aggregation = norm(false);
            if (o.weighted and not plain and chance(2, 5)) {
                v.defuzzifier = chance(1, 4) ? "WeightedSum" : "WeightedAverage";
                v.type = "Automatic";
                if (chance(1, 2))
                    v.aggregation = "";
            } else
                defuzzifier(v, o);
            if (plain and o.style == "fis" and i > 0) {
                v.aggregation = e.outputs[0].aggregation;
                v.defuzzifier = e.outputs[0].defuzzifier;
                v.resolution = e.outputs[0].resolution;
            }
            if (o.oddRanges and not plain and chance(1, 16)) {
                v.min = -INFINITY;
                v.max = INFINITY;
            }
            v.route = chance(1, 2) ? range(1, 3) : 0;
            e.outputs.push_back(v);
        }
        (void)tsukamoto;
        (void)sugeno;
        // terms come last: they may refer to any variable
        for (int i = 0; i < ni + no; ++i) {
            VarSpec& v = e.var(i);
            int nt = std::min(o.maxTerms, large ? range(1, o.maxTerms) : weighted({0, 1, 4, 3, 1}));
            std::string cls;
            if (v.output and v.defuzzifier.find("Weighted") == 0) {
                switch (weighted({3, 2, 2, 3})) {
                    case 0: cls = "Constant"; break;
                    case 1: cls = "Linear"; break;
                    case 2: cls = o.functions ? "Function" : "Constant"; break;
                    default: cls = "*";
                }
                if (chance(1, 3))
                    v.type = cls == "*" ? "Tsukamoto" : "TakagiSugeno";
                if (cls == "*" and chance(1, 4) and v.defuzzifier == "WeightedAverage")
                    v.type = chance(1, 2) ? "TakagiSugeno" : "Tsukamoto";
            }
            for (int k = 0; k < nt; ++k) {
                std::string c = cls == "*" ? pick(MONOTONIC) : cls;
                v.terms.push_back(term(termNames[k], v.min, v.max, e, o, v.output, c, o.forward ? 1000 : i));
            }
        }
        for (int b = 0; b < nb; ++b) {
            BlockSpec k;
            k.route = chance(1, 2) ? range(1, 4) : 0;
            static const std::vector<std::string> bn = {"", "rules", "block two"};
            k.name = bn[weighted({2, 2, 1})] ;
            if (plain)
                k.name = "";
            if (o.descriptions and not plain and chance(1, 6))
                k.description = "some rules";
            k.enabled = not (o.disabled and not plain and chance(1, 10));
            k.conjunction = norm(true);
            k.disjunction = norm(false);
            k.implication = norm(true);
            if (plain)
                k.activation.cls = "General";
            else if (chance(1, 20))
                k.activation.cls = "";
            else
                k.activation = activation();
            int nr = range(1, o.maxRules);
            for (int r = 0; r < nr; ++r)
                k.rules.push_back(rule(e, o));
            if (o.missing and chance(1, 4)) {
                switch (draw(3)) {
                    case 0: k.conjunction = ""; break;
                    case 1: k.disjunction = ""; break;
                    default: k.implication = "";
                }
            }
            e.blocks.push_back(k);
        }
        if (o.missing and chance(1, 6)) {
            VarSpec& v = e.outputs[draw((uint32_t)e.outputs.size())];
            if (chance(1, 2))
                v.defuzzifier = "";
            else
                v.aggregation = "";
        }
        return e;
    }

    // ------------------------------------------------------------------------------------------------ text
    static std::string boolean(bool b) {
        return b ? "true" : "false";
    }
    std::string fll(const EngineSpec& e) {
        std::string s = "Engine: " + e.name + "\n";
        if (not e.description.empty())
            s += "  description: " + e.description + "\n";
        for (int o = 0; o < 2; ++o)
            for (auto& v : o ? e.outputs : e.inputs) {
                s += std::string(o ? "OutputVariable: " : "InputVariable: ") + v.name + "\n";
                if (not v.description.empty())
                    s += "  description: " + v.description + "\n";
                s += "  enabled: " + boolean(v.enabled) + "\n";
                s += "  range: " + num(v.min) + " " + num(v.max) + "\n";
                s += "  lock-range: " + boolean(v.lock) + "\n";
                if (o) {
                    s += "  aggregation: " + (v.aggregation.empty() ? "none" : v.aggregation) + "\n";
                    s += "  defuzzifier: " + (v.defuzzifier.empty() ? "none" : v.defuzzifier);
                    if (v.defuzzifier.find("Weighted") == 0)
                        s += " " + v.type;
                    else if (not v.defuzzifier.empty())
                        s += " " + std::to_string(v.resolution);
                    s += "\n  default: " + num(v.def) + "\n";
                    s += "  lock-previous: " + boolean(v.lockPrevious) + "\n";
                }
                for (auto& t : v.terms)
                    s += "  term: " + t.fll() + "\n";
            }
        for (auto& b : e.blocks) {
            s += "RuleBlock: " + b.name + "\n";
            if (not b.description.empty())
                s += "  description: " + b.description + "\n";
            s += "  enabled: " + boolean(b.enabled) + "\n";
            s += "  conjunction: " + (b.conjunction.empty() ? "none" : b.conjunction) + "\n";
            s += "  disjunction: " + (b.disjunction.empty() ? "none" : b.disjunction) + "\n";
            s += "  implication: " + (b.implication.empty() ? "none" : b.implication) + "\n";
            s += "  activation: " + (b.activation.cls.empty() ? "none" : b.activation.cls);
            std::string p = b.activation.parameters();
            s += (p.empty() ? "" : " " + p) + "\n";
            for (auto& r : b.rules)
                s += "  rule: " + e.ruleText(r) + "\n";
        }
        return s;
    }

    // ------------------------------------------------------------------------------------------------ real objects
    fl::TNorm* tnorm(const std::string& cls) {
        return fl::FactoryManager::instance()->tnorm()->constructObject(cls);
    }
    fl::SNorm* snorm(const std::string& cls) {
        return fl::FactoryManager::instance()->snorm()->constructObject(cls);
    }
    namespace {
        fl::TNorm* product() { return new fl::TNormFunction("a * b"); }
        fl::TNorm* minimum() { return new fl::TNormFunction("min(a, b)"); }
        fl::TNorm* difference() {
            fl::TNormFunction* r = new fl::TNormFunction;
            r->setFormula("max(0.0, a + b - 1.0)");
            return r;
        }
        fl::SNorm* sum() { return new fl::SNormFunction("a + b - (a * b)"); }
        fl::SNorm* maximum() { return new fl::SNormFunction("max(a, b)"); }
        fl::SNorm* bounded() { return new fl::SNormFunction("min(1.0, a + b)"); }
        fl::SNorm* unbounded() {
            fl::SNormFunction* r = new fl::SNormFunction("max(a, b)");
            r->setFormula("a + b");
            return r;
        }
        fl::SNorm* normalized() { return new fl::SNormFunction("(a + b) / max(1.0, a + b)"); }
        fl::Hedge* no() { return new fl::HedgeFunction("1.0 - x", "not"); }
        fl::Hedge* very() { return new fl::HedgeFunction("x * x", "very"); }
        fl::Hedge* somewhat() {
            fl::HedgeFunction* r = new fl::HedgeFunction("x", "somewhat");
            r->setFormula("sqrt(x)");
            return r;
        }
        template <class F, class C>
        void replace(F* factory, const char* name, C with, C without) {
            bool disguised = factory->getConstructor(name) != without;
            if (with ? chance(1, 3) : disguised)
                factory->registerConstructor(name, with ? with : without);
        }
        void replaceAll(bool in) {
            fl::FactoryManager* f = fl::FactoryManager::instance();
            replace<fl::TNormFactory, fl::TNormFactory::Constructor>(f->tnorm(), "AlgebraicProduct", in ? product : nullptr, fl::AlgebraicProduct::constructor);
            replace<fl::TNormFactory, fl::TNormFactory::Constructor>(f->tnorm(), "Minimum", in ? minimum : nullptr, fl::Minimum::constructor);
            replace<fl::TNormFactory, fl::TNormFactory::Constructor>(f->tnorm(), "BoundedDifference", in ? difference : nullptr, fl::BoundedDifference::constructor);
            replace<fl::SNormFactory, fl::SNormFactory::Constructor>(f->snorm(), "AlgebraicSum", in ? sum : nullptr, fl::AlgebraicSum::constructor);
            replace<fl::SNormFactory, fl::SNormFactory::Constructor>(f->snorm(), "Maximum", in ? maximum : nullptr, fl::Maximum::constructor);
            replace<fl::SNormFactory, fl::SNormFactory::Constructor>(f->snorm(), "BoundedSum", in ? bounded : nullptr, fl::BoundedSum::constructor);
            replace<fl::SNormFactory, fl::SNormFactory::Constructor>(f->snorm(), "UnboundedSum", in ? unbounded : nullptr, fl::UnboundedSum::constructor);
            replace<fl::SNormFactory, fl::SNormFactory::Constructor>(f->snorm(), "NormalizedSum", in ? normalized : nullptr, fl::NormalizedSum::constructor);
            replace<fl::HedgeFactory, fl::HedgeFactory::Constructor>(f->hedge(), "not", in ? no : nullptr, fl::Not::constructor);
            replace<fl::HedgeFactory, fl::HedgeFactory::Constructor>(f->hedge(), "very", in ? very : nullptr, fl::Very::constructor);
            replace<fl::HedgeFactory, fl::HedgeFactory::Constructor>(f->hedge(), "somewhat", in ? somewhat : nullptr, fl::Somewhat::constructor);
        }
    }
    std::string normName(const fl::TNorm* n) {
        if (auto f = dynamic_cast<const fl::TNormFunction*>(n)) {
            std::string t = f->getFormula();
            return t == "a * b" ? "AlgebraicProduct" : t == "min(a, b)" ? "Minimum" : t == "max(0.0, a + b - 1.0)" ? "BoundedDifference" : t;
        }
        return n ? n->className() : "";
    }
    Disguise::Disguise() {
        if (chance(1, 4)) {
            count("engine:operators by formula");
            trace("some operators are formulas");
            replaceAll(true);
        }
    }
    Disguise::~Disguise() {
        replaceAll(false);
    }
    fl::Activation* buildActivation(const ActivationSpec& a) {
        fl::Activation* r = fl::FactoryManager::instance()->activation()->constructObject(a.cls);
        if (r)
            r->configure(a.parameters());
        return r;
    }
    fl::Defuzzifier* buildDefuzzifier(const VarSpec& v) {
        fl::Defuzzifier* d = fl::FactoryManager::instance()->defuzzifier()->constructObject(v.defuzzifier);
        if (auto i = dynamic_cast<fl::IntegralDefuzzifier*>(d))
            i->setResolution(v.resolution);
        if (auto w = dynamic_cast<fl::WeightedDefuzzifier*>(d))
            w->setType(v.type);
        return d;
    }
    void constants(const Formula& f, std::map<std::string, double>& values) {
        if (f.constant)
            values[f.name] = f.number;
        for (auto& g : f.args)
            constants(g, values);
    }
    void setConstants(fl::Term* t, const TermSpec& spec) {
        std::map<std::string, double> values;
        constants(spec.formula, values);
        if (fl::Function* f = dynamic_cast<fl::Function*>(t))
            for (auto& v : values)
                f->variables[v.first] = v.second;
    }
    fl::Term* buildTerm(const TermSpec& t, fl::Engine* engine) {
        if (t.route)
            return otherRoute(t, engine);
        std::unique_ptr<fl::Term> r(fl::FactoryManager::instance()->term()->constructObject(t.cls));
        r->setName(t.name);
        r->updateReference(engine);
        setConstants(r.get(), t);
        r->configure(t.parameters());
        return r.release();
    }
    static void addTerms(fl::Variable* r, const VarSpec& v, fl::Engine* engine) {
        std::vector<fl::Term*> terms;
        for (auto& t : v.terms)
            if (v.route == 1)
                terms.push_back(buildTerm(t, engine));
            else if (v.route == 2)
                r->insertTerm(buildTerm(t, engine), r->numberOfTerms());
            else if (v.route == 3)
                r->terms().push_back(buildTerm(t, engine));
            else
                r->addTerm(buildTerm(t, engine));
        if (v.route == 1)
            r->setTerms(terms);
    }
    template <class V>
    static V* buildVariable(const VarSpec& v) {
        std::unique_ptr<V> r;
        if (v.route < 2)
            r.reset(new V(v.name, v.min, v.max));
        else {
            r.reset(v.route == 2 ? new V : new V("other", -1.0, 5.5));
            r->setName(v.name);
            if (v.route == 2) {
                r->setMinimum(v.min);
                r->setMaximum(v.max);
            } else
                r->setRange(v.min, v.max);
        }
        r->setDescription(v.description);
        r->setEnabled(v.enabled);
        r->setLockValueInRange(v.lock);
        return r.release();
    }
    fl::InputVariable* buildInput(const VarSpec& v, fl::Engine* engine) {
        std::unique_ptr<fl::InputVariable> r(buildVariable<fl::InputVariable>(v));
        addTerms(r.get(), v, engine);
        return r.release();
    }
    fl::OutputVariable* buildOutput(const VarSpec& v, fl::Engine* engine) {
        std::unique_ptr<fl::OutputVariable> r(buildVariable<fl::OutputVariable>(v));
        r->setLockPreviousValue(v.lockPrevious);
        r->setDefaultValue(v.def);
        if (v.route == 3)
            r->fuzzyOutput()->setAggregation(snorm(v.aggregation));
        else
            r->setAggregation(snorm(v.aggregation));
        r->setDefuzzifier(v.route ? otherRoute(v) : buildDefuzzifier(v));
        addTerms(r.get(), v, engine);
        return r.release();
    }
    fl::RuleBlock* buildBlock(const EngineSpec& e, const BlockSpec& b, fl::Engine* engine, bool load) {
        std::unique_ptr<fl::RuleBlock> r(new fl::RuleBlock(b.name));
        r->setDescription(b.description);
        r->setEnabled(b.enabled);
        r->setConjunction(tnorm(b.conjunction));
        r->setDisjunction(snorm(b.disjunction));
        r->setImplication(tnorm(b.implication));
        r->setActivation(b.route ? otherRoute(b.activation, b.route) : buildActivation(b.activation));
        std::vector<fl::Rule*> rules;
        for (auto& k : b.rules) {
            std::string text = e.ruleText(k);
            if (b.route == 1) {
                fl::Rule* rule = new fl::Rule;
                rule->setText(text);
                rules.push_back(rule);
            } else if (b.route == 2)
                r->insertRule(new fl::Rule(text), r->numberOfRules());
            else if (b.route == 3)
                r->rules().push_back(new fl::Rule(text, 0.125));
            else
                r->addRule(new fl::Rule(text));
        }
        if (b.route == 1)
            r->setRules(rules);
        if (load) {
            if (b.route == 4)
                for (auto& k : r->rules())
                    k->load(engine);
            else
                r->loadRules(engine);
            for (size_t i = 0; i < b.rules.size(); ++i) {
                r->getRule(i)->setWeight(b.rules[i].weight);
                r->getRule(i)->setEnabled(b.rules[i].enabled);
            }
        }
        return r.release();
    }
    std::unique_ptr<fl::Engine> build(const EngineSpec& e) {
        std::unique_ptr<fl::Engine> engine(e.route ? new fl::Engine : new fl::Engine(e.name, e.description));
        if (e.route) {
            engine->setName(e.name);
            engine->setDescription(e.description);
        }
        // variables first, so that formulas may refer to any of them
        std::vector<fl::InputVariable*> inputs;
        std::vector<fl::OutputVariable*> outputs;
        std::vector<fl::RuleBlock*> blocks;
        for (VarSpec v : e.inputs) {
            v.terms.clear();
            inputs.push_back(buildInput(v, engine.get()));
        }
        for (VarSpec v : e.outputs) {
            v.terms.clear();
            outputs.push_back(buildOutput(v, engine.get()));
        }
        if (e.route == 1) {
            engine->setInputVariables(inputs);
            engine->setOutputVariables(outputs);
        } else if (e.route == 2) {
            for (size_t i = inputs.size(); i-- > 0;)
                engine->insertInputVariable(inputs[i], 0);
            for (size_t i = outputs.size(); i-- > 0;)
                engine->insertOutputVariable(outputs[i], 0);
        } else {
            for (auto i : inputs)
                engine->addInputVariable(i);
            for (auto i : outputs)
                engine->addOutputVariable(i);
        }
        for (size_t i = 0; i < e.inputs.size(); ++i)
            addTerms(inputs[i], e.inputs[i], engine.get());
        for (size_t i = 0; i < e.outputs.size(); ++i)
            addTerms(outputs[i], e.outputs[i], engine.get());
        for (auto& b : e.blocks)
            blocks.push_back(buildBlock(e, b, engine.get()));
        if (e.route == 1)
            engine->setRuleBlocks(blocks);
        else if (e.route == 2)
            for (size_t i = blocks.size(); i-- > 0;)
                engine->insertRuleBlock(blocks[i], 0);
        else
            for (auto i : blocks)
                engine->addRuleBlock(i);
        return engine;
    }

    double sensor(const VarSpec& v, bool faults) {
        double lo = std::isfinite(v.min) ? v.min : -10, hi = std::isfinite(v.max) ? v.max : 10;
        if (faults and chance(1, 6)) {
            switch (draw(6)) {
                case 0: count("fault:sensor NaN"); return NAN;
                case 1: count("fault:sensor inf"); return INFINITY;
                case 2: count("fault:sensor -inf"); return -INFINITY;
                case 3: count("fault:sensor out of range"); return chance(1, 2) ? hi + grid(0.125, 20) : lo - grid(0.125, 20);
                case 4: count("fault:sensor huge"); return chance(1, 2) ? 1e300 : -1e300;
                default: count("fault:sensor tiny"); return chance(1, 2) ? 5e-324 : -1e-310;
            }
        }
        switch (weighted({6, 3, 1, 1})) {
            case 0: return grid(lo, hi);
            case 1: return lo + (hi - lo) * (draw(1000003) / 1000003.0);
            case 2: return lo;
            default: return hi;
        }
    }

    uint64_t specHash(const EngineSpec& e) {
        return hashOf(fll(e));
    }
}
