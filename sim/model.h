// Reference model of an engine: a small executable specification of the inference, written independently of
// the library's code, as a plain value (copying the model copies the engine).
#pragma once
#include "gen.h"

namespace model {
    extern double eps;  // the tolerance of comparisons in force
    struct Undefined {  // the cycle must end with an error
        std::string why;
    };

    struct Act {
        int term;
        double degree;
        std::string implication;
        double rule = 0;  // activation degree of the rule
    };
    struct OutState {
        double value = NAN_(), previous = NAN_();
        std::vector<Act> fuzzy;
        static double NAN_() {
            return __builtin_nan("");
        }
    };
    struct RuleState {
        bool loaded = true;
        double degree = 0.0;
        bool triggered = false;
    };
    struct Result {  // of a defuzzification
        double value;
        bool interval = false;  // near ties: anything within [lo, hi] is right
        double lo = 0, hi = 0;
        bool loose = false;  // ill-conditioned: any value is right
    };

    // What the real engine triggered: used to resolve ties of Highest and Lowest, and, where model and engine agree but for
    // rounding, to go on with the rounding of the engine (roots and steep terms would amplify the difference).
    struct Observed {
        std::vector<std::vector<char>> triggered;
        std::vector<std::vector<double>> degrees;
        std::vector<std::vector<Act>> fuzzy;  // order in which rules of the same degree were triggered
        bool tieError = false;
        std::string error;
    };

    struct Model {
        gen::EngineSpec s;
        std::vector<double> in;
        std::vector<OutState> out;
        std::vector<std::vector<RuleState>> rules;
        std::vector<Result> results;  // of the last cycle, per output; value after bounding

        explicit Model(const gen::EngineSpec& spec);
        Model() {}
        void addBlock(const gen::BlockSpec& b);
        void restart();
        void settle();
        void setInput(int i, double v);
        void process(Observed* o);  // throws Undefined
        double membership(const gen::TermSpec& t, double x, bool withEngine = true) const;
        double aggregated(int output, double x) const;
        double fuzzyDegree(int output, int term) const;
        double eval(const gen::Formula& f, double x) const;
        double degreeOf(const gen::BlockSpec& b, const gen::Expr& e) const;
        void activate(int block, Observed* o);
        static void adopt(std::vector<Act>& mine, const std::vector<Act>& real);
        static void follow(std::vector<Act>& mine, size_t begin, const std::vector<Act>& real);
        void trigger(int block, int rule);
        void defuzzify(int output);
        Result value(int output) const;
        Result weighted(const gen::VarSpec& v, const std::vector<Act>& fuzzy, bool perturb) const;
        bool ambiguous = false;  // a tie was left open in the last cycle
    };

    double tnorm(const std::string& n, double a, double b);
    double snorm(const std::string& n, double a, double b);
    double hedge(const std::string& n, double x);
    double tsukamoto(const gen::TermSpec& t, double y);
    bool near(double a, double b, double tol = 1e-7);
    bool within(const Result& r, double real);

    // ---------------------------------------------------------------- comparison of the real engine with the model
    // Runs a cycle on both; fails with class `cls` on any difference; afterwards the model adopts the real output values
    // (so that rounding cannot accumulate). Returns whether the cycle ended normally.
    bool cycle(Model& m, fl::Engine& e, const char* cls);
    // the same, for a cycle that has already been run on the real engine
    bool judge(Model& m, fl::Engine& e, const char* cls, bool threw, const std::string& what);
    // an aborted cycle: every output is in its old state or in the one the completed cycle would have given
    void judgeAborted(Model& m, fl::Engine& e, const char* cls);
    Observed observe(fl::Engine& e);
    // full comparison of what is visible after a cycle
    void compare(const Model& m, fl::Engine& e, const char* cls, bool afterError = false);
    void adopt(Model& m, fl::Engine& e);
    void setInputs(Model& m, fl::Engine& e, bool faults);
    std::string describe(const Model& m);
    uint64_t stateHash(const Model& m);  // coarse: which rules fired, which outputs are defined
}
