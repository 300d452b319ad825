// Generator of engines: a plain description (EngineSpec) drawn from the choice sequence, from which the real engine
// is built (through the API or through FLL text) and the reference model is built independently.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "core.h"
#include "fuzzylite/Headers.h"

namespace gen {
    struct Formula {
        enum Kind { NUMBER, NAME, UNARY, BINARY, CALL1, CALL2 };
        Kind kind = NUMBER;
        double number = 0.0;  // also the value of a constant of the formula
        bool constant = false;
        std::string name;  // variable, constant, operator or function
        std::vector<Formula> args;
        std::string text() const;
    };

    struct TermSpec {
        std::string name, cls;
        std::vector<double> p;  // parameters, without height
        double height = 1.0;
        Formula formula;
        int route = 0;  // how the real term is made: 0 by the factory and its parameters, others by otherRoute
        std::string parameters() const;  // as in FLL
        std::string fll() const;
    };

    struct VarSpec {
        bool output = false;
        std::string name, description;
        bool enabled = true;
        double min = 0.0, max = 1.0;
        bool lock = false;
        std::vector<TermSpec> terms;
        // outputs
        std::string aggregation, defuzzifier;  // class names, empty for none
        int resolution = 100;
        std::string type = "Automatic";
        double def = 0.0;
        bool lockPrevious = false;
        int route = 0;
    };

    struct Prop {
        int var = 0;  // index in inputs + outputs
        std::vector<std::string> hedges;
        int term = -1;  // -1 when the last hedge is `any`
    };
    struct Expr {
        std::string op;  // empty for a proposition
        Prop prop;
        std::vector<Expr> args;  // two, for an operator
        bool parens = false;
    };
    struct RuleSpec {
        Expr antecedent;
        std::vector<Prop> consequent;
        double weight = 1.0;      // current
        double textWeight = 1.0;  // as in the text
        bool weightInText = false;
        bool enabled = true;
    };
    struct ActivationSpec {
        std::string cls;  // empty for none
        int n = 1;
        double threshold = 0.0;
        std::string comparison;  // for Threshold
        std::string parameters() const;
    };
    struct BlockSpec {
        std::string name, description;
        bool enabled = true;
        std::string conjunction, disjunction, implication;
        ActivationSpec activation;
        std::vector<RuleSpec> rules;
        int route = 0;
    };
    struct EngineSpec {
        std::string name, description;
        std::vector<VarSpec> inputs, outputs;
        std::vector<BlockSpec> blocks;
        int route = 0;

        const VarSpec& var(int i) const {
            return i < (int)inputs.size() ? inputs[i] : outputs[i - inputs.size()];
        }
        VarSpec& var(int i) {
            return i < (int)inputs.size() ? inputs[i] : outputs[i - inputs.size()];
        }
        std::string ruleText(const RuleSpec& r) const;
        std::string propText(const Prop& p) const;
        std::string exprText(const Expr& e) const;
    };

    struct Options {
        int maxInputs = 3, maxOutputs = 3, maxBlocks = 2, maxRules = 5, maxTerms = 4;
        bool functions = true;      // Function terms
        bool forward = false;       // formulas may refer to any variable, not only to earlier ones (impossible in text)
        bool chained = true;        // outputs in antecedents
        bool missing = false;       // sometimes omit an operator that will be needed
        bool descriptions = true;
        bool oddRanges = true;      // infinite ranges, NaN defaults
        bool hedges = true;
        bool disabled = true;       // some components start disabled
        bool inactiveRules = false; // rule enabled flags (not expressible in text)
        bool weightsInText = false; // every weight is written in the rule text
        bool weights = true;
        bool heights = true;
        bool weighted = true;       // weighted defuzzifiers
        int maxResolution = 24;
        bool constants = false;     // formulas with variables of their own (impossible in text)
        bool large = false;         // sometimes an engine beyond the usual sizes
        std::string style;          // "", "fis", "fcl": restrict to what the format can express
        std::vector<std::string> termClasses;  // empty: all
    };

    double grid(double lo, double hi);  // multiple of 1/8
    EngineSpec engine(const Options& o);
    TermSpec term(const std::string& name, double min, double max, const EngineSpec& e, const Options& o, bool forOutput,
                  const std::string& cls = "", int limit = 1000);
    Formula formula(const EngineSpec& e, int depth, bool withX = true, int limit = 1000);  // only the first `limit` variables
    RuleSpec rule(const EngineSpec& e, const Options& o);
    Expr expression(const EngineSpec& e, const Options& o, int depth);
    std::string norm(bool tnorm);
    ActivationSpec activation();
    void defuzzifier(VarSpec& v, const Options& o);

    std::string num(double d, int decimals = 3);
    std::string fll(const EngineSpec& e);  // written independently of FllExporter
    // builds the real engine
    std::unique_ptr<fl::Engine> build(const EngineSpec& e);
    void constants(const Formula& f, std::map<std::string, double>& values);
    void setConstants(fl::Term* t, const TermSpec& spec);
    fl::Term* buildTerm(const TermSpec& t, fl::Engine* engine);
    fl::InputVariable* buildInput(const VarSpec& v, fl::Engine* engine);
    fl::OutputVariable* buildOutput(const VarSpec& v, fl::Engine* engine);
    fl::RuleBlock* buildBlock(const EngineSpec& e, const BlockSpec& b, fl::Engine* engine, bool load = true);
    fl::TNorm* tnorm(const std::string& cls);
    // While it lives, some operators and hedges made by the factories are formulas of the same meaning
    std::string normName(const fl::TNorm* n);  // as if it were not
    struct Disguise {
        Disguise();
        ~Disguise();
    };
    fl::SNorm* snorm(const std::string& cls);
    fl::Activation* buildActivation(const ActivationSpec& a);
    fl::Defuzzifier* buildDefuzzifier(const VarSpec& v);

    // the other routes of the API to the same parts
    fl::Term* otherRoute(const TermSpec& t, fl::Engine* e);
    fl::Activation* otherRoute(const ActivationSpec& a, int route);
    fl::Defuzzifier* otherRoute(const VarSpec& v);
    void setParts(fl::Activation* a, const ActivationSpec& s, int route);
    bool setParts(fl::Term* t, const TermSpec& s, fl::Engine* e);

    // an input value: mostly within the range, sometimes a sensor fault
    double sensor(const VarSpec& v, bool faults);
    uint64_t specHash(const EngineSpec& e);
    extern const std::vector<std::string> TNORMS, SNORMS, HEDGES, INTEGRAL, TERMS, MONOTONIC;
}
