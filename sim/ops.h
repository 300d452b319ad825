// Operations applied to the real engine and to the model at the same time.
#pragma once
#include "model.h"

namespace ops {
    struct Options {
        bool faults = true;        // sensor faults
        bool reconfigure = true;   // norms, defuzzifiers, activation methods, ranges, terms
        bool rules = true;         // unloading, reloading, replacing rules
        bool toggles = true;
        bool weights = true;
        bool missing = false;      // may remove operators
        bool outputValues = true;  // setValue / setPreviousValue on outputs
        bool structure = false;    // adding, removing and moving rules, blocks, terms and outputs
        gen::Options gen;
    };
    // one random operation (not a cycle)
    void mutate(model::Model& m, fl::Engine& e, const Options& o);
    // a random short history: inputs and cycles, with operations in between
    void history(model::Model& m, fl::Engine& e, int steps, const Options& o, const char* cls);
    void restart(model::Model& m, fl::Engine& e);
    gen::EngineSpec spec(const gen::Options& o);  // draws an engine and traces it
}
