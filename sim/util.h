// What is visible of an engine, as text.
#pragma once
#include <string>

#include "gen.h"

namespace util {
    inline std::string number(double d) {
        return gen::num(d, -1);
    }
    inline std::string values(const fl::Engine& e) {
        std::string r;
        for (auto* v : e.variables())
            r += v->getName() + "=" + number(v->getValue()) + " ";
        for (auto* v : e.outputVariables())
            r += number(v->getPreviousValue()) + " " + v->fuzzyOutput()->toString() + " ";
        return r;
    }
    inline std::string snapshot(const fl::Engine& e) {
        std::string r = fl::FllExporter().toString(&e) + values(e);
        for (auto* b : e.ruleBlocks())
            for (auto* k : b->rules())
                r += number(k->getActivationDegree()) + (k->isTriggered() ? "t" : "") + (k->isLoaded() ? "l" : "u") + (k->isEnabled() ? "" : "d") + " "
                     + number(k->getWeight()) + " ";
        return r;
    }
    // where two texts differ
    inline std::string difference(const std::string& a, const std::string& b) {
        size_t i = 0;
        while (i < a.size() and i < b.size() and a[i] == b[i])
            ++i;
        size_t from = i > 40 ? i - 40 : 0;
        return "at byte " + std::to_string(i) + " of " + std::to_string(a.size()) + " (expected " + std::to_string(b.size()) + "): ..."
               + a.substr(from, 100) + "... instead of ..." + b.substr(from, 100) + "...";
    }
    inline std::string chomp(std::string s) {
        while (not s.empty() and s.back() == '\n')
            s.pop_back();
        return s;
    }
}
