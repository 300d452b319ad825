#include "probes.h"

#include "core.h"

namespace probes {
    long seen = 0, failAt = 0;
    bool fired = false;
    const char* where = "";
    void (*hook)() = nullptr;

    void point(const char* kind) {
        if (hook)
            hook();
        ++seen;
        if (failAt and seen == failAt) {
            fired = true;
            where = kind;
            throw Injected();
        }
    }

    template <class T, class Base>
    struct PNorm : Base {
        T inner;
        std::string className() const override {
            return inner.className();
        }
        fl::scalar compute(fl::scalar a, fl::scalar b) const override {
            point("norm");
            return inner.compute(a, b);
        }
        PNorm* clone() const override {
            return new PNorm(*this);
        }
        static Base* constructor() {
            return new PNorm;
        }
    };
    template <class T>
    struct PTerm : T {
        fl::scalar membership(fl::scalar x) const override {
            point("term");
            return T::membership(x);
        }
        fl::scalar tsukamoto(fl::scalar y) const override {
            point("term");
            return T::tsukamoto(y);
        }
        PTerm* clone() const override {
            return new PTerm(*this);
        }
        static fl::Term* constructor() {
            return new PTerm;
        }
    };
    template <class T>
    struct PHedge : fl::Hedge {
        T inner;
        std::string name() const override {
            return inner.name();
        }
        fl::scalar hedge(fl::scalar x) const override {
            point("hedge");
            return inner.hedge(x);
        }
        PHedge* clone() const override {
            return new PHedge(*this);
        }
        static fl::Hedge* constructor() {
            return new PHedge;
        }
    };
    template <class T>
    struct PDefuzzifier : T {
        fl::scalar defuzzify(const fl::Term* t, fl::scalar a, fl::scalar b) const override {
            point("defuzzifier start");
            fl::scalar r = T::defuzzify(t, a, b);
            point("defuzzifier end");
            return r;
        }
        PDefuzzifier* clone() const override {
            return new PDefuzzifier(*this);
        }
        static fl::Defuzzifier* constructor() {
            return new PDefuzzifier;
        }
    };
    template <class T>
    struct PActivation : T {
        void activate(fl::RuleBlock* b) override {
            point("activation start");
            T::activate(b);
            point("activation end");
        }
        PActivation* clone() const override {
            return new PActivation(*this);
        }
        static fl::Activation* constructor() {
            return new PActivation;
        }
    };

    void install() {
        fl::FactoryManager* f = fl::FactoryManager::instance();
#define N(T) f->tnorm()->registerConstructor(#T, &PNorm<fl::T, fl::TNorm>::constructor);
        N(Minimum) N(AlgebraicProduct) N(BoundedDifference) N(DrasticProduct) N(EinsteinProduct) N(HamacherProduct) N(NilpotentMinimum)
#undef N
#define N(T) f->snorm()->registerConstructor(#T, &PNorm<fl::T, fl::SNorm>::constructor);
        N(Maximum) N(AlgebraicSum) N(BoundedSum) N(DrasticSum) N(EinsteinSum) N(HamacherSum) N(NilpotentMaximum) N(NormalizedSum) N(UnboundedSum)
#undef N
#define N(T) f->term()->registerConstructor(#T, &PTerm<fl::T>::constructor);
        N(Triangle) N(Trapezoid) N(Rectangle) N(Ramp) N(Gaussian) N(Bell) N(Sigmoid) N(Binary) N(Concave) N(Cosine) N(Discrete)
        N(GaussianProduct) N(PiShape) N(SShape) N(SigmoidDifference) N(SigmoidProduct) N(Spike) N(ZShape) N(Constant) N(Linear) N(Function)
#undef N
#define N(K, T) f->hedge()->registerConstructor(K, &PHedge<fl::T>::constructor);
        N("extremely", Extremely) N("not", Not) N("seldom", Seldom) N("somewhat", Somewhat) N("very", Very)
#undef N
#define N(T) f->defuzzifier()->registerConstructor(#T, &PDefuzzifier<fl::T>::constructor);
        N(Centroid) N(Bisector) N(LargestOfMaximum) N(SmallestOfMaximum) N(MeanOfMaximum) N(WeightedAverage) N(WeightedSum)
#undef N
#define N(T) f->activation()->registerConstructor(#T, &PActivation<fl::T>::constructor);
        N(General) N(First) N(Last) N(Highest) N(Lowest) N(Proportional) N(Threshold)
#undef N
    }
}
