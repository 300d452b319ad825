// The parts of an engine by the other routes of the API: constructors with arguments, setters, parts configured twice.
#include <algorithm>

#include "gen.h"

namespace gen {
    namespace {
        typedef std::vector<double> P;
        typedef std::vector<fl::Discrete::Pair> Pairs;
        Pairs pairs(const P& p) {
            Pairs r;
            for (size_t i = 0; i + 1 < p.size(); i += 2)
                r.push_back(fl::Discrete::Pair(p[i], p[i + 1]));
            return r;
        }
        fl::Term* constructed(const TermSpec& t, fl::Engine* e) {
            const P& p = t.p;
            const std::string &n = t.name, &c = t.cls;
            bool h = t.height != 1.0;
            fl::Term* shorter = nullptr;  // from the ends only
            if (c == "Triangle" and p[1] == 0.5 * (p[0] + p[2]))
                shorter = new fl::Triangle(n, p[0], p[2]);
            else if (c == "Trapezoid" and p[1] == p[0] + (p[3] - p[0]) / 5.0 and p[2] == p[0] + (p[3] - p[0]) * 4.0 / 5.0)
                shorter = new fl::Trapezoid(n, p[0], p[3]);
            if (shorter) {
                shorter->setHeight(t.height);
                return shorter;
            }
            if (c == "Bell") return h ? new fl::Bell(n, p[0], p[1], p[2], t.height) : new fl::Bell(n, p[0], p[1], p[2]);
            if (c == "Binary") return h ? new fl::Binary(n, p[0], p[1], t.height) : new fl::Binary(n, p[0], p[1]);
            if (c == "Concave") return h ? new fl::Concave(n, p[0], p[1], t.height) : new fl::Concave(n, p[0], p[1]);
            if (c == "Constant") return new fl::Constant(n, p[0]);
            if (c == "Cosine") return h ? new fl::Cosine(n, p[0], p[1], t.height) : new fl::Cosine(n, p[0], p[1]);
            if (c == "Discrete") return h ? new fl::Discrete(n, pairs(p), t.height) : new fl::Discrete(n, pairs(p));
            if (c == "Gaussian") return h ? new fl::Gaussian(n, p[0], p[1], t.height) : new fl::Gaussian(n, p[0], p[1]);
            if (c == "GaussianProduct")
                return h ? new fl::GaussianProduct(n, p[0], p[1], p[2], p[3], t.height) : new fl::GaussianProduct(n, p[0], p[1], p[2], p[3]);
            if (c == "Linear") return new fl::Linear(n, p, e);
            if (c == "PiShape") return h ? new fl::PiShape(n, p[0], p[1], p[2], p[3], t.height) : new fl::PiShape(n, p[0], p[1], p[2], p[3]);
            if (c == "Ramp") return h ? new fl::Ramp(n, p[0], p[1], t.height) : new fl::Ramp(n, p[0], p[1]);
            if (c == "Rectangle") return h ? new fl::Rectangle(n, p[0], p[1], t.height) : new fl::Rectangle(n, p[0], p[1]);
            if (c == "SShape") return h ? new fl::SShape(n, p[0], p[1], t.height) : new fl::SShape(n, p[0], p[1]);
            if (c == "Sigmoid") return h ? new fl::Sigmoid(n, p[0], p[1], t.height) : new fl::Sigmoid(n, p[0], p[1]);
            if (c == "SigmoidDifference")
                return h ? new fl::SigmoidDifference(n, p[0], p[1], p[2], p[3], t.height) : new fl::SigmoidDifference(n, p[0], p[1], p[2], p[3]);
            if (c == "SigmoidProduct")
                return h ? new fl::SigmoidProduct(n, p[0], p[1], p[2], p[3], t.height) : new fl::SigmoidProduct(n, p[0], p[1], p[2], p[3]);
            if (c == "Spike") return h ? new fl::Spike(n, p[0], p[1], t.height) : new fl::Spike(n, p[0], p[1]);
            if (c == "Trapezoid") return h ? new fl::Trapezoid(n, p[0], p[1], p[2], p[3], t.height) : new fl::Trapezoid(n, p[0], p[1], p[2], p[3]);
            if (c == "Triangle") return h ? new fl::Triangle(n, p[0], p[1], p[2], t.height) : new fl::Triangle(n, p[0], p[1], p[2]);
            if (c == "ZShape") return h ? new fl::ZShape(n, p[0], p[1], t.height) : new fl::ZShape(n, p[0], p[1]);
            return nullptr;
        }
        template <class T>
        bool with(fl::Term* t, const P& p, void (T::*a)(fl::scalar), void (T::*b)(fl::scalar), void (T::*c)(fl::scalar) = nullptr, void (T::*d)(fl::scalar) = nullptr) {
            T* x = dynamic_cast<T*>(t);
            if (not x)
                return false;
            void (T::*f[])(fl::scalar) = {a, b, c, d};
            for (size_t i = 0; i < 4; ++i)
                if (f[i])
                    (x->*f[i])(p[i]);
            return true;
        }
    }

    // whatever the term was, it gets the parameters, one at a time
    bool setParts(fl::Term* t, const TermSpec& s, fl::Engine* e) {
        using namespace fl;
        const P& p = s.p;
        t->setName(s.name);
        if (s.cls != "Constant" and s.cls != "Linear" and s.cls != "Function")
            t->setHeight(s.height);
        if (auto x = dynamic_cast<fl::Constant*>(t))
            return x->setValue(p[0]), true;
        if (auto x = dynamic_cast<fl::Linear*>(t)) {
            if (s.route % 2)
                x->set(p, e);
            else {
                x->setCoefficients(p);
                x->setEngine(e);
            }
            return true;
        }
        if (auto x = dynamic_cast<fl::Discrete*>(t)) {
            if (s.route % 2) {
                Pairs xy = pairs(p);
                std::reverse(xy.begin(), xy.end());
                Discrete::sort(xy);
                x->setXY(xy);
            } else {
                x->xy().clear();
                for (auto& k : pairs(p))
                    x->xy().push_back(k);
            }
            return true;
        }
        return with<Bell>(t, p, &Bell::setCenter, &Bell::setWidth, &Bell::setSlope)
               or with<Binary>(t, p, &Binary::setStart, &Binary::setDirection) or with<Concave>(t, p, &Concave::setInflection, &Concave::setEnd)
               or with<Cosine>(t, p, &Cosine::setCenter, &Cosine::setWidth) or with<Gaussian>(t, p, &Gaussian::setMean, &Gaussian::setStandardDeviation)
               or with<GaussianProduct>(t, p, &GaussianProduct::setMeanA, &GaussianProduct::setStandardDeviationA, &GaussianProduct::setMeanB,
                                        &GaussianProduct::setStandardDeviationB)
               or with<PiShape>(t, p, &PiShape::setBottomLeft, &PiShape::setTopLeft, &PiShape::setTopRight, &PiShape::setBottomRight)
               or with<Ramp>(t, p, &Ramp::setStart, &Ramp::setEnd) or with<Rectangle>(t, p, &Rectangle::setStart, &Rectangle::setEnd)
               or with<SShape>(t, p, &SShape::setStart, &SShape::setEnd) or with<Sigmoid>(t, p, &Sigmoid::setInflection, &Sigmoid::setSlope)
               or with<SigmoidDifference>(t, p, &SigmoidDifference::setLeft, &SigmoidDifference::setRising, &SigmoidDifference::setFalling,
                                          &SigmoidDifference::setRight)
               or with<SigmoidProduct>(t, p, &SigmoidProduct::setLeft, &SigmoidProduct::setRising, &SigmoidProduct::setFalling, &SigmoidProduct::setRight)
               or with<Spike>(t, p, &Spike::setCenter, &Spike::setWidth)
               or with<Trapezoid>(t, p, &Trapezoid::setVertexA, &Trapezoid::setVertexB, &Trapezoid::setVertexC, &Trapezoid::setVertexD)
               or with<Triangle>(t, p, &Triangle::setVertexA, &Triangle::setVertexB, &Triangle::setVertexC)
               or with<ZShape>(t, p, &ZShape::setStart, &ZShape::setEnd);
    }

    fl::Term* otherRoute(const TermSpec& t, fl::Engine* e) {
        fl::FactoryManager* f = fl::FactoryManager::instance();
        if (t.cls == "Function") {
            std::unique_ptr<fl::Function> r;
            if (t.route < 3)
                r.reset(new fl::Function(t.name, t.formula.text(), e));
            else {
                r.reset(new fl::Function(t.name, t.formula.text()));
                r->setEngine(e);
            }
            setConstants(r.get(), t);
            r->load();
            return r.release();
        }
        std::unique_ptr<fl::Term> r;
        if (t.route < 3)
            r.reset(constructed(t, e));
        else {
            r.reset(f->term()->constructObject(t.cls));
            if (t.route == 5 and t.p.size()) {  // it was another one before
                TermSpec old = t;
                for (double& d : old.p)
                    d += 1.5;
                old.height = 0.75;
                r->updateReference(e);
                r->configure(old.parameters());
            }
            setParts(r.get(), t, e);
        }
        return r.release();
    }

    void setParts(fl::Activation* a, const ActivationSpec& s, int route) {
        if (route == 0)
            a->configure(s.parameters());
        else if (auto f = dynamic_cast<fl::First*>(a))
            f->setNumberOfRules(s.n), f->setThreshold(s.threshold);
        else if (auto l = dynamic_cast<fl::Last*>(a))
            l->setNumberOfRules(s.n), l->setThreshold(s.threshold);
        else if (auto h = dynamic_cast<fl::Highest*>(a))
            h->setNumberOfRules(s.n);
        else if (auto l = dynamic_cast<fl::Lowest*>(a))
            l->setNumberOfRules(s.n);
        else if (auto t = dynamic_cast<fl::Threshold*>(a)) {
            if (route == 1)
                t->setThreshold(s.comparison, s.threshold);
            else if (route == 2)
                t->setThreshold(t->parseComparison(s.comparison), s.threshold);
            else {
                t->setValue(s.threshold);
                t->setComparison(t->parseComparison(s.comparison));
            }
        }
    }

    fl::Activation* otherRoute(const ActivationSpec& a, int route) {
        bool set = route % 2;
        if (a.cls == "First" or a.cls == "Last") {
            if (not set)
                return a.cls == "First" ? (fl::Activation*)new fl::First(a.n, a.threshold) : new fl::Last(a.n, a.threshold);
            if (a.cls == "First") {
                std::unique_ptr<fl::First> r(new fl::First(7, 0.25));
                r->setNumberOfRules(a.n);
                r->setThreshold(a.threshold);
                return r.release();
            }
            std::unique_ptr<fl::Last> r(new fl::Last(7, 0.25));
            r->setThreshold(a.threshold);
            r->setNumberOfRules(a.n);
            return r.release();
        }
        if (a.cls == "Highest" or a.cls == "Lowest") {
            if (not set)
                return a.cls == "Highest" ? (fl::Activation*)new fl::Highest(a.n) : new fl::Lowest(a.n);
            if (a.cls == "Highest") {
                std::unique_ptr<fl::Highest> r(new fl::Highest);
                r->setNumberOfRules(a.n);
                return r.release();
            }
            std::unique_ptr<fl::Lowest> r(new fl::Lowest);
            r->setNumberOfRules(a.n);
            return r.release();
        }
        if (a.cls == "Threshold") {
            if (not set)
                return new fl::Threshold(a.comparison, a.threshold);
            std::unique_ptr<fl::Threshold> r(new fl::Threshold(fl::Threshold::NotEqualTo, 0.875));
            if (route % 4 == 1)
                r->setThreshold(a.comparison, a.threshold);
            else if (route % 4 == 3 and a.threshold > 0.25)
                r->setThreshold(r->parseComparison(a.comparison), a.threshold);
            else {
                r->setComparison(r->parseComparison(a.comparison));
                r->setValue(a.threshold);
            }
            return r.release();
        }
        if (a.cls == "General")
            return new fl::General;
        if (a.cls == "Proportional")
            return new fl::Proportional;
        return nullptr;
    }

    fl::Defuzzifier* otherRoute(const VarSpec& v) {
        const std::string& c = v.defuzzifier;
        int n = v.resolution;
        if (c == "Bisector") return new fl::Bisector(n);
        if (c == "Centroid") return new fl::Centroid(n);
        if (c == "SmallestOfMaximum") return new fl::SmallestOfMaximum(n);
        if (c == "LargestOfMaximum") return new fl::LargestOfMaximum(n);
        if (c == "MeanOfMaximum") return new fl::MeanOfMaximum(n);
        fl::WeightedDefuzzifier::Type type = v.type == "TakagiSugeno" ? fl::WeightedDefuzzifier::TakagiSugeno
                                             : v.type == "Tsukamoto"  ? fl::WeightedDefuzzifier::Tsukamoto
                                                                      : fl::WeightedDefuzzifier::Automatic;
        if (c == "WeightedAverage") return v.route == 1 ? new fl::WeightedAverage(v.type) : new fl::WeightedAverage(type);
        if (c == "WeightedSum") return v.route == 1 ? new fl::WeightedSum(v.type) : new fl::WeightedSum(type);
        return nullptr;
    }
}
