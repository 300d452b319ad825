// C15: factories give what is registered, independently of each other, over any sequence of operations, with allocations that fail.
#include <algorithm>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <typeinfo>

#include "gen.h"
#include "guard.h"
#include "util.h"

using namespace sim;

namespace {
    const char* OOM = "fault:exhausted memory";

    // Every call of the library goes through here: only its allocations are tracked, and may fail.
    template <class F>
    Ended lib(F f) {
        mem::On on;
        return guarded(f);
    }
    template <class F>
    Ended faulty(F f) {
        bool fault = chance(1, 3);
        int n = fault ? range(1, chance(1, 3) ? 150 : 4) : 0;
        bool persistent = fault and chance(1, 2);
        mem::On on;
        if (fault)
            mem::failAt(n, persistent);
        Ended e = guarded(f);
        if (e.oom) {
            mem::Off off;
            count(OOM);
        }
        return e;
    }
    const char* outcome(const Ended& e) {
        return e.oom ? "out of memory" : e.threw ? "error" : "ok";
    }
    void regular(const Ended& e, const char* what) {
        if (e.threw and not e.oom)
            fail("C15:unexpected error", "%s: %s", what, e.what.c_str());
    }

    // ------------------------------------------------------------------------------------------------ components of the user
    std::set<const void*> alive;  // of the user's components
    void birth(const void* p) {
        mem::Off off;
        if (not alive.insert(p).second)
            harnessError("a component was constructed twice at the same place");
    }
    void death(const void* p) {
        mem::Off off;
        if (not alive.erase(p))
            fail("C15:released twice", "a component of the user was released twice");
    }
    struct Live {
        Live() {
            birth(this);
        }
        Live(const Live&) {
            birth(this);
        }
        ~Live() {
            death(this);
        }
    };
    std::string mine(int k) {
        return "Mine" + std::to_string(k);
    }
    template <int K>
    struct MyTNorm : fl::TNorm, Live {
        std::string className() const {
            return mine(K);
        }
        fl::scalar compute(fl::scalar, fl::scalar) const {
            return K;
        }
        fl::TNorm* clone() const {
            return new MyTNorm(*this);
        }
        static fl::TNorm* make() {
            return new MyTNorm;
        }
    };
    template <int K>
    struct MySNorm : fl::SNorm, Live {
        std::string className() const {
            return mine(K);
        }
        fl::scalar compute(fl::scalar, fl::scalar) const {
            return K;
        }
        fl::SNorm* clone() const {
            return new MySNorm(*this);
        }
        static fl::SNorm* make() {
            return new MySNorm;
        }
    };
    template <int K>
    struct MyActivation : fl::Activation, Live {
        std::string className() const {
            return mine(K);
        }
        std::string parameters() const {
            return "";
        }
        void configure(const std::string&) {}
        void activate(fl::RuleBlock*) {}
        fl::Activation* clone() const {
            return new MyActivation(*this);
        }
        static fl::Activation* make() {
            return new MyActivation;
        }
    };
    template <int K>
    struct MyDefuzzifier : fl::Defuzzifier, Live {
        std::string className() const {
            return mine(K);
        }
        fl::scalar defuzzify(const fl::Term*, fl::scalar, fl::scalar) const {
            return K;
        }
        fl::Defuzzifier* clone() const {
            return new MyDefuzzifier(*this);
        }
        static fl::Defuzzifier* make() {
            return new MyDefuzzifier;
        }
    };
    template <int K>
    struct MyTerm : fl::Term, Live {
        std::string className() const {
            return mine(K);
        }
        std::string parameters() const {
            return "";
        }
        void configure(const std::string&) {}
        fl::scalar membership(fl::scalar) const {
            return K * 0.25;
        }
        fl::Term* clone() const {
            return new MyTerm(*this);
        }
        static fl::Term* make() {
            return new MyTerm;
        }
    };
    template <int K>
    struct MyHedge : fl::Hedge, Live {
        std::string name() const {
            return mine(K);
        }
        fl::scalar hedge(fl::scalar) const {
            return K * 0.25;
        }
        fl::Hedge* clone() const {
            return new MyHedge(*this);
        }
        static fl::Hedge* make() {
            return new MyHedge;
        }
    };

    double plus1(double x) {
        return x + 1;
    }
    double times3(double x) {
        return x * 3;
    }
    double combine(double x, double y) {
        return x * 10 + y;
    }
    double differ(double x, double y) {
        return x - 2 * y;
    }
    struct MyElement : fl::Function::Element, Live {
        MyElement(const std::string& name, Type type, int method, int precedence) :
            Element(name, "of the user", type) {
            this->precedence = precedence;
            if (method < 2) {
                arity = 1;
                unary = method ? &times3 : &plus1;
                associativity = type == Operator ? 1 : -1;
            } else {
                arity = 2;
                binary = method == 2 ? &combine : &differ;
                associativity = -1;
            }
        }
        MyElement* clone() const {
            return new MyElement(*this);
        }
    };

    std::string nameOf(const fl::Hedge* h) {
        return h->name();
    }
    template <class T>
    std::string nameOf(const T* t) {
        return t->className();
    }

    const std::vector<std::string> KEYS = {"mine", "other", "A", "a", "", "a name that does not fit into a string without memory",
                                           "a name that does not fit into a string without memory either"};

    // ------------------------------------------------------------------------------------------------ a factory and what it should hold
    struct Box {
        virtual ~Box() {}
        virtual const char* kind() const = 0;
        virtual void edit() = 0;
        virtual void check() = 0;
        virtual Box* copied() = 0;               // null if memory is exhausted
        virtual void assign(Box* other) = 0;     // of the same kind
        virtual void move(Box* other) = 0;       // the source is destroyed
        virtual Box* constructFrom(Box* other) = 0;  // by moving, the source is destroyed
        virtual Box* cloneModel(fl::FactoryManager* m) = 0;  // the manager has a copy of this factory
        virtual void give(fl::FactoryManager* m) = 0;
        virtual bool heldBy(fl::FactoryManager* m) const = 0;
        virtual void destroy() = 0;              // the real factory
        virtual size_t owned() const {           // components of the user that belong to the factory
            return 0;
        }
    };

    struct Kept {
        std::function<void()> check;
        std::function<void()> destroy;
        int owned;
    };
    std::vector<Kept> kept;  // objects that came out of factories

    template <class F, class T>
    struct Access;
#define ACCESS(F, T, getter, setter)                    \
    template <>                                         \
    struct Access<fl::F, fl::T> {                       \
        static const char* kind() {                     \
            return #F;                                  \
        }                                               \
        static fl::F* get(fl::FactoryManager* m) {      \
            return m->getter();                         \
        }                                               \
        static void set(fl::FactoryManager* m, fl::F* f) { \
            m->setter(f);                               \
        }                                               \
        static fl::T* custom(int k) {                   \
            return k == 0 ? My##T<0>::make() : k == 1 ? My##T<1>::make() : My##T<2>::make(); \
        }                                               \
        static fl::T* (*constructor(int k))() {         \
            return k == 0 ? &My##T<0>::make : k == 1 ? &My##T<1>::make : &My##T<2>::make; \
        }                                               \
    };
    ACCESS(TNormFactory, TNorm, tnorm, setTnorm)
    ACCESS(SNormFactory, SNorm, snorm, setSnorm)
    ACCESS(ActivationFactory, Activation, activation, setActivation)
    ACCESS(DefuzzifierFactory, Defuzzifier, defuzzifier, setDefuzzifier)
    ACCESS(TermFactory, Term, term, setTerm)
    ACCESS(HedgeFactory, Hedge, hedge, setHedge)

    const int NONE = -1;

    template <class F, class T>
    struct Maker : Box {
        typedef Access<F, T> A;
        typedef typename fl::ConstructionFactory<T*>::Constructor Constructor;
        F* real;
        std::string name;
        std::map<std::string, int> entries;  // NONE, a built-in class, or beyond these one of the user's

        // the built-in classes, which a new factory has, under their names
        static std::vector<std::pair<std::string, Constructor>>& builtIn() {
            static std::vector<std::pair<std::string, Constructor>> b;
            return b;
        }
        static void prepare() {
            F f;
            builtIn().clear();
            for (auto& k : f.available())
                if (f.getConstructor(k))
                    builtIn().push_back({k, f.getConstructor(k)});
        }
        static Constructor constructor(int id) {
            if (id == NONE)
                return nullptr;
            return id < (int)builtIn().size() ? builtIn()[id].second : A::constructor(id - (int)builtIn().size());
        }
        static std::string className(int id) {
            return id < (int)builtIn().size() ? builtIn()[id].first : mine(id - (int)builtIn().size());
        }
        static int anyClass() {
            if (chance(1, 8))
                return NONE;
            if (chance(1, 3))
                return draw((uint32_t)builtIn().size());
            return (int)builtIn().size() + draw(3);
        }
        std::string anyKey() {
            if (chance(1, 3))
                return builtIn()[draw((uint32_t)builtIn().size())].first;
            if (chance(1, 4) and not entries.empty()) {
                auto it = entries.begin();
                std::advance(it, draw((uint32_t)entries.size()));
                return it->first;
            }
            return pick(KEYS);
        }

        Maker() : real(nullptr) {}
        static Maker* make() {
            std::unique_ptr<Maker> r(new Maker);
            bool named = chance(1, 2);
            r->name = named ? pick(KEYS) : "";
            Ended e = faulty([&] { r->real = named ? new F(r->name) : new F; });
            regular(e, "creating a factory");
            if (e.oom)
                return nullptr;
            if (not named)
                r->name = r->real->name();
            r->entries[""] = NONE;
            for (size_t i = 0; i < builtIn().size(); ++i)
                r->entries[builtIn()[i].first] = (int)i;
            // some have no component without a name
            if (not r->real->hasConstructor(""))
                r->entries.erase("");
            return r.release();
        }
        const char* kind() const override {
            return A::kind();
        }

        void expect(T* t, const std::string& key, int id) {
            evaluated();
            if (id == NONE) {
                if (t)
                    fail("C15:wrong kind", "%s made an object for '%s', whose constructor is null", kind(), key.c_str());
                return;
            }
            if (not t)
                fail("C15:wrong kind", "%s made nothing for '%s'", kind(), key.c_str());
            std::string is = nameOf(t);
            if (is != className(id))
                fail("C15:wrong kind", "%s made a %s for '%s', where %s is registered", kind(), is.c_str(), key.c_str(), className(id).c_str());
        }
        void keep(T* t, int id) {
            if (not t)
                return;
            std::string name = className(id);
            if (kept.size() > 60) {
                lib([&] { delete t; });
                return;
            }
            kept.push_back({[t, name] {
                                if (nameOf(t) != name)
                                    fail("C15:object changed", "an object made by a factory was a %s and is now a %s", name.c_str(), nameOf(t).c_str());
                            },
                            [t] { lib([&] { delete t; }); }, id >= (int)builtIn().size()});
        }

        void edit() override {
            std::string key = anyKey();
            bool known = entries.count(key);
            const char* what = "";
            Ended e;
            switch (weighted({4, 3, 5, 1, 1})) {
                case 0: {
                    what = "register";
                    int id = anyClass();
                    Constructor c = constructor(id);
                    e = faulty([&] { real->registerConstructor(key, c); });
                    regular(e, "registering");
                    if (e.ok())
                        entries[key] = id;
                    break;
                }
                case 1:
                    what = "deregister";
                    e = faulty([&] { real->deregisterConstructor(key); });
                    regular(e, "deregistering");
                    if (e.ok())
                        entries.erase(key);
                    break;
                case 2: {
                    what = "construct";
                    T* t = nullptr;
                    T* again = nullptr;
                    e = faulty([&] { t = real->constructObject(key); });
                    if (e.oom)
                        break;
                    if (e.threw and known)
                        fail("C15:not made", "%s: making '%s': %s", kind(), key.c_str(), e.what.c_str());
                    if (e.ok() and not known)
                        fail("C15:not rejected", "%s accepted '%s', which is not registered", kind(), key.c_str());
                    if (not known)
                        break;
                    expect(t, key, entries[key]);
                    lib([&] { again = real->constructObject(key); });
                    expect(again, key, entries[key]);
                    if (t and t == again)
                        fail("C15:not fresh", "%s gave the same object twice", kind());
                    keep(t, entries[key]);
                    lib([&] { delete again; });
                    break;
                }
                case 3:
                    what = "through the map";
                    if (chance(1, 2)) {
                        lib([&] { real->constructors().erase(key); });
                        entries.erase(key);
                    } else if (chance(1, 4)) {
                        lib([&] { real->constructors().clear(); });
                        entries.clear();
                    } else {
                        int id = anyClass();
                        Constructor c = constructor(id);
                        lib([&] { real->constructors()[key] = c; });
                        entries[key] = id;
                    }
                    break;
                default:
                    what = "special";
                    e = special(real, key);
            }
            trace("%s %s: %s '%s': %s", kind(), name.c_str(), what, key.substr(0, 20).c_str(), outcome(e));
            state(hashOf(std::string(kind()) + what) + known * 4 + (e.oom ? 1 : e.threw ? 2 : 3));
        }
        template <class X>
        Ended special(X*, const std::string&) {
            return Ended();
        }
        Ended special(fl::DefuzzifierFactory* f, const std::string& key) {
            bool known = entries.count(key);
            int how = draw(3), resolution = range(1, 300);
            auto type = (fl::WeightedDefuzzifier::Type)draw(3);
            fl::Defuzzifier* d = nullptr;
            Ended e = faulty([&] {
                d = how == 0   ? f->constructDefuzzifier(key, resolution, type)
                    : how == 1 ? f->constructIntegral(key, resolution)
                               : f->constructWeighted(key, type);
            });
            if (e.oom)
                return e;
            if (e.ok() != known)
                fail("C15:not rejected", "the factory of defuzzifiers gives '%s' %s", key.c_str(), e.ok() ? "although it is not registered" : e.what.c_str());
            if (not known)
                return e;
            expect((T*)(void*)d, key, entries[key]);
            auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(d);
            auto* w = dynamic_cast<fl::WeightedDefuzzifier*>(d);
            if (i and how != 2 and i->getResolution() != resolution)
                fail("C15:wrong kind", "the defuzzifier has resolution %d instead of %d", i->getResolution(), resolution);
            if (w and how != 1 and w->getType() != type)
                fail("C15:wrong kind", "the weighted defuzzifier has type %d instead of %d", w->getType(), type);
            lib([&] { delete d; });
            return e;
        }

        void check() override {
            const F* f = real;
            if (f->name() != name)
                fail("C15:factory changed", "%s '%s' is now called '%s'", kind(), name.c_str(), f->name().c_str());
            std::vector<std::string> keys;
            for (auto& x : entries)
                keys.push_back(x.first);
            evaluated();
            if (f->available() != keys) {
                std::string a, b;
                for (auto& k : keys)
                    a += " " + k;
                for (auto& k : f->available())
                    b += " " + k;
                fail("C15:wrong names", "%s '%s' should list%s but lists%s", kind(), name.c_str(), a.c_str(), b.c_str());
            }
            if (f->constructors().size() != keys.size())
                fail("C15:wrong names", "%s has %d constructors instead of %d", kind(), (int)f->constructors().size(), (int)keys.size());
            for (auto& x : entries)
                if (f->getConstructor(x.first) != constructor(x.second) or not f->hasConstructor(x.first)
                    or f->constructors().find(x.first)->second != constructor(x.second))
                    fail("C15:wrong kind", "%s has another constructor for '%s'", kind(), x.first.c_str());
            for (auto& k : KEYS)
                if (not entries.count(k) and (f->hasConstructor(k) or f->getConstructor(k)))
                    fail("C15:wrong names", "%s has '%s', which is not registered", kind(), k.c_str());
        }
        Box* with(F* f) const {
            Maker* r = new Maker(*this);
            r->real = f;
            return r;
        }
        Box* copied() override {
            F* f = nullptr;
            bool clone = chance(1, 2);
            Ended e = faulty([&] { f = clone ? real->clone() : new F(*real); });
            regular(e, "copying a factory");
            return f ? with(f) : nullptr;
        }
        void assign(Box* other) override {
            Maker* o = static_cast<Maker*>(other);
            Ended e = faulty([&] { *real = *o->real; });
            regular(e, "assigning a factory");
            if (e.ok() and o != this) {
                name = o->name;
                entries = o->entries;
            }
        }
        void move(Box* other) override {
            Maker* o = static_cast<Maker*>(other);
            Ended e = lib([&] { *real = std::move(*o->real); });
            regular(e, "moving a factory");
            name = o->name;
            entries = o->entries;
            o->destroy();
        }
        Box* constructFrom(Box* other) override {
            Maker* o = static_cast<Maker*>(other);
            F* f = nullptr;
            Ended e = faulty([&] { f = new F(std::move(*o->real)); });
            regular(e, "moving a factory");
            if (e.oom)
                return nullptr;  // nothing was moved if the new factory could not be allocated
            o->destroy();
            return with(f);
        }
        Box* cloneModel(fl::FactoryManager* m) override {
            if (not A::get(m) or A::get(m) == real)
                fail("C15:shared factory", "the copy of a factory manager %s", A::get(m) ? "holds a factory of its source" : "lacks a factory");
            return with(A::get(m));
        }
        void give(fl::FactoryManager* m) override {
            lib([&] { A::set(m, real); });
        }
        bool heldBy(fl::FactoryManager* m) const override {
            return A::get(m) == real;
        }
        void destroy() override {
            lib([&] { delete real; });
            real = nullptr;
        }
    };

    struct Elements : Box {
        typedef fl::Function::Element Element;
        struct Entry {
            Element* object;
            std::string name;
            Element::Type type;
            fl::Function::Unary unary;
            fl::Function::Binary binary;
            int arity, precedence, associativity;
            bool mine;
            Entry() : object(nullptr), type(Element::Operator), unary(nullptr), binary(nullptr), arity(0), precedence(0), associativity(0), mine(false) {}
            explicit Entry(Element* e) :
                object(e), name(e->name), type(e->type), unary(e->unary), binary(e->binary), arity(e->arity), precedence(e->precedence),
                associativity(e->associativity), mine(dynamic_cast<MyElement*>(e)) {}
            bool same(const Element* e) const {
                return e->name == name and e->type == type and e->unary == unary and e->binary == binary and e->arity == arity
                       and e->precedence == precedence and e->associativity == associativity and (dynamic_cast<const MyElement*>(e) != nullptr) == mine
                       and e->isOperator() == (type == Element::Operator) and e->isFunction() == (type == Element::Function);
            }
        };
        fl::FunctionFactory* real = nullptr;
        std::string name;
        std::map<std::string, Entry> entries;

        static std::map<std::string, Entry>& builtIn() {
            static std::map<std::string, Entry> b;
            return b;
        }
        static void prepare() {
            fl::FunctionFactory f;
            builtIn().clear();
            for (auto& x : f.objects())
                builtIn()[x.first] = Entry(x.second);
        }
        // takes the identities of the objects from the factory, which must be copies of those of the model
        void adopt(const std::map<std::string, Entry>& source, bool sameObjects) {
            const fl::FunctionFactory* f = real;
            for (auto& x : source) {
                auto it = f->objects().find(x.first);
                if (it == f->objects().end())
                    fail("C15:wrong names", "a copy of a function factory lacks '%s'", x.first.c_str());
                if (sameObjects)
                    continue;
                if (it->second and it->second == x.second.object)
                    fail("C15:shared object", "a copy of a function factory shares '%s' with its source", x.first.c_str());
            }
            std::map<std::string, Entry> r = source;
            if (not sameObjects)
                for (auto& x : r)
                    x.second.object = x.second.object ? f->objects().find(x.first)->second : nullptr;
            entries.swap(r);
        }
        static Elements* make() {
            std::unique_ptr<Elements> r(new Elements);
            bool named = chance(1, 2);
            r->name = named ? pick(KEYS) : "";
            Ended e = faulty([&] { r->real = named ? new fl::FunctionFactory(r->name) : new fl::FunctionFactory; });
            regular(e, "creating a factory");
            if (e.oom)
                return nullptr;
            if (not named)
                r->name = r->real->name();
            r->adopt(builtIn(), false);
            return r.release();
        }
        const char* kind() const override {
            return "FunctionFactory";
        }
        size_t owned() const override {
            size_t n = 0;
            for (auto& x : entries)
                n += x.second.object and x.second.mine;
            return n;
        }
        std::string anyKey() {
            static const std::vector<std::string> keys = {"f", "g", "@", "$", "&", "sin", "pow", "+", "^", "and", ""};
            if (chance(1, 3) and not entries.empty()) {
                auto it = entries.begin();
                std::advance(it, draw((uint32_t)entries.size()));
                return it->first;
            }
            return chance(1, 8) ? pick(KEYS) : pick(keys);
        }
        void edit() override {
            std::string key = anyKey();
            auto it = entries.find(key);
            bool known = it != entries.end();
            const char* what = "";
            Ended e;
            switch (weighted({5, 3, 4, 1, 1})) {
                case 0: {
                    what = "register";
                    Element* o = nullptr;
                    bool null = chance(1, 12);
                    bool again = known and it->second.object and chance(1, 6);
                    if (again)
                        o = it->second.object;  // the same object once more
                    else if (not null) {
                        bool symbol = not key.empty() and not isalpha((unsigned char)key[0]);
                        auto type = symbol ? Element::Operator : Element::Function;
                        int method = draw(4), precedence = range(0, 12) * 10;
                        bool plain = chance(1, 4);
                        lib([&] {
                            if (plain)
                                o = new Element(key, "", type, &plus1, precedence, 1);
                            else
                                o = new MyElement(key, type, method, precedence);
                        });
                    }
                    Entry n = o ? Entry(o) : Entry();
                    e = faulty([&] { real->registerObject(key, o); });
                    regular(e, "registering");
                    if (e.ok())
                        entries[key] = n;
                    break;
                }
                case 1:
                    what = "deregister";
                    e = faulty([&] { real->deregisterObject(key); });
                    regular(e, "deregistering");
                    if (e.ok())
                        entries.erase(key);
                    break;
                case 2: {
                    what = "clone";
                    Element* c = nullptr;
                    e = faulty([&] { c = real->cloneObject(key); });
                    if (e.oom)
                        break;
                    if (e.ok() != known)
                        fail("C15:not rejected", "the function factory gives '%s' %s", key.c_str(), e.ok() ? "although it is not registered" : e.what.c_str());
                    if (not known)
                        break;
                    evaluated();
                    Entry m = it->second;
                    if ((c == nullptr) != (m.object == nullptr) or (c and (c == m.object or not m.same(c))))
                        fail("C15:wrong kind", "the clone of '%s' is not a clone of what is registered", key.c_str());
                    if (not c)
                        break;
                    if (kept.size() > 60) {
                        lib([&] { delete c; });
                        break;
                    }
                    kept.push_back({[c, m] {
                                        if (not m.same(c))
                                            fail("C15:object changed", "a clone of '%s' changed", m.name.c_str());
                                    },
                                    [c] { lib([&] { delete c; }); }, m.mine});
                    break;
                }
                case 3:
                    what = "clear";
                    if (chance(1, 2))
                        return;
                    lib([&] { real->clear(); });
                    entries.clear();
                    break;
                default: {
                    what = "get";
                    Element* o = real->getObject(key);
                    if (o != (known ? it->second.object : nullptr))
                        fail("C15:wrong kind", "the function factory gets another object for '%s'", key.c_str());
                }
            }
            trace("FunctionFactory %s: %s '%s': %s", name.c_str(), what, key.substr(0, 20).c_str(), outcome(e));
            state(hashOf(std::string("function") + what) + known * 4 + (e.oom ? 1 : e.threw ? 2 : 3));
        }
        void check() override {
            const fl::FunctionFactory* f = real;
            if (f->name() != name)
                fail("C15:factory changed", "FunctionFactory '%s' is now called '%s'", name.c_str(), f->name().c_str());
            std::vector<std::string> keys, operators, functions;
            for (auto& x : entries) {
                keys.push_back(x.first);
                if (x.second.object)
                    (x.second.type == Element::Operator ? operators : functions).push_back(x.first);
            }
            evaluated();
            if (f->available() != keys or f->objects().size() != keys.size())
                fail("C15:wrong names", "the function factory '%s' does not list the registered names", name.c_str());
            if (f->availableOperators() != operators or f->availableFunctions() != functions)
                fail("C15:wrong names", "the function factory '%s' lists other operators or functions than registered", name.c_str());
            for (auto& x : entries) {
                const Element* o = f->getObject(x.first);
                if (o != x.second.object or not f->hasObject(x.first) or f->objects().find(x.first)->second != o)
                    fail("C15:wrong kind", "the function factory holds another object for '%s'", x.first.c_str());
                if (o and not x.second.same(o))
                    fail("C15:object changed", "the object registered as '%s' changed", x.first.c_str());
            }
            for (auto& k : KEYS)
                if (not entries.count(k) and (f->hasObject(k) or f->getObject(k)))
                    fail("C15:wrong names", "the function factory has '%s', which is not registered", k.c_str());
        }
        Box* with(fl::FunctionFactory* f) const {
            std::unique_ptr<Elements> r(new Elements);
            r->real = f;
            r->name = name;
            r->adopt(entries, false);
            return r.release();
        }
        Box* copied() override {
            fl::FunctionFactory* f = nullptr;
            bool clone = chance(1, 2);
            Ended e = faulty([&] { f = clone ? real->clone() : new fl::FunctionFactory(*real); });
            regular(e, "copying a factory");
            return f ? with(f) : nullptr;
        }
        void assign(Box* other) override {
            Elements* o = static_cast<Elements*>(other);
            Ended e = faulty([&] { *real = *o->real; });
            regular(e, "assigning a factory");
            if (e.ok() and o != this) {
                name = o->name;
                adopt(o->entries, false);
            }
        }
        void move(Box* other) override {
            Elements* o = static_cast<Elements*>(other);
            Ended e = lib([&] { *real = std::move(*o->real); });
            regular(e, "moving a factory");
            name = o->name;
            entries = o->entries;
            o->destroy();
        }
        Box* constructFrom(Box* other) override {
            Elements* o = static_cast<Elements*>(other);
            fl::FunctionFactory* f = nullptr;
            Ended e = faulty([&] { f = new fl::FunctionFactory(std::move(*o->real)); });
            regular(e, "moving a factory");
            if (e.oom)
                return nullptr;
            o->destroy();
            Elements* r = new Elements(*o);
            r->real = f;
            return r;
        }
        Box* cloneModel(fl::FactoryManager* m) override {
            if (not m->function() or m->function() == real)
                fail("C15:shared factory", "the copy of a factory manager %s", m->function() ? "holds a factory of its source" : "lacks a factory");
            return with(m->function());
        }
        void give(fl::FactoryManager* m) override {
            lib([&] { m->setFunction(real); });
        }
        bool heldBy(fl::FactoryManager* m) const override {
            return m->function() == real;
        }
        void destroy() override {
            lib([&] { delete real; });
            real = nullptr;
        }
    };

    typedef Maker<fl::TNormFactory, fl::TNorm> TNorms;
    typedef Maker<fl::SNormFactory, fl::SNorm> SNorms;
    typedef Maker<fl::ActivationFactory, fl::Activation> Activations;
    typedef Maker<fl::DefuzzifierFactory, fl::Defuzzifier> Defuzzifiers;
    typedef Maker<fl::TermFactory, fl::Term> Terms;
    typedef Maker<fl::HedgeFactory, fl::Hedge> Hedges;
    const int SLOTS = 7;

    Box* makeBox(int slot) {
        switch (slot) {
            case 0: return TNorms::make();
            case 1: return SNorms::make();
            case 2: return Activations::make();
            case 3: return Defuzzifiers::make();
            case 4: return Terms::make();
            case 5: return Hedges::make();
            default: return Elements::make();
        }
    }
    bool holdsNull(fl::FactoryManager* m, int slot) {
        switch (slot) {
            case 0: return not m->tnorm();
            case 1: return not m->snorm();
            case 2: return not m->activation();
            case 3: return not m->defuzzifier();
            case 4: return not m->term();
            case 5: return not m->hedge();
            default: return not m->function();
        }
    }
    void setNull(fl::FactoryManager* m, int slot) {
        lib([&] {
            switch (slot) {
                case 0: m->setTnorm(nullptr); break;
                case 1: m->setSnorm(nullptr); break;
                case 2: m->setActivation(nullptr); break;
                case 3: m->setDefuzzifier(nullptr); break;
                case 4: m->setTerm(nullptr); break;
                case 5: m->setHedge(nullptr); break;
                default: m->setFunction(nullptr);
            }
        });
    }

    struct Manager {
        fl::FactoryManager* real = nullptr;
        Box* slots[SLOTS] = {};
        void drop(int k) {
            delete slots[k];
            slots[k] = nullptr;
        }
        void copyOf(const Manager& o) {
            for (int k = 0; k < SLOTS; ++k) {
                Box* n = nullptr;
                if (o.slots[k])
                    n = o.slots[k]->cloneModel(real);
                drop(k);
                slots[k] = n;
            }
        }
        void check() {
            for (int k = 0; k < SLOTS; ++k) {
                if (slots[k] ? not slots[k]->heldBy(real) : not holdsNull(real, k))
                    fail("C15:wrong factory", "a factory manager holds another factory than it was given (%d)", k);
                if (slots[k])
                    slots[k]->check();
            }
        }
    };

    bool same(double a, double b) {
        return a == b or (a != a and b != b) or std::fabs(a - b) < 1e-9;
    }
    struct World {
        std::vector<Manager*> managers;  // the first one is that of the library
        std::vector<std::pair<int, Box*>> loose;
        fl::Engine* engine = nullptr;
        fl::FactoryManager* original = nullptr;  // what the library started with

        std::pair<int, Box*> anyBox() {
            std::vector<std::pair<int, Box*>> all = loose;
            for (auto* m : managers)
                for (int k = 0; k < SLOTS; ++k)
                    if (m->slots[k])
                        all.push_back({k, m->slots[k]});
            return pick(all);
        }
        void begin() {
            Manager* m = new Manager;
            m->real = fl::FactoryManager::instance();
            managers.push_back(m);
            auto attach = [&](int k, Box* b) { m->slots[k] = b; };
            attach(0, attached<TNorms>(m->real->tnorm()));
            attach(1, attached<SNorms>(m->real->snorm()));
            attach(2, attached<Activations>(m->real->activation()));
            attach(3, attached<Defuzzifiers>(m->real->defuzzifier()));
            attach(4, attached<Terms>(m->real->term()));
            attach(5, attached<Hedges>(m->real->hedge()));
            Elements* f = new Elements;
            f->real = m->real->function();
            f->name = f->real->name();
            f->adopt(Elements::builtIn(), false);
            attach(6, f);
            lib([&] {
                engine = new fl::Engine("user");
                auto* in = new fl::InputVariable("in", 0, 1);
                in->addTerm(new fl::Triangle("t", 0, 0.5, 1));
                engine->addInputVariable(in);
                auto* out = new fl::OutputVariable("out", 0, 1);
                out->addTerm(new fl::Triangle("t", 0, 0.5, 1));
                engine->addOutputVariable(out);
                engine->addRuleBlock(new fl::RuleBlock("block"));
            });
        }
        template <class M, class F>
        M* attached(F* f) {
            M* r = new M;
            r->real = f;
            r->name = f->name();
            for (size_t i = 0; i < M::builtIn().size(); ++i)
                r->entries[M::builtIn()[i].first] = (int)i;
            if (f->hasConstructor(""))
                r->entries[""] = NONE;
            return r;
        }

        // ------------------------------------------------------------------------------------------------ the library's own uses
        template <class M>
        M* slot(int k) {
            return static_cast<M*>(managers[0]->slots[k]);
        }
        template <class M, class T>
        void confirm(M* m, const std::string& key, const T* is) {
            evaluated();
            int id = m->entries.at(key);
            std::string now = is ? nameOf(is) : "nothing";
            std::string expected = id == NONE ? "nothing" : M::className(id);
            if (now != expected)
                fail("C15:wrong kind", "the library uses %s for '%s', where %s is registered", now.c_str(), key.c_str(), expected.c_str());
        }
        void use() {
            for (int k = 0; k < SLOTS; ++k)
                if (not managers[0]->slots[k])
                    return;
            switch (draw(5)) {
                case 0:
                    useConfigure();
                    break;
                case 1:
                    useImport();
                    break;
                case 2:
                    useTerm();
                    break;
                case 3:
                    useHedge();
                    break;
                default:
                    useFormula();
            }
        }
        void useConfigure() {
            auto *t = slot<TNorms>(0);
            auto *s = slot<SNorms>(1);
            auto *a = slot<Activations>(2);
            auto *d = slot<Defuzzifiers>(3);
            std::string c = t->anyKey(), dj = s->anyKey(), im = t->anyKey(), ag = s->anyKey(), de = d->anyKey(), ac = a->anyKey();
            bool known = t->entries.count(c) and s->entries.count(dj) and t->entries.count(im) and s->entries.count(ag) and d->entries.count(de)
                         and a->entries.count(ac);
            Ended e = faulty([&] { engine->configure(c, dj, im, ag, de, ac); });
            trace("configure: %s", outcome(e));
            if (e.oom)
                return;
            if (e.ok() != known)
                fail("C15:not rejected", "Engine::configure(%s, %s, %s, %s, %s, %s) %s", c.c_str(), dj.c_str(), im.c_str(), ag.c_str(), de.c_str(), ac.c_str(),
                     e.ok() ? "accepted a name that is not registered" : e.what.c_str());
            if (not known)
                return;
            auto* b = engine->getRuleBlock(0);
            auto* o = engine->getOutputVariable(0);
            confirm(t, c, b->getConjunction());
            confirm(s, dj, b->getDisjunction());
            confirm(t, im, b->getImplication());
            if (a->entries[ac] != NONE)  // a rule block without activation method gets the usual one
                confirm(a, ac, b->getActivation());
            confirm(s, ag, o->getAggregation());
            confirm(d, de, o->getDefuzzifier());
        }
        static bool word(const std::string& k) {
            return not k.empty() and k.find(' ') == std::string::npos;
        }
        void useImport() {
            auto *t = slot<TNorms>(0);
            auto *a = slot<Activations>(2);
            auto *d = slot<Defuzzifiers>(3);
            int which = draw(3);
            std::string key = which == 0 ? t->anyKey() : which == 1 ? a->anyKey() : d->anyKey();
            if (not word(key))
                return;
            bool known = which == 0 ? t->entries.count(key) : which == 1 ? a->entries.count(key) : d->entries.count(key);
            if (which == 1 and t->entries.count(key))
                return;  // in files of old versions
            if (known and which and (which == 1 ? a->entries[key] : d->entries[key]) == NONE)
                return;  // the importers do not expect these
            std::string text = "Engine: e\nOutputVariable: y\n  range: 0 1\n" + (which == 2 ? "  defuzzifier: " + key + "\n" : std::string()) + "RuleBlock: b\n"
                               + (which == 0 ? "  implication: " + key + "\n" : which == 1 ? "  activation: " + key + "\n" : std::string());
            fl::Engine* x = nullptr;
            Ended e = faulty([&] { x = fl::FllImporter().fromString(text); });
            trace("import '%s' %d: %s", key.c_str(), which, outcome(e));
            if (e.oom)
                return;
            if (e.ok() != known)
                fail("C15:not rejected", "importing an engine that uses '%s': %s", key.c_str(), e.ok() ? "accepted although it is not registered" : e.what.c_str());
            if (not known)
                return;
            if (which == 0)
                confirm(t, key, x->getRuleBlock(0)->getImplication());
            else if (which == 1)
                confirm(a, key, x->getRuleBlock(0)->getActivation());
            else
                confirm(d, key, x->getOutputVariable(0)->getDefuzzifier());
            lib([&] { delete x; });
        }
        void useTerm() {
            auto* m = slot<Terms>(4);
            std::string key = m->anyKey();
            if (not word(key))
                return;
            bool known = m->entries.count(key);
            int id = known ? m->entries[key] : NONE;
            if (known and id < (int)Terms::builtIn().size())
                return;  // they need parameters
            int format = draw(3);
            std::string text = format == 0 ? "InputVariable: x\n  term: a " + key + "\n"
                                           : "FUNCTION_BLOCK e\nVAR_INPUT\n x: REAL;\nEND_VAR\nFUZZIFY x\n TERM a := " + key + ";\nEND_FUZZIFY\nEND_FUNCTION_BLOCK\n";
            fl::Engine* x = nullptr;
            Ended e = faulty([&] { x = format == 0 ? fl::FllImporter().fromString(text) : fl::FclImporter().fromString(text); });
            trace("term '%s': %s", key.c_str(), outcome(e));
            if (e.oom)
                return;
            if (e.ok() != known)
                fail("C15:not rejected", "importing an engine with a term of class '%s': %s", key.c_str(),
                     e.ok() ? "accepted although it is not registered" : e.what.c_str());
            if (not known)
                return;
            confirm(m, key, x->getInputVariable(0)->getTerm(0));
            lib([&] { delete x; });
        }
        void useHedge() {
            auto* m = slot<Hedges>(5);
            std::string key = m->anyKey();
            if (not word(key))
                return;
            bool known = m->entries.count(key);
            int id = known ? m->entries[key] : NONE;
            if (known and id == NONE)
                return;
            if (slot<Elements>(6)->entries.count(key))
                return;  // the name of a function means that function
            bool inConsequent = chance(1, 3);
            if (known and Hedges::className(id) == "any" and not inConsequent)
                return;  // needs no term
            std::string text = inConsequent ? "if in is t then out is " + key + " t" : "if in is " + key + " t then out is t";
            fl::Rule* r = nullptr;
            Ended e = faulty([&] { r = fl::Rule::parse(text, engine); });
            trace("rule '%s': %s", text.c_str(), outcome(e));
            if (e.oom)
                return;
            if (e.ok() != known)
                fail("C15:not rejected", "the rule '%s': %s", text.c_str(), e.ok() ? "accepted although its hedge is not registered" : e.what.c_str());
            if (not known)
                return;
            fl::Proposition* p = inConsequent ? r->getConsequent()->conclusions().front() : dynamic_cast<fl::Proposition*>(r->getAntecedent()->getExpression());
            if (not p or p->hedges.size() != 1)
                fail("C15:wrong kind", "the rule '%s' does not hold its hedge", text.c_str());
            confirm(m, key, p->hedges.front());
            lib([&] { delete r; });
        }
        void useFormula() {
            auto* m = slot<Elements>(6);
            std::string key = m->anyKey();
            static const std::set<std::string> basic = {"f", "g", "@", "$", "&", "sin", "pow", "mine", "other"};
            if (not basic.count(key))
                return;
            auto it = m->entries.find(key);
            bool known = it != m->entries.end() and it->second.object;
            Elements::Entry x = known ? it->second : Elements::Entry();
            bool symbol = not isalpha((unsigned char)key[0]);
            // names of functions only mean functions if they are registered
            int arity = known ? x.arity : 1;
            std::string text = symbol ? (arity == 1 ? key + " 2" : "2 " + key + " 3") : (arity == 1 ? key + "(2)" : key + "(2,3)");
            fl::Function* f = nullptr;
            Ended e = faulty([&] { f = fl::Function::create("formula", text); });
            trace("formula '%s': %s", text.c_str(), outcome(e));
            if (e.oom)
                return;
            if (not known) {
                // the name is taken for that of a variable, which does not exist
                if (e.ok())
                    fail("C15:not rejected", "the formula '%s' was accepted although its function is not registered", text.c_str());
                return;
            }
            if (not e.ok())
                fail("C15:not made", "the formula '%s': %s", text.c_str(), e.what.c_str());
            double expected = x.arity == 1 ? x.unary(2) : x.binary(2, 3);
            double got = f->membership(0);
            evaluated();
            if (not same(got, expected))
                fail("C15:wrong kind", "the formula '%s' gives %g instead of %g of the function registered", text.c_str(), got, expected);
            bool mine = f->root()->element.get() and dynamic_cast<MyElement*>(f->root()->element.get());
            if (mine != x.mine or f->root()->element.get() == x.object)
                fail("C15:wrong kind", "the formula '%s' does not hold a clone of the element registered", text.c_str());
            if (kept.size() > 60) {
                lib([&] { delete f; });
                return;
            }
            kept.push_back({[f, expected, text] {
                                double now = f->membership(0);
                                if (not same(now, expected))
                                    fail("C15:object changed", "the formula '%s' gave %g and now gives %g", text.c_str(), expected, now);
                            },
                            [f] { lib([&] { delete f; }); }, x.mine});
        }

        // ------------------------------------------------------------------------------------------------ edits of managers and factories
        void newManager() {
            if (managers.size() >= 4)
                return;
            std::unique_ptr<Manager> m(new Manager);
            switch (draw(4)) {
                case 0: {
                    Ended e = faulty([&] { m->real = new fl::FactoryManager; });
                    regular(e, "creating a factory manager");
                    if (e.oom)
                        return;
                    m->slots[0] = attached<TNorms>(m->real->tnorm());
                    m->slots[1] = attached<SNorms>(m->real->snorm());
                    m->slots[2] = attached<Activations>(m->real->activation());
                    m->slots[3] = attached<Defuzzifiers>(m->real->defuzzifier());
                    m->slots[4] = attached<Terms>(m->real->term());
                    m->slots[5] = attached<Hedges>(m->real->hedge());
                    Elements* f = new Elements;
                    f->real = m->real->function();
                    f->name = f->real->name();
                    f->adopt(Elements::builtIn(), false);
                    m->slots[6] = f;
                    trace("new manager");
                    break;
                }
                case 1: {
                    // of given factories, some missing
                    fl::FactoryManager* r = nullptr;
                    lib([&] { r = new fl::FactoryManager(nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr); });
                    m->real = r;
                    trace("empty manager");
                    break;
                }
                default: {
                    Manager* o = pick(managers);
                    bool clone = chance(1, 2);
                    Ended e = faulty([&] { m->real = clone ? o->real->clone() : new fl::FactoryManager(*o->real); });
                    regular(e, "copying a factory manager");
                    trace("copy of a manager: %s", outcome(e));
                    if (e.oom)
                        return;
                    m->copyOf(*o);
                }
            }
            managers.push_back(m.release());
        }
        void assignManager() {
            Manager* m = pick(managers);
            Manager* o = pick(managers);
            if (m == managers[0])
                for (auto* b : o->slots)
                    if (not b)
                        return;
            bool moved = o != managers[0] and o != m and chance(1, 3);
            if (moved) {
                bool construct = chance(1, 3);
                if (construct) {
                    fl::FactoryManager* n = nullptr;
                    Ended e = faulty([&] { n = new fl::FactoryManager(std::move(*o->real)); });
                    regular(e, "moving a factory manager");
                    if (e.oom)
                        return;
                    lib([&] { delete o->real; });
                    o->real = n;
                    trace("manager moved to another place");
                    return;
                }
                Ended e = lib([&] {
                    *m->real = std::move(*o->real);
                    delete o->real;
                });
                regular(e, "moving a factory manager");
                for (int k = 0; k < SLOTS; ++k) {
                    m->drop(k);
                    std::swap(m->slots[k], o->slots[k]);
                }
                forgetManager(o);
                trace("manager moved onto another");
                return;
            }
            Ended e = faulty([&] { *m->real = *o->real; });
            regular(e, "assigning a factory manager");
            trace("assign a manager%s: %s", o == m ? " to itself" : "", outcome(e));
            if (e.ok() and o != m)
                m->copyOf(*o);
        }
        void forgetManager(Manager* m) {
            for (int k = 0; k < SLOTS; ++k)
                m->drop(k);
            managers.erase(std::find(managers.begin(), managers.end(), m));
            delete m;
        }
        void give() {
            Manager* m = pick(managers);
            if (loose.empty() or chance(1, 6)) {
                if (m == managers[0])
                    return;
                int k = draw(SLOTS);
                setNull(m->real, k);
                m->drop(k);
                trace("no factory %d", k);
                return;
            }
            size_t i = draw((uint32_t)loose.size());
            auto b = loose[i];
            loose.erase(loose.begin() + i);
            b.second->give(m->real);
            m->drop(b.first);
            m->slots[b.first] = b.second;
            trace("manager given %s", b.second->kind());
        }
        void newBox() {
            if (loose.size() >= 8)
                return;
            if (chance(1, 3)) {
                int slot = draw(SLOTS);
                if (Box* b = makeBox(slot))
                    loose.push_back({slot, b});
                trace("new factory %d", slot);
                return;
            }
            auto b = anyBox();
            Box* c = b.second->copied();
            trace("copy of %s: %s", b.second->kind(), c ? "ok" : "out of memory");
            if (c)
                loose.push_back({b.first, c});
        }
        void assignBox() {
            auto a = anyBox();
            std::vector<Box*> same;
            for (auto& x : loose)
                if (x.first == a.first)
                    same.push_back(x.second);
            for (auto* m : managers)
                if (m->slots[a.first])
                    same.push_back(m->slots[a.first]);
            Box* b = pick(same);
            auto it = std::find_if(loose.begin(), loose.end(), [&](const std::pair<int, Box*>& x) { return x.second == b; });
            if (it != loose.end() and b != a.second and chance(1, 3)) {
                if (chance(1, 3)) {
                    Box* n = b->constructFrom(b);
                    trace("%s moved to another place", b->kind());
                    if (n) {
                        it->second = n;
                        delete b;
                    }
                    return;
                }
                a.second->move(b);
                trace("%s moved onto another", b->kind());
                loose.erase(it);
                delete b;
                return;
            }
            a.second->assign(b);
            trace("assign %s%s", b->kind(), b == a.second ? " to itself" : "");
        }
        void destroy() {
            if (chance(1, 3) and managers.size() > 1) {
                Manager* m = managers[range(1, (int)managers.size() - 1)];
                lib([&] { delete m->real; });
                forgetManager(m);
                trace("manager destroyed");
            } else if (not loose.empty()) {
                size_t i = draw((uint32_t)loose.size());
                Box* b = loose[i].second;
                b->destroy();
                trace("%s destroyed", b->kind());
                loose.erase(loose.begin() + i);
                delete b;
            }
        }
        void checkAll(bool full) {
            size_t expected = 0;
            for (auto* m : managers) {
                if (full)
                    m->check();
                expected += m->slots[6] ? m->slots[6]->owned() : 0;
            }
            for (auto& x : loose) {
                if (full)
                    x.second->check();
                expected += x.second->owned();
            }
            for (auto& k : kept) {
                if (full)
                    k.check();
                expected += k.owned;
            }
            // what the engine holds of the user
            auto of = [](const std::string& n) { return n.compare(0, 4, "Mine") == 0; };
            auto* b = engine->getRuleBlock(0);
            auto* o = engine->getOutputVariable(0);
            expected += b->getConjunction() and of(b->getConjunction()->className());
            expected += b->getDisjunction() and of(b->getDisjunction()->className());
            expected += b->getImplication() and of(b->getImplication()->className());
            expected += b->getActivation() and of(b->getActivation()->className());
            expected += o->getAggregation() and of(o->getAggregation()->className());
            expected += o->getDefuzzifier() and of(o->getDefuzzifier()->className());
            evaluated();
            if (alive.size() != expected)
                fail("C15:released", "%d components of the user exist, but %d are held", (int)alive.size(), (int)expected);
        }
        void end() {
            for (auto& k : kept)
                k.destroy();
            kept.clear();
            for (auto& x : loose) {
                x.second->destroy();
                delete x.second;
            }
            loose.clear();
            while (managers.size() > 1) {
                lib([&] { delete managers.back()->real; });
                forgetManager(managers.back());
            }
            lib([&] { delete engine; });
            // the library's own factories as they were
            Manager* m = managers[0];
            for (int k = 0; k < SLOTS; ++k)
                setNull(m->real, k);
            forgetManager(m);
            if (not alive.empty())
                fail("C15:released", "%d components of the user were never released", (int)alive.size());
            lib([&] {
                fl::FactoryManager* g = fl::FactoryManager::instance();
                *g = std::move(*original);
                delete original;
            });
        }
    };

    void story() {
        mem::Off off;
        TNorms::prepare();
        SNorms::prepare();
        Activations::prepare();
        Defuzzifiers::prepare();
        Terms::prepare();
        Hedges::prepare();
        Elements::prepare();
        World w;
        w.original = new fl::FactoryManager;  // before tracking, they remain
        mem::begin();
        w.begin();
        w.checkAll(true);
        int steps = range(8, thorough() ? 250 : 110);
        for (int n = 0; n < steps; ++n) {
            switch (weighted({14, 7, 3, 2, 2, 3, 3, 2})) {
                case 0:
                    {
                        Box* b = w.anyBox().second;
                        b->edit();
                        b->check();
                    }
                    break;
                case 1:
                    w.use();
                    break;
                case 2:
                    w.managers[0]->slots[draw(SLOTS)]->edit();
                    break;
                case 3:
                    w.newManager();
                    break;
                case 4:
                    w.assignManager();
                    break;
                case 5:
                    w.newBox();
                    break;
                case 6:
                    w.assignBox();
                    break;
                default:
                    chance(1, 2) ? w.give() : w.destroy();
            }
            w.checkAll(n % 5 == 4 or n + 1 == steps);
        }
        w.end();
        mem::end();
    }
}

static void run() {
    uint32_t from = mark();
    story();
    if (mem::live()) {
        // memory that the library keeps for later is not lost: only what is left over by the same operations once more counts
        mem::forget();
        reread(from);
        story();
        rereadDone();
        if (mem::live()) {
            uint64_t n = mem::live();
            std::string what = mem::liveSummary();
            fail("C15:never released", "%d blocks of memory were never released, among them %s", (int)n, what.c_str());
        }
    }
    nontrivial();
}
static Property p("C15", run);
