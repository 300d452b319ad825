From 4fabb83a6332598f9656701105c1610b7a2a4427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 01/21] fix: engine copies keep the state of rules

Copying an engine reloads the rules of the copy, which enabled the disabled
rules, reset the weights set by setWeight(), discarded the activation degrees
and whether the rules were triggered, and loaded rules that were not loaded.
---
 src/Engine.cpp    | 22 +++++++++++++++++-----
 src/rule/Rule.cpp |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..0fbdd7f 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -93,11 +93,23 @@ namespace fuzzylite {
         updateReferences();
 
         for (std::size_t i = 0; i < other._ruleBlocks.size(); ++i) {
-            RuleBlock* ruleBlock = new RuleBlock(*other._ruleBlocks.at(i));
-            try {
-                ruleBlock->loadRules(this);
-            } catch (...) {
-                // ignore
+            const RuleBlock* source = other._ruleBlocks.at(i);
+            RuleBlock* ruleBlock = new RuleBlock(*source);
+            for (std::size_t r = 0; r < source->numberOfRules(); ++r) {
+                const Rule* sourceRule = source->getRule(r);
+                if (not sourceRule->isLoaded())
+                    continue;
+                Rule* rule = ruleBlock->getRule(r);
+                try {
+                    rule->load(this);
+                } catch (...) {
+                    // ignore
+                }
+                // loading a rule resets its state
+                rule->setEnabled(sourceRule->isEnabled());
+                rule->setWeight(sourceRule->getWeight());
+                rule->setActivationDegree(sourceRule->getActivationDegree());
+                rule->setTriggered(sourceRule->isTriggered());
             }
             _ruleBlocks.push_back(ruleBlock);
         }
diff --git a/src/rule/Rule.cpp b/src/rule/Rule.cpp
index f14c0f6..7ac3ffc 100644
--- a/src/rule/Rule.cpp
+++ b/src/rule/Rule.cpp
@@ -37,7 +37,7 @@ namespace fuzzylite {
         _text(other._text),
         _weight(other._weight),
         _activationDegree(other._activationDegree),
-        _triggered(false),
+        _triggered(other._triggered),
         _antecedent(new Antecedent),
         _consequent(new Consequent) {}
 
-- 
2.43.0


From 167174f8b6da8dfdc74476cb98eec113ccb734e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 02/21] fix: fuzzy outputs of copies refer to their own terms

The activated terms in the fuzzy output of a copied output variable or engine
pointed to the terms and implication operators of the original, and dangled
once the original was destroyed.
---
 src/Engine.cpp                  | 13 +++++++++++++
 src/variable/OutputVariable.cpp |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 0fbdd7f..e11dc03 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -113,6 +113,19 @@ namespace fuzzylite {
             }
             _ruleBlocks.push_back(ruleBlock);
         }
+
+        // the activated terms of the copy refer to its own implication operators
+        for (std::size_t i = 0; i < _outputVariables.size(); ++i) {
+            std::vector<Activated>& activatedTerms = _outputVariables.at(i)->fuzzyOutput()->terms();
+            for (std::size_t t = 0; t < activatedTerms.size(); ++t) {
+                const TNorm* implication = activatedTerms.at(t).getImplication();
+                for (std::size_t r = 0; implication and r < other._ruleBlocks.size(); ++r)
+                    if (implication == other._ruleBlocks.at(r)->getImplication()) {
+                        activatedTerms.at(t).setImplication(_ruleBlocks.at(r)->getImplication());
+                        break;
+                    }
+            }
+        }
     }
 
     void Engine::updateReferences() const {
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..7101d20 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,14 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms of the copy refer to its own terms
+        std::vector<Activated>& activatedTerms = _fuzzyOutput->terms();
+        for (std::size_t i = 0; i < activatedTerms.size(); ++i)
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t)
+                if (activatedTerms.at(i).getTerm() == other.getTerm(t)) {
+                    activatedTerms.at(i).setTerm(getTerm(t));
+                    break;
+                }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From 3e80910a22812609448e9ee8aeff94c3099405b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 03/21] fix: parsing of antecedents, consequents and formulas
 loses no memory when it fails

---
 src/rule/Antecedent.cpp | 31 +++++++++++++++---------------
 src/rule/Consequent.cpp | 12 +++++++-----
 src/term/Function.cpp   | 42 +++++++++++++++++++++++++----------------
 3 files changed, 49 insertions(+), 36 deletions(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..97f6e3b 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -193,9 +193,10 @@ namespace fuzzylite {
                     else if (engine->hasOutputVariable(token))
                         variable = engine->getOutputVariable(token);
                     if (variable) {
-                        proposition = new Proposition;
-                        proposition->variable = variable;
-                        expressionStack.push(proposition);
+                        FL_unique_ptr<Proposition> newProposition(new Proposition);
+                        newProposition->variable = variable;
+                        expressionStack.push(newProposition.get());
+                        proposition = newProposition.release();
 
                         state = S_IS;
                         FL_DBG("Token <" << token << "> is variable");
@@ -214,9 +215,9 @@ namespace fuzzylite {
                 if (state bitand S_HEDGE) {
                     HedgeFactory* factory = FactoryManager::instance()->hedge();
                     if (factory->hasConstructor(token)) {
-                        Hedge* hedge = factory->constructObject(token);
-                        proposition->hedges.push_back(hedge);
-                        if (dynamic_cast<Any*>(hedge))
+                        FL_unique_ptr<Hedge> hedge(factory->constructObject(token));
+                        proposition->hedges.push_back(hedge.get());
+                        if (dynamic_cast<Any*>(hedge.release()))
                             state = S_VARIABLE bitor S_AND_OR;
                         else
                             state = S_HEDGE bitor S_TERM;
@@ -242,13 +243,14 @@ namespace fuzzylite {
                                << "but found <" << expressionStack.size() << "> in antecedent";
                             throw Exception(ex.str(), FL_AT);
                         }
-                        Operator* fuzzyOperator = new Operator;
-                        fuzzyOperator->name = token;
-                        fuzzyOperator->right = expressionStack.top();
+                        FL_unique_ptr<Operator> newOperator(new Operator);
+                        newOperator->name = token;
+                        newOperator->right = expressionStack.top();
                         expressionStack.pop();
-                        fuzzyOperator->left = expressionStack.top();
+                        newOperator->left = expressionStack.top();
                         expressionStack.pop();
-                        expressionStack.push(fuzzyOperator);
+                        expressionStack.push(newOperator.get());
+                        Operator* fuzzyOperator = newOperator.release();
 
                         state = S_VARIABLE bitor S_AND_OR;
                         FL_DBG(
@@ -299,10 +301,9 @@ namespace fuzzylite {
             if (expressionStack.size() != 1) {
                 std::vector<std::string> errors;
                 while (expressionStack.size() > 1) {
-                    Expression* expression = expressionStack.top();
+                    errors.push_back(expressionStack.top()->toString());
+                    delete expressionStack.top();
                     expressionStack.pop();
-                    errors.push_back(expression->toString());
-                    delete expression;
                 }
                 std::ostringstream ex;
                 ex << "[syntax error] unable to parse the following expressions in antecedent <"
@@ -310,7 +311,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
diff --git a/src/rule/Consequent.cpp b/src/rule/Consequent.cpp
index 45f6da6..402f1e6 100644
--- a/src/rule/Consequent.cpp
+++ b/src/rule/Consequent.cpp
@@ -116,9 +116,10 @@ namespace fuzzylite {
             while (tokenizer >> token) {
                 if (state bitand S_VARIABLE) {
                     if (engine->hasOutputVariable(token)) {
-                        proposition = new Proposition;
-                        proposition->variable = engine->getOutputVariable(token);
-                        conclusions().push_back(proposition);
+                        FL_unique_ptr<Proposition> newProposition(new Proposition);
+                        newProposition->variable = engine->getOutputVariable(token);
+                        conclusions().push_back(newProposition.get());
+                        proposition = newProposition.release();
                         state = S_IS;
                         continue;
                     }
@@ -134,8 +135,9 @@ namespace fuzzylite {
                 if (state bitand S_HEDGE) {
                     HedgeFactory* factory = FactoryManager::instance()->hedge();
                     if (factory->hasConstructor(token)) {
-                        Hedge* hedge = factory->constructObject(token);
-                        proposition->hedges.push_back(hedge);
+                        FL_unique_ptr<Hedge> hedge(factory->constructObject(token));
+                        proposition->hedges.push_back(hedge.get());
+                        hedge.release();
                         state = S_HEDGE bitor S_TERM;
                         continue;
                     }
diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..e2dfe64 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -358,14 +358,12 @@ namespace fuzzylite {
 
     Function& Function::operator=(const Function& other) {
         if (this != &other) {
-            _root.reset(fl::null);
-
+            Function copy(other);
             Term::operator=(other);
-            _formula = other._formula;
-            _engine = other._engine;
-            if (other._root.get())
-                _root.reset(other._root->clone());
-            variables = other.variables;
+            _formula.swap(copy._formula);
+            _engine = copy._engine;
+            _root.reset(copy._root.release());
+            variables.swap(copy.variables);
         }
         return *this;
     }
@@ -479,6 +477,8 @@ namespace fuzzylite {
         setEngine(engine);
         try {
             load();
+        } catch (std::bad_alloc&) {
+            throw;
         } catch (...) {
             // ignore
         }
@@ -609,7 +609,12 @@ namespace fuzzylite {
             throw Exception("[function error] formula is empty", FL_AT);
         std::string postfix = toPostfix(formula);
 
-        std::stack<Node*> stack;
+        struct Nodes : public std::stack<Node*> {
+            ~Nodes() {
+                for (; not empty(); pop())
+                    delete top();
+            }
+        } stack;
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -629,32 +634,37 @@ namespace fuzzylite {
                     throw Exception(ss.str(), FL_AT);
                 }
 
-                Node* node = new Node(element->clone());
+                FL_unique_ptr<Node> node(new Node(fl::nan));
+                node->element.reset(element->clone());
                 node->right.reset(stack.top());
                 stack.pop();
                 if (element->arity == 2) {
                     node->left.reset(stack.top());
                     stack.pop();
                 }
-                stack.push(node);
+                stack.push(node.get());
+                node.release();
 
             } else if (isOperand) {
-                Node* node;
+                FL_unique_ptr<Node> node;
                 try {
                     scalar value = Op::toScalar(token);
-                    node = new Node(value);
-                } catch (std::exception& ex) {
+                    node.reset(new Node(value));
+                } catch (fl::Exception& ex) {
                     FL_IUNUSED(ex);
-                    node = new Node(token);
+                    node.reset(new Node(token));
                 }
-                stack.push(node);
+                stack.push(node.get());
+                node.release();
             }
         }
 
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0


From 2d14b6ccb40f458923caafa597121157cb20d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 04/21] fix: CloningFactory releases replaced objects and
 copies all or nothing

---
 fuzzylite/factory/CloningFactory.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..b051c83 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -133,14 +133,20 @@ namespace fuzzylite {
 
     template <typename T>
     inline CloningFactory<T>::CloningFactory(const CloningFactory& other) {
-        copyFrom(other);
+        try {
+            copyFrom(other);
+        } catch (...) {
+            CloningFactory::clear();
+            throw;
+        }
     }
 
     template <typename T>
     inline CloningFactory<T>& CloningFactory<T>::operator=(const CloningFactory& other) {
         if (this != &other) {
-            clear();
-            copyFrom(other);
+            CloningFactory copy(other);
+            this->_name.swap(copy._name);
+            this->_objects.swap(copy._objects);
         }
         return *this;
     }
@@ -157,7 +163,15 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
-        this->_objects[key] = object;
+        try {
+            T& registered = this->_objects[key];
+            if (registered and registered != object)
+                delete registered;
+            registered = object;
+        } catch (...) {
+            delete object;
+            throw;
+        }
     }
 
     template <typename T>
-- 
2.43.0


From 3da8ee3b3aba6568c797b32591adf7e40ccf9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 05/21] fix: conversions that allocate memory are not noexcept

---
 fuzzylite/Operation.h     | 10 +++++-----
 fuzzylite/term/Discrete.h |  2 +-
 src/term/Discrete.cpp     |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..3c05a82 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -520,7 +520,7 @@ namespace fuzzylite {
           @return the given string into a scalar value or the alternative value
           if the string does not contain a scalar value
          */
-        static scalar toScalar(const std::string& x, scalar alternative, bool* ok = fl::null) FL_INOEXCEPT;
+        static scalar toScalar(const std::string& x, scalar alternative, bool* ok = fl::null);
 
         /**
           Parses the given string into a vector of scalar values
@@ -538,7 +538,7 @@ namespace fuzzylite {
           @return the vector of scalar values
          */
         static std::vector<scalar>
-        toScalars(const std::string& x, scalar alternative, bool* ok = fl::null) FL_INOEXCEPT;
+        toScalars(const std::string& x, scalar alternative, bool* ok = fl::null);
 
         /**
           Indicates whether the string can be converted to a numeric value.
@@ -941,7 +941,7 @@ namespace fuzzylite {
         throw Exception("[conversion error] from <" + x + "> to scalar", FL_AT);
     }
 
-    inline scalar Operation::toScalar(const std::string& x, scalar alternative, bool* ok) FL_INOEXCEPT {
+    inline scalar Operation::toScalar(const std::string& x, scalar alternative, bool* ok) {
         if (ok)
             *ok = true;
         std::istringstream iss(x);
@@ -980,7 +980,7 @@ namespace fuzzylite {
         return result;
     }
 
-    inline std::vector<scalar> Operation::toScalars(const std::string& x, scalar alternative, bool* ok) FL_INOEXCEPT {
+    inline std::vector<scalar> Operation::toScalars(const std::string& x, scalar alternative, bool* ok) {
         std::vector<scalar> result;
         std::istringstream tokenizer(x);
         std::string token;
@@ -999,7 +999,7 @@ namespace fuzzylite {
         try {
             Op::toScalar(x);
             return true;
-        } catch (...) { return false; }
+        } catch (fl::Exception&) { return false; }
     }
 
     template <typename T>
diff --git a/fuzzylite/term/Discrete.h b/fuzzylite/term/Discrete.h
index 2f4c4e4..0604607 100644
--- a/fuzzylite/term/Discrete.h
+++ b/fuzzylite/term/Discrete.h
@@ -186,7 +186,7 @@ namespace fuzzylite {
           @return a vector of Pair in the form
           @f$\left(\{x_1,y_1\},...,\{x_n,y_n\}\right)@f$
          */
-        static std::vector<Pair> toPairs(const std::vector<scalar>& xy, scalar missingValue) FL_INOEXCEPT;
+        static std::vector<Pair> toPairs(const std::vector<scalar>& xy, scalar missingValue);
 
         /**
           Formats a vector of Pair into a std::string in the form
diff --git a/src/term/Discrete.cpp b/src/term/Discrete.cpp
index 2017973..35bba1f 100644
--- a/src/term/Discrete.cpp
+++ b/src/term/Discrete.cpp
@@ -166,7 +166,7 @@ namespace fuzzylite {
         return result;
     }
 
-    std::vector<Discrete::Pair> Discrete::toPairs(const std::vector<scalar>& xy, scalar missingValue) FL_INOEXCEPT {
+    std::vector<Discrete::Pair> Discrete::toPairs(const std::vector<scalar>& xy, scalar missingValue) {
         if (xy.size() % 2 == 0)
             return toPairs(xy);
         std::vector<scalar> copy(xy);
-- 
2.43.0


From 964d5734257b52c48985385574f9c5aeb21aad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 06/21] fix: importers lose no memory and report exhausted
 memory, FIS terms without class are rejected

---
 src/imex/FclImporter.cpp | 12 +++++++-----
 src/imex/FisImporter.cpp |  8 ++++++--
 src/imex/FllImporter.cpp | 18 ++++++++++--------
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..813c80c 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -274,8 +274,8 @@ namespace fuzzylite {
         if (index != std::string::npos)
             name = line.substr(index + 1);
         RuleBlock* ruleblock = new RuleBlock(name);
-        ruleblock->setActivation(new General);
         engine->addRuleBlock(ruleblock);
+        ruleblock->setActivation(new General);
 
         while (std::getline(blockReader, line)) {
             std::string firstToken = line.substr(0, line.find_first_of(' '));
@@ -293,13 +293,15 @@ namespace fuzzylite {
                     ruleStart = 4;  // "RULE".size()
                 std::string ruleText = line.substr(ruleStart + 1);
                 ruleText = Op::trim(ruleText);
-                Rule* rule = new Rule(ruleText);
+                FL_unique_ptr<Rule> rule(new Rule(ruleText));
                 try {
                     rule->load(engine);
+                } catch (std::bad_alloc&) {
+                    throw;
                 } catch (...) {
                     // ignore
                 }
-                ruleblock->addRule(rule);
+                ruleblock->addRule(rule.release());
             } else {
                 std::ostringstream ex;
                 ex << "[syntax error] keyword <" << firstToken << "> not recognized in line: " << line;
@@ -487,7 +489,7 @@ namespace fuzzylite {
         scalar value;
         try {
             value = Op::toScalar(defaultValue);
-        } catch (...) {
+        } catch (fl::Exception&) {
             std::ostringstream ex;
             ex << "[syntax error] expected numeric value, " << "but found <" << defaultValue << "> in line: " << line;
             throw Exception(ex.str(), FL_AT);
@@ -536,7 +538,7 @@ namespace fuzzylite {
         try {
             minimum = Op::toScalar(token.at(index = 0));
             maximum = Op::toScalar(token.at(index = 1));
-        } catch (std::exception& ex) {
+        } catch (fl::Exception& ex) {
             FL_IUNUSED(ex);
             std::ostringstream ss;
             ss << "[syntax error] expected numeric value, but found <" << token.at(index) << "> in "
diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..3176060 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -320,13 +320,15 @@ namespace fuzzylite {
             scalar weight = Op::toScalar(ss.str());
             if (not Op::isEq(weight, 1.0))
                 ruleText << " " << Rule::withKeyword() << " " << Op::str(weight);
-            Rule* rule = new Rule(ruleText.str());
+            FL_unique_ptr<Rule> rule(new Rule(ruleText.str()));
             try {
                 rule->load(engine);
+            } catch (std::bad_alloc&) {
+                throw;
             } catch (...) {
                 // ignore
             }
-            ruleblock->addRule(rule);
+            ruleblock->addRule(rule.release());
         }
     }
 
@@ -548,6 +550,8 @@ namespace fuzzylite {
 
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
+        if (not term.get())
+            throw Exception("[syntax error] expected the class of term <" + name + ">", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
         std::string separator;
diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..23a419b 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -214,12 +214,14 @@ namespace fuzzylite {
                     ruleBlock->setActivation(parseActivation(keyValue.second));
                 }
             } else if ("rule" == keyValue.first) {
-                Rule* rule = new Rule;
+                FL_unique_ptr<Rule> rule(new Rule);
                 rule->setText(keyValue.second);
                 try {
                     rule->load(engine);
+                } catch (std::bad_alloc&) {
+                    throw;
                 } catch (std::exception& ex) { FL_LOG(ex.what()); }
-                ruleBlock->addRule(rule);
+                ruleBlock->addRule(rule.release());
             } else {
                 throw Exception(
                     "[import error] key <" + keyValue.first
@@ -278,7 +280,7 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result(FactoryManager::instance()->activation()->constructObject(tokens.front()));
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -287,7 +289,7 @@ namespace fuzzylite {
                 parameters << " ";
         }
         result->configure(parameters.str());
-        return result;
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +297,12 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +317,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From 838e47e843c4774095ccdf7776526fad952a5a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 07/21] fix: exhausted memory is not mistaken for a heading of
 a data set

---
 src/Benchmark.cpp        | 2 +-
 src/imex/FldExporter.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..a1fc13c 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -128,7 +128,7 @@ namespace fuzzylite {
             if (lineNumber == 1) {  // automatic detection of header.
                 try {
                     expectedValues = Op::toScalars(line);
-                } catch (std::exception&) { continue; }
+                } catch (fl::Exception&) { continue; }
             } else {
                 expectedValues = Op::toScalars(line);
             }
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..9e99878 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -120,7 +120,7 @@ namespace fuzzylite {
             if (lineNumber == 1) {  // automatic detection of header.
                 try {
                     inputValues = parse(line);
-                } catch (std::exception&) { continue; }
+                } catch (fl::Exception&) { continue; }
             } else {
                 inputValues = parse(line);
             }
@@ -166,7 +166,7 @@ namespace fuzzylite {
             if (lineNumber == 1) {  // automatic detection of header.
                 try {
                     inputValues = parse(line);
-                } catch (std::exception&) { continue; }
+                } catch (fl::Exception&) { continue; }
             } else {
                 inputValues = parse(line);
             }
@@ -254,7 +254,7 @@ namespace fuzzylite {
             if (lineNumber == 1) {  // automatic detection of header.
                 try {
                     inputValues = parse(line);
-                } catch (std::exception&) { continue; }
+                } catch (fl::Exception&) { continue; }
             } else {
                 inputValues = parse(line);
             }
-- 
2.43.0


From 4654b566988e4e122a720ae6b49bdd64aeb5efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:23 +0000
Subject: [PATCH 08/21] fix: copies, assignments and additions lose no memory
 and change nothing when memory is exhausted

---
 fuzzylite/Engine.h              |   2 +
 fuzzylite/variable/Variable.h   |   6 ++
 src/Engine.cpp                  | 165 ++++++++++++++++++++++----------
 src/rule/Rule.cpp               |  15 +--
 src/rule/RuleBlock.cpp          |  31 ++++--
 src/term/Aggregated.cpp         |   9 +-
 src/variable/OutputVariable.cpp |  12 ++-
 src/variable/Variable.cpp       |  34 ++++++-
 8 files changed, 194 insertions(+), 80 deletions(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 3997c1a..307fc3f 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -54,6 +54,8 @@ namespace fuzzylite {
         std::vector<RuleBlock*> _ruleBlocks;
 
         void copyFrom(const Engine& source);
+        void swap(Engine& other);
+        void clear();
 
       protected:
         void updateReferences() const;
diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 903acfd..0a3865f 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -54,6 +54,12 @@ namespace fuzzylite {
         bool _enabled;
         bool _lockValueInRange;
 
+        /**
+          Exchanges the contents of the variables without throwing exceptions
+          @param other is the variable to exchange the contents with
+         */
+        void swap(Variable& other);
+
       private:
         void copyFrom(const Variable& source);
 
diff --git a/src/Engine.cpp b/src/Engine.cpp
index e11dc03..3d45bf8 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -40,6 +40,31 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+        /** Clones of an operator, which are deleted unless they are released */
+        template <typename T>
+        struct Clones {
+            std::vector<T*> objects;
+
+            void create(const T* source, std::size_t n) {
+                objects.resize(n, fl::null);
+                for (std::size_t i = 0; source and i < n; ++i)
+                    objects.at(i) = source->clone();
+            }
+
+            T* release(std::size_t index) {
+                T* result = objects.at(index);
+                objects.at(index) = fl::null;
+                return result;
+            }
+
+            ~Clones() {
+                for (std::size_t i = 0; i < objects.size(); ++i)
+                    delete objects.at(i);
+            }
+        };
+    }
+
     Engine::Engine(
         const std::string& name,
         const std::string& description,
@@ -62,29 +87,54 @@ namespace fuzzylite {
     }
 
     Engine::Engine(const Engine& other) : _name(""), _description("") {
-        copyFrom(other);
+        try {
+            copyFrom(other);
+        } catch (...) {
+            clear();
+            throw;
+        }
     }
 
     Engine& Engine::operator=(const Engine& other) {
         if (this != &other) {
-            for (std::size_t i = 0; i < _ruleBlocks.size(); ++i)
-                delete _ruleBlocks.at(i);
-            _ruleBlocks.clear();
-            for (std::size_t i = 0; i < _outputVariables.size(); ++i)
-                delete _outputVariables.at(i);
-            _outputVariables.clear();
-            for (std::size_t i = 0; i < _inputVariables.size(); ++i)
-                delete _inputVariables.at(i);
-            _inputVariables.clear();
-
-            copyFrom(other);
+            Engine previous;
+            swap(previous);
+            try {
+                copyFrom(other);
+            } catch (...) {
+                swap(previous);
+                throw;
+            }
         }
         return *this;
     }
 
+    void Engine::swap(Engine& other) {
+        _name.swap(other._name);
+        _description.swap(other._description);
+        _inputVariables.swap(other._inputVariables);
+        _outputVariables.swap(other._outputVariables);
+        _ruleBlocks.swap(other._ruleBlocks);
+    }
+
+    void Engine::clear() {
+        for (std::size_t i = 0; i < _ruleBlocks.size(); ++i)
+            delete _ruleBlocks.at(i);
+        _ruleBlocks.clear();
+        for (std::size_t i = 0; i < _outputVariables.size(); ++i)
+            delete _outputVariables.at(i);
+        _outputVariables.clear();
+        for (std::size_t i = 0; i < _inputVariables.size(); ++i)
+            delete _inputVariables.at(i);
+        _inputVariables.clear();
+    }
+
     void Engine::copyFrom(const Engine& other) {
         _name = other._name;
         _description = other._description;
+        _inputVariables.reserve(other._inputVariables.size());
+        _outputVariables.reserve(other._outputVariables.size());
+        _ruleBlocks.reserve(other._ruleBlocks.size());
         for (std::size_t i = 0; i < other._inputVariables.size(); ++i)
             _inputVariables.push_back(new InputVariable(*other._inputVariables.at(i)));
         for (std::size_t i = 0; i < other._outputVariables.size(); ++i)
@@ -95,6 +145,7 @@ namespace fuzzylite {
         for (std::size_t i = 0; i < other._ruleBlocks.size(); ++i) {
             const RuleBlock* source = other._ruleBlocks.at(i);
             RuleBlock* ruleBlock = new RuleBlock(*source);
+            _ruleBlocks.push_back(ruleBlock);
             for (std::size_t r = 0; r < source->numberOfRules(); ++r) {
                 const Rule* sourceRule = source->getRule(r);
                 if (not sourceRule->isLoaded())
@@ -102,6 +153,8 @@ namespace fuzzylite {
                 Rule* rule = ruleBlock->getRule(r);
                 try {
                     rule->load(this);
+                } catch (std::bad_alloc&) {
+                    throw;
                 } catch (...) {
                     // ignore
                 }
@@ -111,7 +164,6 @@ namespace fuzzylite {
                 rule->setActivationDegree(sourceRule->getActivationDegree());
                 rule->setTriggered(sourceRule->isTriggered());
             }
-            _ruleBlocks.push_back(ruleBlock);
         }
 
         // the activated terms of the copy refer to its own implication operators
@@ -138,12 +190,7 @@ namespace fuzzylite {
     }
 
     Engine::~Engine() {
-        for (std::size_t i = 0; i < _ruleBlocks.size(); ++i)
-            delete _ruleBlocks.at(i);
-        for (std::size_t i = 0; i < _outputVariables.size(); ++i)
-            delete _outputVariables.at(i);
-        for (std::size_t i = 0; i < _inputVariables.size(); ++i)
-            delete _inputVariables.at(i);
+        clear();
     }
 
     void Engine::configure(
@@ -159,20 +206,20 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
@@ -184,31 +231,39 @@ namespace fuzzylite {
         Defuzzifier* defuzzifier,
         Activation* activation
     ) {
+        FL_unique_ptr<TNorm> conjunctionOwner(conjunction);
+        FL_unique_ptr<SNorm> disjunctionOwner(disjunction);
+        FL_unique_ptr<TNorm> implicationOwner(implication);
+        FL_unique_ptr<SNorm> aggregationOwner(aggregation);
+        FL_unique_ptr<Defuzzifier> defuzzifierOwner(defuzzifier);
+        FL_unique_ptr<Activation> activationOwner(activation);
+        const General general;
+
+        // everything is cloned first so that nothing changes if cloning fails
+        Clones<TNorm> conjunctions, implications;
+        Clones<SNorm> disjunctions, aggregations;
+        Clones<Defuzzifier> defuzzifiers;
+        Clones<Activation> activations;
+        conjunctions.create(conjunction, numberOfRuleBlocks());
+        disjunctions.create(disjunction, numberOfRuleBlocks());
+        implications.create(implication, numberOfRuleBlocks());
+        activations.create(activation ? activation : &general, numberOfRuleBlocks());
+        defuzzifiers.create(defuzzifier, numberOfOutputVariables());
+        aggregations.create(aggregation, numberOfOutputVariables());
+
         for (std::size_t i = 0; i < numberOfRuleBlocks(); ++i) {
             RuleBlock* ruleBlock = ruleBlocks().at(i);
-            ruleBlock->setConjunction(conjunction ? conjunction->clone() : fl::null);
-            ruleBlock->setDisjunction(disjunction ? disjunction->clone() : fl::null);
-            ruleBlock->setImplication(implication ? implication->clone() : fl::null);
-            ruleBlock->setActivation(activation ? activation->clone() : new General);
+            ruleBlock->setConjunction(conjunctions.release(i));
+            ruleBlock->setDisjunction(disjunctions.release(i));
+            ruleBlock->setImplication(implications.release(i));
+            ruleBlock->setActivation(activations.release(i));
         }
 
         for (std::size_t i = 0; i < numberOfOutputVariables(); ++i) {
             OutputVariable* outputVariable = getOutputVariable(i);
-            outputVariable->setDefuzzifier(defuzzifier ? defuzzifier->clone() : fl::null);
-            outputVariable->setAggregation(aggregation ? aggregation->clone() : fl::null);
+            outputVariable->setDefuzzifier(defuzzifiers.release(i));
+            outputVariable->setAggregation(aggregations.release(i));
         }
-        if (defuzzifier)
-            delete defuzzifier;
-        if (aggregation)
-            delete aggregation;
-        if (implication)
-            delete implication;
-        if (disjunction)
-            delete disjunction;
-        if (conjunction)
-            delete conjunction;
-        if (activation)
-            delete activation;
     }
 
     bool Engine::isReady(std::string* status) const {
@@ -555,7 +610,9 @@ namespace fuzzylite {
     }
 
     void Engine::addInputVariable(InputVariable* inputVariable) {
+        FL_unique_ptr<InputVariable> owner(inputVariable);
         inputVariables().push_back(inputVariable);
+        owner.release();
     }
 
     InputVariable* Engine::setInputVariable(InputVariable* inputVariable, std::size_t index) {
@@ -565,7 +622,9 @@ namespace fuzzylite {
     }
 
     void Engine::insertInputVariable(InputVariable* inputVariable, std::size_t index) {
+        FL_unique_ptr<InputVariable> owner(inputVariable);
         inputVariables().insert(inputVariables().begin() + index, inputVariable);
+        owner.release();
     }
 
     InputVariable* Engine::getInputVariable(std::size_t index) const {
@@ -628,7 +687,9 @@ namespace fuzzylite {
     }
 
     void Engine::addOutputVariable(OutputVariable* outputVariable) {
+        FL_unique_ptr<OutputVariable> owner(outputVariable);
         outputVariables().push_back(outputVariable);
+        owner.release();
     }
 
     OutputVariable* Engine::setOutputVariable(OutputVariable* outputVariable, std::size_t index) {
@@ -638,7 +699,9 @@ namespace fuzzylite {
     }
 
     void Engine::insertOutputVariable(OutputVariable* outputVariable, std::size_t index) {
+        FL_unique_ptr<OutputVariable> owner(outputVariable);
         outputVariables().insert(outputVariables().begin() + index, outputVariable);
+        owner.release();
     }
 
     OutputVariable* Engine::getOutputVariable(std::size_t index) const {
@@ -696,7 +759,9 @@ namespace fuzzylite {
      * Operations for iterable datatype _ruleblocks
      */
     void Engine::addRuleBlock(RuleBlock* ruleblock) {
+        FL_unique_ptr<RuleBlock> owner(ruleblock);
         ruleBlocks().push_back(ruleblock);
+        owner.release();
     }
 
     RuleBlock* Engine::setRuleBlock(RuleBlock* ruleBlock, std::size_t index) {
@@ -706,7 +771,9 @@ namespace fuzzylite {
     }
 
     void Engine::insertRuleBlock(RuleBlock* ruleblock, std::size_t index) {
+        FL_unique_ptr<RuleBlock> owner(ruleblock);
         ruleBlocks().insert(ruleBlocks().begin() + index, ruleblock);
+        owner.release();
     }
 
     RuleBlock* Engine::getRuleBlock(std::size_t index) const {
diff --git a/src/rule/Rule.cpp b/src/rule/Rule.cpp
index 7ac3ffc..d546c5b 100644
--- a/src/rule/Rule.cpp
+++ b/src/rule/Rule.cpp
@@ -43,13 +43,14 @@ namespace fuzzylite {
 
     Rule& Rule::operator=(const Rule& other) {
         if (this != &other) {
-            _enabled = other._enabled;
-            _text = other._text;
-            _weight = other._weight;
-            _activationDegree = other._activationDegree;
-            _triggered = other._triggered;
-            _antecedent.reset(new Antecedent);
-            _consequent.reset(new Consequent);
+            Rule copy(other);
+            _enabled = copy._enabled;
+            _text.swap(copy._text);
+            _weight = copy._weight;
+            _activationDegree = copy._activationDegree;
+            _triggered = copy._triggered;
+            _antecedent.reset(copy._antecedent.release());
+            _consequent.reset(copy._consequent.release());
         }
         return *this;
     }
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index b947192..5edc5ba 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -46,20 +46,26 @@ namespace fuzzylite {
         _enabled(true),
         _name(other._name),
         _description(other._description) {
-        copyFrom(other);
+        try {
+            copyFrom(other);
+        } catch (...) {
+            for (std::size_t i = 0; i < _rules.size(); ++i)
+                delete _rules.at(i);
+            throw;
+        }
     }
 
     RuleBlock& RuleBlock::operator=(const RuleBlock& other) {
         if (this != &other) {
-            for (std::size_t i = 0; i < _rules.size(); ++i)
-                delete _rules.at(i);
-            _rules.clear();
-            _conjunction.reset(fl::null);
-            _disjunction.reset(fl::null);
-            _implication.reset(fl::null);
-            _activation.reset(fl::null);
-
-            copyFrom(other);
+            RuleBlock copy(other);
+            _enabled = copy._enabled;
+            _name.swap(copy._name);
+            _description.swap(copy._description);
+            _conjunction.reset(copy._conjunction.release());
+            _disjunction.reset(copy._disjunction.release());
+            _implication.reset(copy._implication.release());
+            _activation.reset(copy._activation.release());
+            _rules.swap(copy._rules);
         }
         return *this;
     }
@@ -76,6 +82,7 @@ namespace fuzzylite {
             _implication.reset(source._implication->clone());
         if (source._activation.get())
             _activation.reset(source._activation->clone());
+        _rules.reserve(source._rules.size());
         for (std::size_t i = 0; i < source._rules.size(); ++i)
             _rules.push_back(source._rules.at(i)->clone());
     }
@@ -191,11 +198,15 @@ namespace fuzzylite {
      * Operations for std::vector _rules
      */
     void RuleBlock::addRule(Rule* rule) {
+        FL_unique_ptr<Rule> owner(rule);
         _rules.push_back(rule);
+        owner.release();
     }
 
     void RuleBlock::insertRule(Rule* rule, std::size_t index) {
+        FL_unique_ptr<Rule> owner(rule);
         _rules.insert(_rules.begin() + index, rule);
+        owner.release();
     }
 
     Rule* RuleBlock::getRule(std::size_t index) const {
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..6344974 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -38,11 +38,12 @@ namespace fuzzylite {
 
     Aggregated& Aggregated::operator=(const Aggregated& other) {
         if (this != &other) {
-            clear();
-            _aggregation.reset(fl::null);
-
+            Aggregated copy(other);
             Term::operator=(other);
-            copyFrom(other);
+            _minimum = copy._minimum;
+            _maximum = copy._maximum;
+            _aggregation.reset(copy._aggregation.release());
+            _terms.swap(copy._terms);
         }
         return *this;
     }
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index 7101d20..a158bac 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -36,11 +36,13 @@ namespace fuzzylite {
 
     OutputVariable& OutputVariable::operator=(const OutputVariable& other) {
         if (this != &other) {
-            _fuzzyOutput.reset(fl::null);
-            _defuzzifier.reset(fl::null);
-
-            Variable::operator=(other);
-            copyFrom(other);
+            OutputVariable copy(other);
+            Variable::swap(copy);
+            _fuzzyOutput.reset(copy._fuzzyOutput.release());
+            _defuzzifier.reset(copy._defuzzifier.release());
+            _previousValue = copy._previousValue;
+            _defaultValue = copy._defaultValue;
+            _lockPreviousValue = copy._lockPreviousValue;
         }
         return *this;
     }
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index c4c8105..d3b8c83 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -39,19 +39,34 @@ namespace fuzzylite {
         _lockValueInRange(false) {}
 
     Variable::Variable(const Variable& other) {
-        copyFrom(other);
+        try {
+            copyFrom(other);
+        } catch (...) {
+            for (std::size_t i = 0; i < _terms.size(); ++i)
+                delete _terms.at(i);
+            throw;
+        }
     }
 
     Variable& Variable::operator=(const Variable& other) {
         if (this != &other) {
-            for (std::size_t i = 0; i < _terms.size(); ++i)
-                delete _terms.at(i);
-            _terms.clear();
-            copyFrom(other);
+            Variable copy(other);
+            swap(copy);
         }
         return *this;
     }
 
+    void Variable::swap(Variable& other) {
+        _name.swap(other._name);
+        _description.swap(other._description);
+        _terms.swap(other._terms);
+        std::swap(_value, other._value);
+        std::swap(_minimum, other._minimum);
+        std::swap(_maximum, other._maximum);
+        std::swap(_enabled, other._enabled);
+        std::swap(_lockValueInRange, other._lockValueInRange);
+    }
+
     void Variable::copyFrom(const Variable& other) {
         _name = other._name;
         _description = other._description;
@@ -60,6 +75,7 @@ namespace fuzzylite {
         _maximum = other._maximum;
         _enabled = other._enabled;
         _lockValueInRange = other._lockValueInRange;
+        _terms.reserve(other._terms.size());
         for (std::size_t i = 0; i < other._terms.size(); ++i)
             _terms.push_back(other._terms.at(i)->clone());
     }
@@ -146,6 +162,8 @@ namespace fuzzylite {
             scalar y;
             try {
                 y = term->membership(x);
+            } catch (std::bad_alloc&) {
+                throw;
             } catch (...) { y = nan; }
             activations.push_back(Activated(term, y));
         }
@@ -198,6 +216,8 @@ namespace fuzzylite {
                     centroid = term->membership(0);
                 else
                     centroid = defuzzifier.defuzzify(term, getMinimum(), getMaximum());
+            } catch (std::bad_alloc&) {
+                throw;
             } catch (...) {  // ignore error possibly due to Function not loaded
                 centroid = fl::inf;
             }
@@ -215,11 +235,15 @@ namespace fuzzylite {
     }
 
     void Variable::addTerm(Term* term) {
+        FL_unique_ptr<Term> owner(term);
         _terms.push_back(term);
+        owner.release();
     }
 
     void Variable::insertTerm(Term* term, std::size_t index) {
+        FL_unique_ptr<Term> owner(term);
         _terms.insert(_terms.begin() + index, term);
+        owner.release();
     }
 
     Term* Variable::getTerm(std::size_t index) const {
-- 
2.43.0


From 6455dcebd07a07d6ae2806cdf5ceab8365aba936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 09/21] fix: failures of reading and writing files are reported
 by importers and exporters

---
 src/imex/Exporter.cpp        |  2 ++
 src/imex/FldExporter.cpp     | 10 ++++++++++
 src/imex/Importer.cpp        |  2 ++
 src/imex/RScriptExporter.cpp |  4 ++++
 4 files changed, 18 insertions(+)

diff --git a/src/imex/Exporter.cpp b/src/imex/Exporter.cpp
index 8f5d9b6..d8617bb 100644
--- a/src/imex/Exporter.cpp
+++ b/src/imex/Exporter.cpp
@@ -33,6 +33,8 @@ namespace fuzzylite {
             throw Exception("[file error] file <" + path + "> could not be created", FL_AT);
         writer << toString(engine) << std::endl;
         writer.close();
+        if (not writer)
+            throw Exception("[file error] file <" + path + "> could not be written", FL_AT);
     }
 
 }
diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index 9e99878..225897d 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -127,6 +127,8 @@ namespace fuzzylite {
 
             write(engine, writer, inputValues, engine->inputVariables());
         }
+        if (reader.bad())
+            throw Exception("[export error] input data could not be read", FL_AT);
         return writer.str();
     }
 
@@ -146,6 +148,8 @@ namespace fuzzylite {
             throw Exception("[file error] file <" + path + "> could not be created", FL_AT);
         write(engine, writer, values, scope, activeVariables);
         writer.close();
+        if (not writer)
+            throw Exception("[file error] file <" + path + "> could not be written", FL_AT);
     }
 
     void FldExporter::toFile(const std::string& path, Engine* engine, std::istream& reader) const {
@@ -173,7 +177,11 @@ namespace fuzzylite {
 
             write(engine, writer, inputValues, engine->inputVariables());
         }
+        if (reader.bad())
+            throw Exception("[export error] input data could not be read", FL_AT);
         writer.close();
+        if (not writer)
+            throw Exception("[file error] file <" + path + "> could not be written", FL_AT);
     }
 
     std::vector<scalar> FldExporter::parse(const std::string& values) const {
@@ -265,6 +273,8 @@ namespace fuzzylite {
                 throw;
             }
         }
+        if (reader.bad())
+            throw Exception("[export error] input data could not be read", FL_AT);
     }
 
     void FldExporter::write(Engine* engine, std::ostream& writer, const std::vector<scalar>& inputValues) const {
diff --git a/src/imex/Importer.cpp b/src/imex/Importer.cpp
index 0714d18..faa5ef4 100644
--- a/src/imex/Importer.cpp
+++ b/src/imex/Importer.cpp
@@ -35,6 +35,8 @@ namespace fuzzylite {
         std::string line;
         while (std::getline(reader, line))
             textEngine << line << std::endl;
+        if (reader.bad())
+            throw Exception("[file error] file <" + path + "> could not be read", FL_AT);
         reader.close();
         return fromString(textEngine.str());
     }
diff --git a/src/imex/RScriptExporter.cpp b/src/imex/RScriptExporter.cpp
index eca605f..8744788 100644
--- a/src/imex/RScriptExporter.cpp
+++ b/src/imex/RScriptExporter.cpp
@@ -126,6 +126,8 @@ namespace fuzzylite {
             throw Exception("[file error] file <" + filePath + "> could not be created", FL_AT);
         writeScriptExportingDataFrame(engine, writer, a, b, values, scope, outputVariables);
         writer.close();
+        if (not writer)
+            throw Exception("[file error] file <" + filePath + "> could not be written", FL_AT);
     }
 
     void RScriptExporter::toFile(
@@ -141,6 +143,8 @@ namespace fuzzylite {
             throw Exception("[file error] file <" + filePath + "> could not be created", FL_AT);
         writeScriptExportingDataFrame(engine, writer, a, b, reader, outputVariables);
         writer.close();
+        if (not writer)
+            throw Exception("[file error] file <" + filePath + "> could not be written", FL_AT);
     }
 
     void RScriptExporter::writeScriptImportingDataFrame(
-- 
2.43.0


From f4ee76f9770e56f12b8e10ec525d611b14a10ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 10/21] fix: the command line and benchmarks report failures of
 reading and writing files, exit status of main

---
 src/Benchmark.cpp |  2 ++
 src/Console.cpp   | 25 +++++++++++++++++++++++++
 src/main.cpp      |  3 +--
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index a1fc13c..5d7a46a 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -134,6 +134,8 @@ namespace fuzzylite {
             }
             _expected.push_back(expectedValues);
         }
+        if (reader.bad())
+            throw Exception("[benchmark error] input data could not be read", FL_AT);
     }
 
     scalar Benchmark::runOnce() {
diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..a30f585 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -190,6 +190,8 @@ namespace fuzzylite {
             std::string line;
             while (std::getline(inputFile, line))
                 textEngine << line << std::endl;
+            if (inputFile.bad())
+                throw Exception("[file error] file <" + inputFilename + "> could not be read", FL_AT);
             inputFile.close();
 
             it = options.find(KW_INPUT_FORMAT);
@@ -223,6 +225,9 @@ namespace fuzzylite {
 
         if (outputFilename.empty()) {
             process(textEngine.str(), std::cout, inputFormat, outputFormat, options);
+            std::cout.flush();
+            if (not std::cout)
+                throw Exception("[file error] standard output could not be written", FL_AT);
         } else {
             std::ofstream writer(outputFilename.c_str());
             if (not writer.is_open())
@@ -230,6 +235,8 @@ namespace fuzzylite {
             process(textEngine.str(), writer, inputFormat, outputFormat, options);
             writer.flush();
             writer.close();
+            if (not writer)
+                throw Exception("[file error] file <" + outputFilename + "> could not be written", FL_AT);
         }
     }
 
@@ -789,6 +796,8 @@ namespace fuzzylite {
                     std::getline(source, line);
                     ss << line << "\n";
                 }
+                if (source.bad())
+                    throw Exception("[examples error] file could not be read: " + input, FL_AT);
                 source.close();
             } else
                 throw Exception("[examples error] file not found: " + input, FL_AT);
@@ -861,6 +870,8 @@ namespace fuzzylite {
                 }
                 target.close();
             }
+            if (not target)
+                throw Exception("[file error] file <" + output + "> could not be written", FL_AT);
             Engine copyConstructor(*engine.get());
             FL_IUNUSED(copyConstructor);
             Engine assignmentOperator = *engine.get();
@@ -934,6 +945,10 @@ namespace fuzzylite {
                 fllFiles.push_back(fllLine);
                 fldFiles.push_back(fldLine);
             }
+            if (fllReader.bad())
+                throw Exception("[error] file <" + fllFileList + "> could not be read");
+            if (fldReader.bad())
+                throw Exception("[error] file <" + fldFileList + "> could not be read");
         }
 
         if (writer)
@@ -1011,6 +1026,11 @@ namespace fuzzylite {
                     }
                     outputFile << Op::join(Benchmark().header(runs, true), "\t") << "\n";
                     console.benchmark(fllFile, fldFile, runs, &outputFile);
+                    outputFile.close();
+                    if (not outputFile) {
+                        FL_LOG("[error] cannot write file <" << filename << ">");
+                        return EXIT_FAILURE;
+                    }
                 } else {
                     FL_LOGP(Op::join(Benchmark().header(runs, true), "\t"));
                     console.benchmark(fllFile, fldFile, runs, fl::null);
@@ -1039,6 +1059,11 @@ namespace fuzzylite {
                         return EXIT_FAILURE;
                     }
                     console.benchmarks(fllFiles, fldFiles, runs, &outputFile);
+                    outputFile.close();
+                    if (not outputFile) {
+                        FL_LOG("[error] cannot write file <" << filename << ">");
+                        return EXIT_FAILURE;
+                    }
                 } else {
                     console.benchmarks(fllFiles, fldFiles, runs, fl::null);
                 }
diff --git a/src/main.cpp b/src/main.cpp
index d93fa6a..5cfdf92 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,10 +34,9 @@ int main(int argc, const char* argv[]) {
     fl::fuzzylite::setDebugging(false);
 
     try {
-        fl::Console::main(argc, argv);
+        return fl::Console::main(argc, argv);
     } catch (std::exception& ex) {
         std::cout << ex.what() << "\nBACKTRACE:\n" << fl::Exception::btCallStack() << std::endl;
         return EXIT_FAILURE;
     }
-    return EXIT_SUCCESS;
 }
-- 
2.43.0


From 057d42941fd95ebf08b6c946c8564c7a3fd0e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 11/21] fix: benchmarks measure time with a steady clock,
 elapsed times are never negative

---
 src/Benchmark.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 5d7a46a..2da2e06 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -155,7 +155,7 @@ namespace fuzzylite {
 #ifdef FL_CPP98
             // ignore timing
 #else
-            auto start = std::chrono::high_resolution_clock::now();
+            auto start = std::chrono::steady_clock::now();
 #endif
 
             for (std::size_t evaluation = 0; evaluation < _expected.size(); ++evaluation) {
@@ -186,7 +186,7 @@ namespace fuzzylite {
 #ifdef FL_CPP98
             // ignore timing
 #else
-            auto end = std::chrono::high_resolution_clock::now();
+            auto end = std::chrono::steady_clock::now();
             runTimes.at(t) = std::chrono::duration<scalar, std::nano>(end - start).count();
 #endif
         }
-- 
2.43.0


From 06d52deb4cbd7dc58ba872362b87cc9da7872b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 12/21] fix: the interactive console works without input
 variables and without a terminal

---
 src/Console.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index a30f585..cc1aeb1 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -343,12 +343,15 @@ namespace fuzzylite {
         int ch = 0;
 #ifdef FL_UNIX
         struct termios oldt, newt;
-        ::tcgetattr(STDIN_FILENO, &oldt);
-        newt = oldt;
-        newt.c_lflag &= ~(ICANON | ECHO);
-        ::tcsetattr(STDIN_FILENO, TCSANOW, &newt);
+        const bool isTerminal = ::tcgetattr(STDIN_FILENO, &oldt) == 0;
+        if (isTerminal) {
+            newt = oldt;
+            newt.c_lflag &= ~(ICANON | ECHO);
+            ::tcsetattr(STDIN_FILENO, TCSANOW, &newt);
+        }
         ch = ::getchar();
-        ::tcsetattr(STDIN_FILENO, TCSANOW, &oldt);
+        if (isTerminal)
+            ::tcsetattr(STDIN_FILENO, TCSANOW, &oldt);
 #elif defined(FL_WINDOWS)
         ch = ::_getch();
 #endif
@@ -376,7 +379,7 @@ namespace fuzzylite {
             if (ch == EOF)
                 break;
 
-            if (std::isspace(ch)) {
+            if (std::isspace(ch) and inputValues.size() < engine->numberOfInputVariables()) {
                 scalar value = engine->getInputVariable(inputValues.size())->getValue();
                 try {
                     value = Op::toScalar(inputValue.str());
-- 
2.43.0


From 760c11248def6f8e8a71b670b0f3ee13ff5b9b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 13/21] fix: Aggregated::removeTerm returns the removed term
 instead of a dangling reference

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index 6344974..d1af132 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -238,8 +238,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From f50347768ee450f64c9670680c209ea80195faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 14/21] fix: moving engines, variables, rule blocks and
 factories loses no memory and leaves no references to the source

---
 fuzzylite/Engine.h                 |  5 ++++-
 fuzzylite/factory/CloningFactory.h | 24 +++++++++++++++++++-
 fuzzylite/rule/RuleBlock.h         |  6 ++++-
 fuzzylite/variable/Variable.h      |  6 +++--
 src/Engine.cpp                     | 22 +++++++++++++++++++
 src/rule/RuleBlock.cpp             | 35 +++++++++++++++++++++++-------
 src/variable/Variable.cpp          | 19 ++++++++++++++++
 7 files changed, 104 insertions(+), 13 deletions(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 307fc3f..a050eb9 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -72,7 +72,10 @@ namespace fuzzylite {
         Engine(const Engine& other);
         Engine& operator=(const Engine& other);
         virtual ~Engine();
-        FL_DEFAULT_MOVE(Engine)
+#ifndef FL_CPP98
+        Engine(Engine&& other);
+        Engine& operator=(Engine&& other);
+#endif
 
         /**
           Configures the engine with the given operators
diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index b051c83..f78313b 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -55,7 +55,10 @@ namespace fuzzylite {
         CloningFactory(const CloningFactory& other);
         CloningFactory& operator=(const CloningFactory& other);
         virtual ~CloningFactory();
-        FL_DEFAULT_MOVE(CloningFactory)
+#ifndef FL_CPP98
+        CloningFactory(CloningFactory&& other);
+        CloningFactory& operator=(CloningFactory&& other);
+#endif
 
         /**
           Returns the name of the factory
@@ -151,6 +154,25 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    template <typename T>
+    inline CloningFactory<T>::CloningFactory(CloningFactory&& other) {
+        this->_name.swap(other._name);
+        this->_objects.swap(other._objects);
+    }
+
+    template <typename T>
+    inline CloningFactory<T>& CloningFactory<T>::operator=(CloningFactory&& other) {
+        if (this != &other) {
+            CloningFactory previous;
+            previous._objects.swap(this->_objects);
+            this->_name.swap(other._name);
+            this->_objects.swap(other._objects);
+        }
+        return *this;
+    }
+#endif
+
     template <typename T>
     inline CloningFactory<T>::~CloningFactory() {
         CloningFactory::clear();
diff --git a/fuzzylite/rule/RuleBlock.h b/fuzzylite/rule/RuleBlock.h
index 43c3b27..be96611 100644
--- a/fuzzylite/rule/RuleBlock.h
+++ b/fuzzylite/rule/RuleBlock.h
@@ -54,6 +54,7 @@ namespace fuzzylite {
         FL_unique_ptr<TNorm> _implication;
 
         void copyFrom(const RuleBlock& source);
+        void moveFrom(RuleBlock& source);
 
       public:
         explicit RuleBlock(
@@ -68,7 +69,10 @@ namespace fuzzylite {
         RuleBlock(const RuleBlock& other);
         RuleBlock& operator=(const RuleBlock& other);
         virtual ~RuleBlock();
-        FL_DEFAULT_MOVE(RuleBlock)
+#ifndef FL_CPP98
+        RuleBlock(RuleBlock&& other);
+        RuleBlock& operator=(RuleBlock&& other);
+#endif
 
         /**
         Enables the rule block
diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 0a3865f..13c2bcc 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -72,8 +72,10 @@ namespace fuzzylite {
         );
         Variable(const Variable& other);
         Variable& operator=(const Variable& other);
-        //@todo: implement move assign without leaking memory
-        FL_DEFAULT_MOVE(Variable)
+#ifndef FL_CPP98
+        Variable(Variable&& other);
+        Variable& operator=(Variable&& other);
+#endif
         virtual ~Variable();
 
         /**
diff --git a/src/Engine.cpp b/src/Engine.cpp
index 3d45bf8..83223cd 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -109,6 +109,28 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Engine::Engine(Engine&& other) : _name(""), _description("") {
+        try {
+            *this = std::move(other);
+        } catch (...) {
+            clear();
+            throw;
+        }
+    }
+
+    Engine& Engine::operator=(Engine&& other) {
+        if (this != &other) {
+            Engine previous;
+            swap(previous);
+            swap(other);
+            // the terms refer to the engine they belong to
+            updateReferences();
+        }
+        return *this;
+    }
+#endif
+
     void Engine::swap(Engine& other) {
         _name.swap(other._name);
         _description.swap(other._description);
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index 5edc5ba..c6e9306 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -58,18 +58,37 @@ namespace fuzzylite {
     RuleBlock& RuleBlock::operator=(const RuleBlock& other) {
         if (this != &other) {
             RuleBlock copy(other);
-            _enabled = copy._enabled;
-            _name.swap(copy._name);
-            _description.swap(copy._description);
-            _conjunction.reset(copy._conjunction.release());
-            _disjunction.reset(copy._disjunction.release());
-            _implication.reset(copy._implication.release());
-            _activation.reset(copy._activation.release());
-            _rules.swap(copy._rules);
+            moveFrom(copy);
         }
         return *this;
     }
 
+#ifndef FL_CPP98
+    RuleBlock::RuleBlock(RuleBlock&& other) : _enabled(true) {
+        moveFrom(other);
+    }
+
+    RuleBlock& RuleBlock::operator=(RuleBlock&& other) {
+        if (this != &other) {
+            RuleBlock previous;
+            previous._rules.swap(_rules);
+            moveFrom(other);
+        }
+        return *this;
+    }
+#endif
+
+    void RuleBlock::moveFrom(RuleBlock& source) {
+        _enabled = source._enabled;
+        _name.swap(source._name);
+        _description.swap(source._description);
+        _conjunction.reset(source._conjunction.release());
+        _disjunction.reset(source._disjunction.release());
+        _implication.reset(source._implication.release());
+        _activation.reset(source._activation.release());
+        _rules.swap(source._rules);
+    }
+
     void RuleBlock::copyFrom(const RuleBlock& source) {
         _enabled = source._enabled;
         _name = source._name;
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index d3b8c83..36d5988 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -56,6 +56,25 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Variable::Variable(Variable&& other) :
+        _value(fl::nan),
+        _minimum(-fl::inf),
+        _maximum(fl::inf),
+        _enabled(true),
+        _lockValueInRange(false) {
+        swap(other);
+    }
+
+    Variable& Variable::operator=(Variable&& other) {
+        if (this != &other) {
+            Variable previous(std::move(*this));
+            swap(other);
+        }
+        return *this;
+    }
+#endif
+
     void Variable::swap(Variable& other) {
         _name.swap(other._name);
         _description.swap(other._description);
-- 
2.43.0


From 66f6e362bd1fde8e0a53c7eb061db211d81e7213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 15/21] fix: assignments of factories change nothing when
 memory is exhausted

---
 fuzzylite/factory/ConstructionFactory.h | 18 +++++++++++++++++-
 src/factory/FactoryManager.cpp          | 22 +++++++++++++++-------
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/fuzzylite/factory/ConstructionFactory.h b/fuzzylite/factory/ConstructionFactory.h
index e6673a5..c612037 100644
--- a/fuzzylite/factory/ConstructionFactory.h
+++ b/fuzzylite/factory/ConstructionFactory.h
@@ -55,7 +55,9 @@ namespace fuzzylite {
       public:
         explicit ConstructionFactory(const std::string& name);
         virtual ~ConstructionFactory();
-        FL_DEFAULT_COPY_AND_MOVE(ConstructionFactory)
+        ConstructionFactory(const ConstructionFactory& other);
+        ConstructionFactory& operator=(const ConstructionFactory& other);
+        FL_DEFAULT_MOVE(ConstructionFactory)
 
         /**
           Returns the name of the factory
@@ -132,6 +134,20 @@ namespace fuzzylite {
     template <typename T>
     inline ConstructionFactory<T>::ConstructionFactory(const std::string& name) : _name(name) {}
 
+    template <typename T>
+    inline ConstructionFactory<T>::ConstructionFactory(const ConstructionFactory& other) :
+        _name(other._name),
+        _constructors(other._constructors) {}
+
+    template <typename T>
+    inline ConstructionFactory<T>& ConstructionFactory<T>::operator=(const ConstructionFactory& other) {
+        std::string name(other._name);
+        std::map<std::string, Constructor> constructors(other._constructors);
+        this->_name.swap(name);
+        this->_constructors.swap(constructors);
+        return *this;
+    }
+
     template <typename T>
     inline ConstructionFactory<T>::~ConstructionFactory() {}
 
diff --git a/src/factory/FactoryManager.cpp b/src/factory/FactoryManager.cpp
index e71cb43..dad8448 100644
--- a/src/factory/FactoryManager.cpp
+++ b/src/factory/FactoryManager.cpp
@@ -64,13 +64,21 @@ namespace fuzzylite {
 
     void FactoryManager::copyFrom(const FactoryManager& other) {
         if (this != &other) {
-            _tnorm.reset(other.tnorm() ? other.tnorm()->clone() : fl::null);
-            _snorm.reset(other.snorm() ? other.snorm()->clone() : fl::null);
-            _activation.reset(other.activation() ? other.activation()->clone() : fl::null);
-            _defuzzifier.reset(other.defuzzifier() ? other.defuzzifier()->clone() : fl::null);
-            _term.reset(other.term() ? other.term()->clone() : fl::null);
-            _hedge.reset(other.hedge() ? other.hedge()->clone() : fl::null);
-            _function.reset(other.function() ? other.function()->clone() : fl::null);
+            // everything is cloned first so that nothing changes if cloning fails
+            FL_unique_ptr<TNormFactory> tnorm(other.tnorm() ? other.tnorm()->clone() : fl::null);
+            FL_unique_ptr<SNormFactory> snorm(other.snorm() ? other.snorm()->clone() : fl::null);
+            FL_unique_ptr<ActivationFactory> activation(other.activation() ? other.activation()->clone() : fl::null);
+            FL_unique_ptr<DefuzzifierFactory> defuzzifier(other.defuzzifier() ? other.defuzzifier()->clone() : fl::null);
+            FL_unique_ptr<TermFactory> term(other.term() ? other.term()->clone() : fl::null);
+            FL_unique_ptr<HedgeFactory> hedge(other.hedge() ? other.hedge()->clone() : fl::null);
+            FL_unique_ptr<FunctionFactory> function(other.function() ? other.function()->clone() : fl::null);
+            _tnorm.reset(tnorm.release());
+            _snorm.reset(snorm.release());
+            _activation.reset(activation.release());
+            _defuzzifier.reset(defuzzifier.release());
+            _term.reset(term.release());
+            _hedge.reset(hedge.release());
+            _function.reset(function.release());
         }
     }
 
-- 
2.43.0


From 63e198e102fe93e1adcdccbc8fba78ea76b60f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:35 +0000
Subject: [PATCH 16/21] fix: the interactive console discards inputs on restart
 and evaluates outputs once

---
 src/Console.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index cc1aeb1..cb6c700 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -407,8 +407,10 @@ namespace fuzzylite {
                 case 'r':
                 case 'R':
                     engine->restart();
-                    buffer << "#[Restart]";
-                    continue;  // fall through
+                    inputValues.clear();
+                    buffer << "#[Restart]#[Discard]\n>";
+                    inputValue.str("");
+                    break;
                 case 'd':
                 case 'D':
                     inputValues.clear();
@@ -439,7 +441,6 @@ namespace fuzzylite {
                         std::vector<scalar> outputValues;
                         for (std::size_t i = 0; i < engine->outputVariables().size(); ++i) {
                             OutputVariable* outputVariable = engine->outputVariables().at(i);
-                            outputVariable->defuzzify();
                             outputValues.push_back(outputVariable->getValue());
                         }
                         buffer << Op::join(outputValues, space) << "\n>";
-- 
2.43.0


From aaa41d76e8c29697b5d48e65b8f976d1fe482fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 17/21] fix: benchmarks report failures to write to standard
 output

---
 src/Console.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Console.cpp b/src/Console.cpp
index cb6c700..03169a9 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -1038,6 +1038,10 @@ namespace fuzzylite {
                 } else {
                     FL_LOGP(Op::join(Benchmark().header(runs, true), "\t"));
                     console.benchmark(fllFile, fldFile, runs, fl::null);
+                    if (not std::cout) {
+                        FL_LOG("[error] cannot write to standard output");
+                        return EXIT_FAILURE;
+                    }
                 }
             } catch (std::exception& ex) {
                 FL_LOGP(ex.what() << "\n");
@@ -1070,6 +1074,10 @@ namespace fuzzylite {
                     }
                 } else {
                     console.benchmarks(fllFiles, fldFiles, runs, fl::null);
+                    if (not std::cout) {
+                        FL_LOG("[error] cannot write to standard output");
+                        return EXIT_FAILURE;
+                    }
                 }
             } catch (std::exception& ex) {
                 FL_LOGP(ex.what() << "\n");
-- 
2.43.0


From 4ec2851888c6f6cceba31551b1bcfe914ff8dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 18/21] fix: benchmark results give the time of each run in the
 unit of the other times

---
 src/Benchmark.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 2da2e06..259cc3c 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -415,9 +415,10 @@ namespace fuzzylite {
 
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
-                result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
-                );
+                result.push_back(Result(
+                    "t" + Op::str(i + 1),
+                    Op::str(convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals())
+                ));
             }
         }
         return result;
-- 
2.43.0


From 4cbf19d2179b581bee9503a410494b524448f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 19/21] fix: a node of a formula can be assigned one of its own
 branches

---
 src/term/Function.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index e2dfe64..95fa074 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -154,11 +154,13 @@ namespace fuzzylite {
 
     Function::Node& Function::Node::operator=(const Node& other) {
         if (this != &other) {
-            element.reset(fl::null);
-            left.reset(fl::null);
-            right.reset(fl::null);
-
-            copyFrom(other);
+            // the other node may be a branch of this one
+            Node copy(other);
+            element.reset(copy.element.release());
+            left.reset(copy.left.release());
+            right.reset(copy.right.release());
+            variable.swap(copy.variable);
+            constant = copy.constant;
         }
         return *this;
     }
-- 
2.43.0


From 187b5d519e2a9e235ff9b356b99fd6cbaa1113e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 20/21] fix: name the rules that could not be loaded in the
 error of their rule block

---
 src/rule/RuleBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index c6e9306..5b2ba4d 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -134,7 +134,7 @@ namespace fuzzylite {
                 rule->load(engine);
             } catch (std::exception& ex) {
                 throwException = true;
-                exceptions << ex.what() << "\n";
+                exceptions << "<" << rule->getText() << ">: " << ex.what() << "\n";
             }
         }
         if (throwException) {
-- 
2.43.0


From 311b7054650c3dda27a496f6aece790e6e85a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 21/21] fix: Engine::isReady looks for the operators of the
 rules in their tokens

The keywords were searched in the text of the rules surrounded by blanks, so
that engines reported to be ready without the operators that their rules need
whenever the keywords were next to a tabulator or a parenthesis
---
 src/Engine.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 83223cd..912bdae 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -30,6 +30,7 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 #include "fuzzylite/rule/RuleBlock.h"
 #include "fuzzylite/term/Aggregated.h"
 #include "fuzzylite/term/Constant.h"
+#include "fuzzylite/term/Function.h"
 #include "fuzzylite/term/Linear.h"
 #include "fuzzylite/term/Ramp.h"
 #include "fuzzylite/term/SShape.h"
@@ -339,12 +340,19 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        bool hasConjunction = false;
+                        bool hasDisjunction = false;
+                        std::istringstream tokenizer(Function().space(rule->getText()));
+                        std::string token;
+                        while (tokenizer >> token and token != Rule::thenKeyword()) {
+                            if (token == Rule::andKeyword())
+                                hasConjunction = true;
+                            else if (token == Rule::orKeyword())
+                                hasDisjunction = true;
+                        }
+                        if (hasConjunction)
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (hasDisjunction)
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0

