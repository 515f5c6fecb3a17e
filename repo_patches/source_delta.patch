From 9bb89cd97130ec34bd7506760a37290925533d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 01/41] fix: release every expression when an antecedent fails
 to load

---
 src/rule/Antecedent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rule/Antecedent.cpp b/src/rule/Antecedent.cpp
index 8aba275..706997f 100644
--- a/src/rule/Antecedent.cpp
+++ b/src/rule/Antecedent.cpp
@@ -310,7 +310,7 @@ namespace fuzzylite {
                 throw Exception(ex.str(), FL_AT);
             }
         } catch (...) {
-            for (std::size_t i = 0; i < expressionStack.size(); ++i) {
+            while (not expressionStack.empty()) {
                 delete expressionStack.top();
                 expressionStack.pop();
             }
-- 
2.43.0


From b788c40e9709459ab5ae3681518509d13d372271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 02/41] fix: release every node when a formula fails to parse

---
 src/term/Function.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index 867e447..cf2d7a8 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -609,7 +609,12 @@ namespace fuzzylite {
             throw Exception("[function error] formula is empty", FL_AT);
         std::string postfix = toPostfix(formula);
 
-        std::stack<Node*> stack;
+        struct NodeStack : public std::stack<Node*> {
+            ~NodeStack() {
+                for (; not empty(); pop())
+                    delete top();
+            }
+        } stack;
 
         std::istringstream tokenizer(postfix);
         std::string token;
@@ -654,7 +659,9 @@ namespace fuzzylite {
         if (stack.size() != 1)
             throw Exception("[function error] ill-formed formula <" + formula + ">", FL_AT);
 
-        return stack.top();
+        Node* result = stack.top();
+        stack.pop();
+        return result;
     }
 
 }
-- 
2.43.0


From 6c23e82bd62f82b3c9a471eedf961d3c7fd2751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 03/41] fix: keep the text after the first replacement, and
 return when there is nothing to find

---
 fuzzylite/Operation.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 94f869b..aeea364 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -845,14 +845,15 @@ namespace fuzzylite {
         const std::string& str, const std::string& find, const std::string& replace, bool replaceAll
     ) {
         std::ostringstream result;
-        std::size_t fromIndex = 0, nextIndex;
-        do {
-            nextIndex = str.find(find, fromIndex);
-            result << str.substr(fromIndex, nextIndex - fromIndex);
-            if (nextIndex != std::string::npos)
-                result << replace;
+        if (find.empty())
+            return str;
+        std::size_t fromIndex = 0, nextIndex = str.find(find);
+        while (nextIndex != std::string::npos) {
+            result << str.substr(fromIndex, nextIndex - fromIndex) << replace;
             fromIndex = nextIndex + find.size();
-        } while (replaceAll and nextIndex != std::string::npos);
+            nextIndex = replaceAll ? str.find(find, fromIndex) : std::string::npos;
+        }
+        result << str.substr(fromIndex);
         return result.str();
     }
 
-- 
2.43.0


From 959cb2780c6d9b5b22897ac44a8847924656e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 04/41] fix: return the term removed from an aggregated set
 instead of a dangling reference

---
 fuzzylite/term/Aggregated.h | 2 +-
 src/term/Aggregated.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fuzzylite/term/Aggregated.h b/fuzzylite/term/Aggregated.h
index d03322e..ce73d68 100644
--- a/fuzzylite/term/Aggregated.h
+++ b/fuzzylite/term/Aggregated.h
@@ -199,7 +199,7 @@ namespace fuzzylite {
           @param index is the index of the term
           @return the removed term
          */
-        virtual const Activated& removeTerm(std::size_t index);
+        virtual Activated removeTerm(std::size_t index);
         /**
           Returns the number of activated terms
           @return the number of activated terms
diff --git a/src/term/Aggregated.cpp b/src/term/Aggregated.cpp
index ac3f1ea..3713f33 100644
--- a/src/term/Aggregated.cpp
+++ b/src/term/Aggregated.cpp
@@ -237,8 +237,8 @@ namespace fuzzylite {
         FL_DBG("Aggregating " << _terms.back().toString());
     }
 
-    const Activated& Aggregated::removeTerm(std::size_t index) {
-        const Activated& term = _terms.at(index);
+    Activated Aggregated::removeTerm(std::size_t index) {
+        const Activated term = _terms.at(index);
         _terms.erase(_terms.begin() + index);
         return term;
     }
-- 
2.43.0


From 14a4cb31999baf4d015bfe9a912298367e33a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 05/41] fix: delete the object replaced by registering another
 one by the same key

---
 fuzzylite/factory/CloningFactory.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 962e6e5..4c73886 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -157,7 +157,10 @@ namespace fuzzylite {
 
     template <typename T>
     inline void CloningFactory<T>::registerObject(const std::string& key, T object) {
-        this->_objects[key] = object;
+        T& registered = this->_objects[key];
+        if (registered and registered != object)
+            delete registered;
+        registered = object;
     }
 
     template <typename T>
-- 
2.43.0


From 156276986574265a9fcf61d861e116054670d8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 06/41] fix: keep the enabled flag and the weight of the rules
 when copying an engine

---
 src/Engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 018c669..2ea1b6b 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -99,6 +99,12 @@ namespace fuzzylite {
             } catch (...) {
                 // ignore
             }
+            // loading a rule enables it and resets its weight to that in its text
+            for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
+                const Rule* source = other._ruleBlocks.at(i)->getRule(r);
+                ruleBlock->getRule(r)->setEnabled(source->isEnabled());
+                ruleBlock->getRule(r)->setWeight(source->getWeight());
+            }
             _ruleBlocks.push_back(ruleBlock);
         }
     }
-- 
2.43.0


From a55d8256eaf0ec8fe4c57f77af30ea0c33a85be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 07/41] fix: make the fuzzy outputs of a copied engine refer to
 its own terms and operators

---
 src/Engine.cpp                  | 8 ++++++++
 src/variable/OutputVariable.cpp | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 2ea1b6b..e6183f7 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -106,6 +106,14 @@ namespace fuzzylite {
                 ruleBlock->getRule(r)->setWeight(source->getWeight());
             }
             _ruleBlocks.push_back(ruleBlock);
+
+            // the activated terms must refer to the implication operators of this engine
+            for (std::size_t o = 0; o < _outputVariables.size(); ++o) {
+                std::vector<Activated>& terms = _outputVariables.at(o)->fuzzyOutput()->terms();
+                for (std::size_t t = 0; t < terms.size(); ++t)
+                    if (terms.at(t).getImplication() == other._ruleBlocks.at(i)->getImplication())
+                        terms.at(t).setImplication(ruleBlock->getImplication());
+            }
         }
     }
 
diff --git a/src/variable/OutputVariable.cpp b/src/variable/OutputVariable.cpp
index b8c327c..170d0fc 100644
--- a/src/variable/OutputVariable.cpp
+++ b/src/variable/OutputVariable.cpp
@@ -49,6 +49,13 @@ namespace fuzzylite {
 
     void OutputVariable::copyFrom(const OutputVariable& other) {
         _fuzzyOutput.reset(other._fuzzyOutput->clone());
+        // the activated terms must refer to the terms of this variable
+        for (std::size_t i = 0; i < _fuzzyOutput->numberOfTerms(); ++i) {
+            Activated& activated = _fuzzyOutput->terms().at(i);
+            for (std::size_t t = 0; t < other.numberOfTerms(); ++t)
+                if (activated.getTerm() == other.getTerm(t))
+                    activated.setTerm(getTerm(t));
+        }
         if (other._defuzzifier.get())
             _defuzzifier.reset(other._defuzzifier->clone());
         _previousValue = other._previousValue;
-- 
2.43.0


From cbf0f5635bc6b8c30bc46614b9e7b7b96ae375e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 08/41] fix: do not evaluate the previous formula after another
 one fails to parse

---
 src/term/Function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/Function.cpp b/src/term/Function.cpp
index cf2d7a8..3cbad37 100644
--- a/src/term/Function.cpp
+++ b/src/term/Function.cpp
@@ -442,6 +442,7 @@ namespace fuzzylite {
     void Function::load(const std::string& formula, const Engine* engine) {
         setFormula(formula);
         setEngine(engine);
+        this->_root.reset(fl::null);
         this->_root.reset(parse(formula));
         // TODO: Remove execution of membership because it does not allow to pass variables different from x
         membership(0.0);  // make sure function evaluates without throwing exception.
-- 
2.43.0


From 1053a0401f6da525b9c8d8f9f24ed02ae654cf0a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 09/41] fix: FisExporter wrote the class of Binary terms
 without its closing quote

---
 src/imex/FisExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 711c9af..5ce2e52 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -337,7 +337,7 @@ namespace fuzzylite {
         }
 
         if (const Binary* x = dynamic_cast<const Binary*>(term)) {
-            ss << "'binarymf,[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
+            ss << "'binarymf',[" << Op::join(2, " ", x->getStart(), x->getDirection()) << "]";
             return ss.str();
         }
 
-- 
2.43.0


From 69f178a48bb3d47edcb205ca7f2c46eda9b234c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 10/41] fix: FisImporter refused formulas with commas and
 joined the words of formulas

---
 src/imex/FisImporter.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 87c798c..f76f7f9 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -468,8 +468,14 @@ namespace fuzzylite {
                 FL_AT
             );
         }
-        std::vector<std::string> termParams = Op::split(nameTerm.at(1), ",");
-        if (termParams.size() != 2) {
+        // only the first comma is a separator: the formula of a function may contain others
+        const std::string& classAndParameters = nameTerm.at(1);
+        const std::size_t comma = classAndParameters.find(',');
+        std::vector<std::string> termParams;
+        termParams.push_back(classAndParameters.substr(0, comma));
+        if (comma != std::string::npos)
+            termParams.push_back(classAndParameters.substr(comma + 1));
+        if (termParams.size() != 2 or termParams.at(0).empty() or termParams.at(1).empty()) {
             throw Exception(
                 "[syntax error] expected term in format 'name':'class',[params], "
                 "but found "
@@ -550,10 +556,7 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(sortedParams, separator));
+        term->configure(Op::join(sortedParams, " "));
         return term.release();
     }
 
-- 
2.43.0


From ea0670b0d9c24e07ad50afcedde733143d55479c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 11/41] fix: FclImporter joined the words of formulas

---
 src/imex/FclImporter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index 56e49d4..bcfefaf 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -429,10 +429,12 @@ namespace fuzzylite {
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
         term->updateReference(engine);
         term->setName(Op::validName(name));
-        std::string separator;
-        if (not dynamic_cast<Function*>(term.get()))
-            separator = " ";
-        term->configure(Op::join(parameters, separator));  // remove spaces for text of function
+        if (dynamic_cast<Function*>(term.get())) {
+            // the formula is the text after the class, because joining its tokens would join its words too
+            const std::size_t start = line.find(termClass, line.find(":=")) + termClass.size();
+            term->configure(Op::trim(line.substr(start)));
+        } else
+            term->configure(Op::join(parameters, " "));
         return term.release();
     }
 
-- 
2.43.0


From d94f7ae8539cf38a4c1397daa61aaf7633ae4ec8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 12/41] fix: FclImporter kept only the last word of the name of
 a rule block

---
 src/imex/FclImporter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index bcfefaf..e009b7a 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -270,9 +270,9 @@ namespace fuzzylite {
 
         std::string name;
         std::getline(blockReader, line);
-        std::size_t index = line.find_last_of(' ');
+        std::size_t index = line.find_first_of(' ');
         if (index != std::string::npos)
-            name = line.substr(index + 1);
+            name = Op::trim(line.substr(index + 1));
         RuleBlock* ruleblock = new RuleBlock(name);
         ruleblock->setActivation(new General);
         engine->addRuleBlock(ruleblock);
-- 
2.43.0


From 5448e79b4d61f0d71c2fcb12e8044117b5dffcf6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 18:16:05 +0000
Subject: [PATCH 13/41] fix: FisExporter silently dropped propositions that fis
 files cannot express

---
 src/imex/FisExporter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/imex/FisExporter.cpp b/src/imex/FisExporter.cpp
index 5ce2e52..8969dd1 100644
--- a/src/imex/FisExporter.cpp
+++ b/src/imex/FisExporter.cpp
@@ -212,6 +212,7 @@ namespace fuzzylite {
         const std::vector<Proposition*>& propositions, const std::vector<Variable*> variables
     ) const {
         std::ostringstream ss;
+        std::size_t translated = 0;
         for (std::size_t ixVariable = 0; ixVariable < variables.size(); ++ixVariable) {
             Variable* variable = variables.at(ixVariable);
             std::size_t termIndexPlusOne = 0;
@@ -221,6 +222,7 @@ namespace fuzzylite {
                 Proposition* proposition = propositions.at(ixProposition);
                 if (proposition->variable != variable)
                     continue;
+                ++translated;
 
                 for (std::size_t termIndex = 0; termIndex < variable->numberOfTerms(); ++termIndex) {
                     if (variable->getTerm(termIndex) == proposition->term) {
@@ -262,6 +264,14 @@ namespace fuzzylite {
                 ss << termIndexPlusOne << ".?";  // Unreconized hedge combination
             ss << " ";
         }
+        if (translated != propositions.size()) {
+            throw Exception(
+                "[exporter error] "
+                "fis files do not support rules with more than one proposition for a variable, "
+                "or with output variables in the antecedent",
+                FL_AT
+            );
+        }
         return ss.str();
     }
 
-- 
2.43.0


From c42377272b8e77dce550d2ae81d1358ca7a65833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 14/41] fix: configuring an engine with an unknown operator
 leaked the operators constructed before it

---
 src/Engine.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index e6183f7..71576e4 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -148,20 +148,21 @@ namespace fuzzylite {
         DefuzzifierFactory* defuzzFactory = FactoryManager::instance()->defuzzifier();
         ActivationFactory* activationFactory = FactoryManager::instance()->activation();
 
-        TNorm* conjunctionObject = tnormFactory->constructObject(conjunction);
-        SNorm* disjunctionObject = snormFactory->constructObject(disjunction);
-        TNorm* implicationObject = tnormFactory->constructObject(implication);
-        SNorm* aggregationObject = snormFactory->constructObject(aggregation);
-        Defuzzifier* defuzzifierObject = defuzzFactory->constructObject(defuzzifier);
-        Activation* activationObject = activationFactory->constructObject(activation);
+        // own the objects until all of them are constructed, as constructing them may throw
+        FL_unique_ptr<TNorm> conjunctionObject(tnormFactory->constructObject(conjunction));
+        FL_unique_ptr<SNorm> disjunctionObject(snormFactory->constructObject(disjunction));
+        FL_unique_ptr<TNorm> implicationObject(tnormFactory->constructObject(implication));
+        FL_unique_ptr<SNorm> aggregationObject(snormFactory->constructObject(aggregation));
+        FL_unique_ptr<Defuzzifier> defuzzifierObject(defuzzFactory->constructObject(defuzzifier));
+        FL_unique_ptr<Activation> activationObject(activationFactory->constructObject(activation));
 
         configure(
-            conjunctionObject,
-            disjunctionObject,
-            implicationObject,
-            aggregationObject,
-            defuzzifierObject,
-            activationObject
+            conjunctionObject.release(),
+            disjunctionObject.release(),
+            implicationObject.release(),
+            aggregationObject.release(),
+            defuzzifierObject.release(),
+            activationObject.release()
         );
     }
 
-- 
2.43.0


From 6509270f7540a54c44b30c45dd8cdeb674a36cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 15/41] fix: FisImporter converted codes of terms that do not
 fit an integer

---
 src/imex/FisImporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index f76f7f9..569e204 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -331,9 +331,9 @@ namespace fuzzylite {
     }
 
     std::string FisImporter::translateProposition(scalar code, Variable* variable) const {
-        int intPart = (int)std::floor(std::abs(code)) - 1;
+        const scalar termPart = std::floor(std::abs(code)) - 1;
         scalar fracPart = std::fmod(std::abs(code), scalar(1.0));
-        if (intPart >= static_cast<int>(variable->numberOfTerms())) {
+        if (not(termPart < scalar(variable->numberOfTerms()))) {  // including nan
             std::ostringstream ex;
             ex << "[syntax error] the code <" << code
                << "> refers to a term "
@@ -342,6 +342,7 @@ namespace fuzzylite {
             throw Exception(ex.str(), FL_AT);
         }
 
+        const int intPart = static_cast<int>(termPart);
         bool isAny = intPart < 0;
         std::ostringstream ss;
         if (code < 0)
-- 
2.43.0


From 65e61ba617d3f5712cd6adf31a67f7c96860a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 16/41] fix: FclImporter raised std::out_of_range for a rule
 without text

---
 src/imex/FclImporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index e009b7a..b937d6a 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -291,8 +291,9 @@ namespace fuzzylite {
                 std::size_t ruleStart = line.find_first_of(':');
                 if (ruleStart == std::string::npos)
                     ruleStart = 4;  // "RULE".size()
-                std::string ruleText = line.substr(ruleStart + 1);
-                ruleText = Op::trim(ruleText);
+                std::string ruleText;
+                if (ruleStart < line.size())
+                    ruleText = Op::trim(line.substr(ruleStart + 1));
                 Rule* rule = new Rule(ruleText);
                 try {
                     rule->load(engine);
-- 
2.43.0


From 824701901368a5813fc3e534b9e233b5b8dc4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 17/41] fix: FllImporter leaked activation methods and
 defuzzifiers with wrong parameters

---
 src/imex/FllImporter.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index efbb374..73a6308 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -278,7 +278,7 @@ namespace fuzzylite {
         if (name == "none")
             return FactoryManager::instance()->activation()->constructObject("");
         std::vector<std::string> tokens = Op::split(name, " ");
-        Activation* result = FactoryManager::instance()->activation()->constructObject(tokens.front());
+        FL_unique_ptr<Activation> result(FactoryManager::instance()->activation()->constructObject(tokens.front()));
 
         std::ostringstream parameters;
         for (std::size_t i = 1; i < tokens.size(); ++i) {
@@ -286,8 +286,9 @@ namespace fuzzylite {
             if (i + 1 < tokens.size())
                 parameters << " ";
         }
-        result->configure(parameters.str());
-        return result;
+        if (result.get())
+            result->configure(parameters.str());
+        return result.release();
     }
 
     Defuzzifier* FllImporter::parseDefuzzifier(const std::string& text) const {
@@ -295,12 +296,12 @@ namespace fuzzylite {
         std::string name = parameters.at(0);
         if (name == "none")
             return FactoryManager::instance()->defuzzifier()->constructObject("");
-        Defuzzifier* defuzzifier = FactoryManager::instance()->defuzzifier()->constructObject(name);
+        FL_unique_ptr<Defuzzifier> defuzzifier(FactoryManager::instance()->defuzzifier()->constructObject(name));
         if (parameters.size() > 1) {
             std::string parameter(parameters.at(1));
-            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier)) {
+            if (IntegralDefuzzifier* integralDefuzzifier = dynamic_cast<IntegralDefuzzifier*>(defuzzifier.get())) {
                 integralDefuzzifier->setResolution((int)Op::toScalar(parameter));
-            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier)) {
+            } else if (WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<WeightedDefuzzifier*>(defuzzifier.get())) {
                 WeightedDefuzzifier::Type type = WeightedDefuzzifier::Automatic;
                 if (parameter == "Automatic")
                     type = WeightedDefuzzifier::Automatic;
@@ -315,7 +316,7 @@ namespace fuzzylite {
                 weightedDefuzzifier->setType(type);
             }
         }
-        return defuzzifier;
+        return defuzzifier.release();
     }
 
     std::pair<scalar, scalar> FllImporter::parseRange(const std::string& text) const {
-- 
2.43.0


From b9f11d34d8607f63dfb1f8e5d2e4191135e00eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 18/41] fix: importers dereferenced null for terms without a
 class

---
 src/imex/FclImporter.cpp | 2 ++
 src/imex/FisImporter.cpp | 2 ++
 src/imex/FllImporter.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/imex/FclImporter.cpp b/src/imex/FclImporter.cpp
index b937d6a..75676c7 100644
--- a/src/imex/FclImporter.cpp
+++ b/src/imex/FclImporter.cpp
@@ -428,6 +428,8 @@ namespace fuzzylite {
 
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(termClass));
+        if (not term.get())
+            throw Exception("[import error] expected the class of term <" + name + ">, but found none", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
         if (dynamic_cast<Function*>(term.get())) {
diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 569e204..b0cda73 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -555,6 +555,8 @@ namespace fuzzylite {
 
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(flClass));
+        if (not term.get())
+            throw Exception("[import error] expected the class of term <" + name + ">, but found none", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(name));
         term->configure(Op::join(sortedParams, " "));
diff --git a/src/imex/FllImporter.cpp b/src/imex/FllImporter.cpp
index 73a6308..1340583 100644
--- a/src/imex/FllImporter.cpp
+++ b/src/imex/FllImporter.cpp
@@ -250,6 +250,8 @@ namespace fuzzylite {
         }
         FL_unique_ptr<Term> term;
         term.reset(FactoryManager::instance()->term()->constructObject(tokens.at(1)));
+        if (not term.get())
+            throw Exception("[import error] expected the class of term <" + tokens.at(0) + ">, but found none", FL_AT);
         term->updateReference(engine);
         term->setName(Op::validName(tokens.at(0)));
         std::ostringstream parameters;
-- 
2.43.0


From 0e6309f1ef6545448786cb9f658e96999175281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 19/41] fix: Discrete terms with nan abscissas read out of
 bounds

---
 src/term/Discrete.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/term/Discrete.cpp b/src/term/Discrete.cpp
index 2017973..8f748ec 100644
--- a/src/term/Discrete.cpp
+++ b/src/term/Discrete.cpp
@@ -69,6 +69,9 @@ namespace fuzzylite {
             return Term::_height * lowerBound->second;
         // find the upper bound starting from a copy of lowerBound
         const Bound upperBound(std::upper_bound(_xy.begin(), _xy.end(), value, compare));
+        // the pairs are not ordered if their abscissas are nan
+        if (lowerBound == _xy.begin() or upperBound == _xy.end())
+            return fl::nan;
         --lowerBound;  // One arithmetic
         return Term::_height
                * Op::scale(x, lowerBound->first, upperBound->first, lowerBound->second, upperBound->second);
-- 
2.43.0


From f616dbfa019356b576924ebba0fe920c7d067098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:55 +0000
Subject: [PATCH 20/41] fix: FisImporter raised std::out_of_range for a
 property without a key

---
 src/imex/FisImporter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index b0cda73..971c226 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -100,6 +100,13 @@ namespace fuzzylite {
         std::getline(reader, line);  // ignore first line [System]
         while (std::getline(reader, line)) {
             std::vector<std::string> keyValue = Op::split(line, "=");
+            if (keyValue.empty())
+                throw Exception(
+                    "[syntax error] expected a property of type "
+                    "'key=value', but found <"
+                        + line + ">",
+                    FL_AT
+                );
 
             std::string key = Op::trim(keyValue.at(0));
             std::string value;
-- 
2.43.0


From 90300d4e9ba8fc8923bd74f603d09860ea9490ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 21/41] fix: the bisector raised std::length_error for negative
 resolutions, where other defuzzifiers give nan

---
 fuzzylite/Operation.h        | 2 ++
 src/defuzzifier/Bisector.cpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index aeea364..17d2486 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -677,6 +677,8 @@ namespace fuzzylite {
 
     inline std::vector<scalar> Operation::midpoints(scalar start, scalar end, int resolution) {
         std::vector<scalar> result;
+        if (resolution <= 0)
+            return result;
         result.reserve(resolution);
         const scalar dx = (end - start) / resolution;
         for (int i = 0; i < resolution; ++i)
diff --git a/src/defuzzifier/Bisector.cpp b/src/defuzzifier/Bisector.cpp
index 27e3b04..f8158b2 100644
--- a/src/defuzzifier/Bisector.cpp
+++ b/src/defuzzifier/Bisector.cpp
@@ -35,7 +35,7 @@ namespace fuzzylite {
 
         const std::vector<scalar> x = Op::midpoints(minimum, maximum, getResolution());
         std::vector<scalar> ysum;
-        ysum.reserve(getResolution());
+        ysum.reserve(x.size());
         scalar sum = 0.0;
 
         // Compute area
-- 
2.43.0


From 5d68d49fe0dce46ee11a3f19b91cd5d572b6af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 22/41] fix: FldExporter lost a value per variable when the
 root is exact (729 values for 3 variables gave 8 each)

---
 src/imex/FldExporter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/imex/FldExporter.cpp b/src/imex/FldExporter.cpp
index f1d20c3..5e6524d 100644
--- a/src/imex/FldExporter.cpp
+++ b/src/imex/FldExporter.cpp
@@ -209,9 +209,13 @@ namespace fuzzylite {
         }
 
         int resolution;
-        if (scope == AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+        if (scope == AllVariables) {
+            const double variables = std::max(1.0, (double)engine->numberOfInputVariables());
+            resolution = (int)std::max(1.0, std::pow(values, 1.0 / variables));
+            if (std::pow(resolution + 1.0, variables) <= values)
+                ++resolution;  // the root is inexact, e.g., std::pow(1000, 1.0 / 3.0) < 10
+            --resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 3b5a7716930e88cb5e819f186570ab3de4048ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:32 +0000
Subject: [PATCH 23/41] fix: Benchmark::prepare lost a value per variable when
 the root is exact

---
 src/Benchmark.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d8f8c26..4881d6d 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -91,9 +91,13 @@ namespace fuzzylite {
         if (not _engine)
             throw Exception("[benchmark error] engine not set before preparing for values and scope", FL_AT);
         int resolution;
-        if (scope == FldExporter::AllVariables)
-            resolution = -1 + (int)std::max(1.0, std::pow(values, 1.0 / _engine->numberOfInputVariables()));
-        else  // if (scope == EachVariable)
+        if (scope == FldExporter::AllVariables) {
+            const double variables = std::max(1.0, (double)_engine->numberOfInputVariables());
+            resolution = (int)std::max(1.0, std::pow(values, 1.0 / variables));
+            if (std::pow(resolution + 1.0, variables) <= values)
+                ++resolution;  // the root is inexact, e.g., std::pow(1000, 1.0 / 3.0) < 10
+            --resolution;
+        } else  // if (scope == EachVariable)
             resolution = values - 1;
 
         std::vector<int> sampleValues, minSampleValues, maxSampleValues;
-- 
2.43.0


From 58a229fb47b43060f8e5905facb1e3b16dc33fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:03 +0000
Subject: [PATCH 24/41] fix: Engine::isReady missed the operators of rules
 spaced in other ways than one blank

---
 src/Engine.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Engine.cpp b/src/Engine.cpp
index 71576e4..d9e999d 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -252,12 +252,19 @@ namespace fuzzylite {
                         ss << "- Rule block " << (i + 1) << " <" << ruleblock->getName()
                            << "> has a fl::null rule at index <" << r << ">\n";
                     } else {
-                        std::size_t thenIndex = rule->getText().find(" " + Rule::thenKeyword() + " ");
-                        std::size_t andIndex = rule->getText().find(" " + Rule::andKeyword() + " ");
-                        std::size_t orIndex = rule->getText().find(" " + Rule::orKeyword() + " ");
-                        if (andIndex != std::string::npos and andIndex < thenIndex)
+                        // words in the antecedent are separated by any whitespace and by parentheses
+                        std::istringstream words(
+                            Op::findReplace(Op::findReplace(rule->getText(), "(", " ( "), ")", " ) ")
+                        );
+                        bool hasAnd = false, hasOr = false;
+                        std::string word;
+                        while (words >> word and word != Rule::thenKeyword()) {
+                            hasAnd = hasAnd or word == Rule::andKeyword();
+                            hasOr = hasOr or word == Rule::orKeyword();
+                        }
+                        if (hasAnd)
                             ++requiresConjunction;
-                        if (orIndex != std::string::npos and orIndex < thenIndex)
+                        if (hasOr)
                             ++requiresDisjunction;
                         if (rule->isLoaded()) {
                             Consequent* consequent = rule->getConsequent();
-- 
2.43.0


From fd6a7d441a3cf37eb099b5ea7fae37e3271da62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 25/41] fix: Operation::validName gave an empty name for texts
 without valid characters

---
 fuzzylite/Operation.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Operation.h b/fuzzylite/Operation.h
index 17d2486..5ce82cd 100644
--- a/fuzzylite/Operation.h
+++ b/fuzzylite/Operation.h
@@ -840,7 +840,8 @@ namespace fuzzylite {
             if (c == '_' or c == '.' or isalnum(c))
                 ss << c;
         }
-        return ss.str();
+        const std::string result = ss.str();
+        return result.empty() ? "_" : result;
     }
 
     inline std::string Operation::findReplace(
-- 
2.43.0


From c6d83d4a189c65be5ce1888a948f7d9052f1caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 26/41] fix: the interactive console kept the current inputs
 when restarting, which its help says are discarded

---
 src/Console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index 33b8d3c..d9e75ff 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -398,7 +398,7 @@ namespace fuzzylite {
                 case 'R':
                     engine->restart();
                     buffer << "#[Restart]";
-                    continue;  // fall through
+                    // fall through
                 case 'd':
                 case 'D':
                     inputValues.clear();
-- 
2.43.0


From c3d40257f37de10292e62747cdcf6b6bd0c56824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 27/41] fix: the command-line application exited with success
 after errors

---
 src/main.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index d93fa6a..5cfdf92 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -34,10 +34,9 @@ int main(int argc, const char* argv[]) {
     fl::fuzzylite::setDebugging(false);
 
     try {
-        fl::Console::main(argc, argv);
+        return fl::Console::main(argc, argv);
     } catch (std::exception& ex) {
         std::cout << ex.what() << "\nBACKTRACE:\n" << fl::Exception::btCallStack() << std::endl;
         return EXIT_FAILURE;
     }
-    return EXIT_SUCCESS;
 }
-- 
2.43.0


From 72290c244b0ebf5c4cf775532199b47f6aef5f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 28/41] fix: Benchmark::results gave the times of the runs in
 nanoseconds whatever the unit of the results

---
 src/Benchmark.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index 4881d6d..d2e42da 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -417,9 +417,10 @@ namespace fuzzylite {
 
         if (includeTimes) {
             for (std::size_t i = 0; i < time.size(); ++i) {
-                result.push_back(
-                    Result("t" + Op::str(i + 1), Op::str(time.at(i), unit == NanoSeconds ? 0 : fuzzylite::decimals()))
-                );
+                result.push_back(Result(
+                    "t" + Op::str(i + 1),
+                    Op::str(convert(time.at(i), NanoSeconds, unit), unit == NanoSeconds ? 0 : fuzzylite::decimals())
+                ));
             }
         }
         return result;
-- 
2.43.0


From d93c25f912e8e73bdd2c38ba8286aa5f30204cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 29/41] fix: Benchmark computed errors of rows with too few
 values, failing with std::out_of_range

---
 src/Benchmark.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/Benchmark.cpp b/src/Benchmark.cpp
index d2e42da..76a1966 100644
--- a/src/Benchmark.cpp
+++ b/src/Benchmark.cpp
@@ -202,11 +202,14 @@ namespace fuzzylite {
     }
 
     bool Benchmark::canComputeErrors() const {
-        return not(
-            _engine == fl::null or _expected.empty() or _obtained.empty() or _expected.size() != _obtained.size()
-            or _expected.front().size() != _obtained.front().size()
-            or _expected.front().size() != _engine->variables().size()
-        );
+        if (_engine == fl::null or _expected.empty() or _obtained.empty() or _expected.size() != _obtained.size())
+            return false;
+        const std::size_t values = _engine->variables().size();
+        for (std::size_t i = 0; i < _expected.size(); ++i) {
+            if (_expected.at(i).size() != values or _obtained.at(i).size() != values)
+                return false;
+        }
+        return true;
     }
 
     scalar Benchmark::meanSquaredError() const {
-- 
2.43.0


From cf5ae2bd4131f0c9dd8451d764a8ed59bb93569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 30/41] fix: the decimals option of the command-line
 application rounded the engines of the examples

---
 src/Console.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index d9e75ff..c542249 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -154,10 +154,6 @@ namespace fuzzylite {
     void Console::process(const std::map<std::string, std::string>& options) {
         std::map<std::string, std::string>::const_iterator it;
 
-        it = options.find(KW_DECIMALS);
-        if (it != options.end())
-            fuzzylite::setDecimals((int)Op::toScalar(it->second));
-
         std::string example;
         std::string inputFormat;
         std::ostringstream textEngine;
@@ -204,6 +200,10 @@ namespace fuzzylite {
             }
         }
 
+        it = options.find(KW_DECIMALS);
+        if (it != options.end())
+            fuzzylite::setDecimals((int)Op::toScalar(it->second));
+
         std::string outputFilename;
         it = options.find(KW_OUTPUT_FILE);
         if (it != options.end())
-- 
2.43.0


From 6cba7fa8e3a9f8fa43a735260c8b888ab7bf227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 31/41] fix: the interactive console defuzzified twice,
 advancing outputs that refer to outputs

---
 src/Console.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Console.cpp b/src/Console.cpp
index c542249..5ad0c0e 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -429,7 +429,6 @@ namespace fuzzylite {
                         std::vector<scalar> outputValues;
                         for (std::size_t i = 0; i < engine->outputVariables().size(); ++i) {
                             OutputVariable* outputVariable = engine->outputVariables().at(i);
-                            outputVariable->defuzzify();
                             outputValues.push_back(outputVariable->getValue());
                         }
                         buffer << Op::join(outputValues, space) << "\n>";
-- 
2.43.0


From 81f8be779b3991f68eb90c801f7b9e86d9e0ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 32/41] fix: export-examples failed at the examples that fis
 files cannot express

---
 src/Console.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Console.cpp b/src/Console.cpp
index 5ad0c0e..a6f37d2 100644
--- a/src/Console.cpp
+++ b/src/Console.cpp
@@ -822,6 +822,13 @@ namespace fuzzylite {
                 }
             }
 
+            if (to == "fis"
+                and ("mamdani/Laundry" == example or "mamdani/SimpleDimmerInverse" == example
+                     or "mamdani/SimpleDimmerChained" == example)) {
+                FL_LOG("Not exported: fis files do not support output variables in antecedents\n");
+                continue;
+            }
+
             std::string output = targetPath + "/" + example + "." + to;
             std::ofstream target(output.c_str());
             FL_LOG("Exporting to: " << output << "\n");
-- 
2.43.0


From 5d33ca382755a17a370a3da5fcdb63d430b5ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 33/41] fix: FisImporter rounded the weights of rules to the
 decimals that the library writes

---
 src/imex/FisImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/FisImporter.cpp b/src/imex/FisImporter.cpp
index 971c226..73b68b2 100644
--- a/src/imex/FisImporter.cpp
+++ b/src/imex/FisImporter.cpp
@@ -326,7 +326,7 @@ namespace fuzzylite {
 
             scalar weight = Op::toScalar(ss.str());
             if (not Op::isEq(weight, 1.0))
-                ruleText << " " << Rule::withKeyword() << " " << Op::str(weight);
+                ruleText << " " << Rule::withKeyword() << " " << ss.str();
             Rule* rule = new Rule(ruleText.str());
             try {
                 rule->load(engine);
-- 
2.43.0


From 8788d23036192367b536bec8b47880977eecdc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 34/41] fix: CppExporter omitted the namespace of weighted
 defuzzifiers

---
 src/imex/CppExporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d2d0171..1d40d3b 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -238,7 +238,7 @@ namespace fuzzylite {
                    + ")";
         }
         if (const WeightedDefuzzifier* weightedDefuzzifier = dynamic_cast<const WeightedDefuzzifier*>(defuzzifier))
-            return "new " + weightedDefuzzifier->className() + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
+            return "new " + fl(weightedDefuzzifier->className()) + "(\"" + weightedDefuzzifier->getTypeName() + "\")";
         return "new " + fl(defuzzifier->className());
     }
 
-- 
2.43.0


From 1a3a19b41e17243db8033f12ed9413a400e694c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 35/41] fix: CppExporter and JavaExporter wrote infinite and
 undefined parameters as inf and nan, which do not compile

---
 src/imex/CppExporter.cpp  | 27 +++++++++++++++++++++++----
 src/imex/JavaExporter.cpp | 27 +++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 1d40d3b..756feae 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -21,6 +21,25 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+        // writes a number of the parameters, where inf and nan are not literals of the language
+        std::string literalOf(const std::string& number) {
+            if (number == "nan")
+                return "fl::nan";
+            if (number == "inf")
+                return "fl::inf";
+            if (number == "-inf")
+                return "-fl::inf";
+            return number;
+        }
+
+        std::string literalsOf(std::vector<std::string> numbers) {
+            for (std::size_t i = 0; i < numbers.size(); ++i)
+                numbers.at(i) = literalOf(numbers.at(i));
+            return Op::join(numbers, ", ");
+        }
+    }
+
     CppExporter::CppExporter(bool prefixNamespace, bool usingVariableNames) :
         Exporter(),
         _usingNamespace(prefixNamespace),
@@ -184,7 +203,7 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << ", " << literalsOf(Op::split(Op::join(Discrete::toVector(discrete->xy()), " "), " ")) << ")";
             return ss.str();
         }
 
@@ -198,13 +217,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << literalsOf(Op::split(term->parameters(), " ")) << ")";
         return ss.str();
     }
 
@@ -252,7 +271,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? literalOf(parameter) : ("\"" + parameter + "\""));
         }
         return "new " + fl(activation->className()) + "(" + Op::join(values, ", ") + ")";
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 8388433..2832868 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -21,6 +21,25 @@ fuzzylite is a registered trademark of FuzzyLite Limited.
 
 namespace fuzzylite {
 
+    namespace {
+        // writes a number of the parameters, where inf and nan are not literals of the language
+        std::string literalOf(const std::string& number) {
+            if (number == "nan")
+                return "Double.NaN";
+            if (number == "inf")
+                return "Double.POSITIVE_INFINITY";
+            if (number == "-inf")
+                return "Double.NEGATIVE_INFINITY";
+            return number;
+        }
+
+        std::string literalsOf(std::vector<std::string> numbers) {
+            for (std::size_t i = 0; i < numbers.size(); ++i)
+                numbers.at(i) = literalOf(numbers.at(i));
+            return Op::join(numbers, ", ");
+        }
+    }
+
     JavaExporter::JavaExporter(bool usingVariableNames) : Exporter(), _usingVariableNames(usingVariableNames) {}
 
     JavaExporter::~JavaExporter() {}
@@ -158,7 +177,7 @@ namespace fuzzylite {
             std::ostringstream ss;
             std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << Op::join(Discrete::toVector(discrete->xy()), ", ") << ")";
+               << literalsOf(Op::split(Op::join(Discrete::toVector(discrete->xy()), " "), " ")) << ")";
             return ss.str();
         }
 
@@ -172,13 +191,13 @@ namespace fuzzylite {
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
             ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
-               << Op::join(linear->coefficients(), ", ") << ")";
+               << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
         ss << "new " << term->className() << "(\"" << term->getName() << "\", "
-           << Op::findReplace(term->parameters(), " ", ", ") << ")";
+           << literalsOf(Op::split(term->parameters(), " ")) << ")";
         return ss.str();
     }
 
@@ -211,7 +230,7 @@ namespace fuzzylite {
         std::vector<std::string> values = Op::split(parameters, " ");
         for (std::size_t i = 0; i < values.size(); ++i) {
             std::string parameter = values.at(i);
-            values.at(i) = (Op::isNumeric(parameter) ? parameter : ("\"" + parameter + "\""));
+            values.at(i) = (Op::isNumeric(parameter) ? literalOf(parameter) : ("\"" + parameter + "\""));
         }
         return "new " + activation->className() + "(" + Op::join(values, ", ") + ")";
     }
-- 
2.43.0


From 20ec551c0971c772cf7c8b031ddee4b217ca3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 36/41] fix: CppExporter and JavaExporter omitted the heights
 of discrete terms

---
 src/imex/CppExporter.cpp  | 6 +++---
 src/imex/JavaExporter.cpp | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 756feae..45a450d 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -199,11 +199,11 @@ namespace fuzzylite {
         if (not term)
             return "fl::null";
 
-        // todo: export height in Discrete
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << (discrete->xy().size() * 2)
-               << ", " << literalsOf(Op::split(Op::join(Discrete::toVector(discrete->xy()), " "), " ")) << ")";
+            const std::vector<std::string> values = Op::split(discrete->parameters(), " ");
+            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << values.size() << ", "
+               << literalsOf(values) << ")";
             return ss.str();
         }
 
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 2832868..b56aae5 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -175,9 +175,8 @@ namespace fuzzylite {
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            std::vector<scalar> xy;
             ss << term->className() << ".create(\"" << term->getName() << "\", "
-               << literalsOf(Op::split(Op::join(Discrete::toVector(discrete->xy()), " "), " ")) << ")";
+               << literalsOf(Op::split(discrete->parameters(), " ")) << ")";
             return ss.str();
         }
 
-- 
2.43.0


From 7d48431c0d08a21833e84dc9d9661fc4cd997510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:41 +0000
Subject: [PATCH 37/41] fix: CppExporter wrote linear terms with other than a
 coefficient per input variable and a constant, which Linear::create does not
 read

---
 src/imex/CppExporter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 45a450d..d79ed5d 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -215,9 +215,17 @@ namespace fuzzylite {
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
+            std::vector<scalar> coefficients = linear->coefficients();
+            if (linear->getEngine()) {
+                // Linear::create reads a coefficient for each input variable and a constant
+                const std::size_t inputs = linear->getEngine()->numberOfInputVariables();
+                const scalar constant = coefficients.size() > inputs ? coefficients.back() : 0.0;
+                coefficients.resize(inputs, 0.0);
+                coefficients.push_back(constant);
+            }
             std::ostringstream ss;
             ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
-               << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " ")) << ")";
+               << literalsOf(Op::split(Op::join(coefficients, " "), " ")) << ")";
             return ss.str();
         }
 
-- 
2.43.0


From f7610e1d3382da0addbb1f40d59ff519c075146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 38/41] fix: CppExporter and JavaExporter did not escape quotes
 and backslashes of texts, which do not compile

---
 src/imex/CppExporter.cpp  | 39 ++++++++++++++++++++++++---------------
 src/imex/JavaExporter.cpp | 36 ++++++++++++++++++++++--------------
 2 files changed, 46 insertions(+), 29 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index d79ed5d..5f8d332 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -33,6 +33,14 @@ namespace fuzzylite {
             return number;
         }
 
+        // writes a text between quotes
+        std::string literalOfText(const std::string& text) {
+            std::string result = Op::findReplace(text, "\\", "\\\\");
+            result = Op::findReplace(result, "\"", "\\\"");
+            result = Op::findReplace(result, "\n", "\\n");
+            return "\"" + Op::findReplace(result, "\r", "\\r") + "\"";
+        }
+
         std::string literalsOf(std::vector<std::string> numbers) {
             for (std::size_t i = 0; i < numbers.size(); ++i)
                 numbers.at(i) = literalOf(numbers.at(i));
@@ -77,8 +85,8 @@ namespace fuzzylite {
         if (not isUsingNamespace())
             cpp << "using namespace fuzzylite;\n\n";
         cpp << fl("Engine* ") << "engine = new " << fl("Engine;\n");
-        cpp << "engine->setName(\"" << engine->getName() << "\");\n";
-        cpp << "engine->setDescription(\"" << engine->getDescription() << "\");\n";
+        cpp << "engine->setName(" << literalOfText(engine->getName()) << ");\n";
+        cpp << "engine->setDescription(" << literalOfText(engine->getDescription()) << ");\n";
 
         cpp << "\n";
 
@@ -110,8 +118,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("InputVariable* ") << name << " = new " << fl("InputVariable;\n");
-        ss << name << "->setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << literalOfText(inputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << literalOfText(inputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -138,8 +146,8 @@ namespace fuzzylite {
         }
         std::ostringstream ss;
         ss << fl("OutputVariable* ") << name << " = new " << fl("OutputVariable;\n");
-        ss << name << "->setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << "->setName(" << literalOfText(outputVariable->getName()) << ");\n";
+        ss << name << "->setDescription(" << literalOfText(outputVariable->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -172,16 +180,16 @@ namespace fuzzylite {
 
         std::ostringstream ss;
         ss << fl("RuleBlock* ") << name << " = new " << fl("RuleBlock;\n");
-        ss << name << "->setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << "->setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << "->setName(" << literalOfText(ruleBlock->getName()) << ");\n";
+        ss << name << "->setDescription(" << literalOfText(ruleBlock->getDescription()) << ");\n";
         ss << name << "->setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << "->setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << "->setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
         ss << name << "->setImplication(" << toString(ruleBlock->getImplication()) << ");\n";
         ss << name << "->setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t r = 0; r < ruleBlock->numberOfRules(); ++r) {
-            ss << name << "->addRule(" << fl("Rule") << "::parse(\"" << ruleBlock->getRule(r)->getText()
-               << "\", engine));\n";
+            ss << name << "->addRule(" << fl("Rule") << "::parse("
+               << literalOfText(ruleBlock->getRule(r)->getText()) << ", engine));\n";
         }
         ss << "engine->addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -202,15 +210,16 @@ namespace fuzzylite {
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
             const std::vector<std::string> values = Op::split(discrete->parameters(), " ");
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << values.size() << ", "
+            ss << fl(term->className()) << "::create(" << literalOfText(term->getName()) << ", "
+               << values.size() << ", "
                << literalsOf(values) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << fl(term->className()) << "::create(" << literalOfText(term->getName()) << ", "
+               << literalOfText(function->getFormula()) << ", engine)";
             return ss.str();
         }
 
@@ -224,13 +233,13 @@ namespace fuzzylite {
                 coefficients.push_back(constant);
             }
             std::ostringstream ss;
-            ss << fl(term->className()) << "::create(\"" << term->getName() << "\", " << "engine, "
+            ss << fl(term->className()) << "::create(" << literalOfText(term->getName()) << ", " << "engine, "
                << literalsOf(Op::split(Op::join(coefficients, " "), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << fl(term->className()) << "(\"" << term->getName() << "\", "
+        ss << "new " << fl(term->className()) << "(" << literalOfText(term->getName()) << ", "
            << literalsOf(Op::split(term->parameters(), " ")) << ")";
         return ss.str();
     }
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index b56aae5..4fc79e8 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -33,6 +33,14 @@ namespace fuzzylite {
             return number;
         }
 
+        // writes a text between quotes
+        std::string literalOfText(const std::string& text) {
+            std::string result = Op::findReplace(text, "\\", "\\\\");
+            result = Op::findReplace(result, "\"", "\\\"");
+            result = Op::findReplace(result, "\n", "\\n");
+            return "\"" + Op::findReplace(result, "\r", "\\r") + "\"";
+        }
+
         std::string literalsOf(std::vector<std::string> numbers) {
             for (std::size_t i = 0; i < numbers.size(); ++i)
                 numbers.at(i) = literalOf(numbers.at(i));
@@ -60,8 +68,8 @@ namespace fuzzylite {
         std::ostringstream ss;
         ss << "//Code automatically generated with " << fuzzylite::library() << ".\n\n";
         ss << "Engine engine = new Engine();\n";
-        ss << "engine.setName(\"" << engine->getName() << "\");\n";
-        ss << "engine.setDescription(\"" << engine->getDescription() << "\");\n";
+        ss << "engine.setName(" << literalOfText(engine->getName()) << ");\n";
+        ss << "engine.setDescription(" << literalOfText(engine->getDescription()) << ");\n";
         ss << "\n";
 
         for (std::size_t i = 0; i < engine->numberOfInputVariables(); ++i)
@@ -92,8 +100,8 @@ namespace fuzzylite {
             }
         }
         ss << "InputVariable " << name << " = new InputVariable();\n";
-        ss << name << ".setName(\"" << inputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << inputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << literalOfText(inputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << literalOfText(inputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (inputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(inputVariable->getMinimum()) << ", "
            << toString(inputVariable->getMaximum()) << ");\n";
@@ -120,8 +128,8 @@ namespace fuzzylite {
             }
         }
         ss << "OutputVariable " << name << " = new OutputVariable();\n";
-        ss << name << ".setName(\"" << outputVariable->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << outputVariable->getDescription() << "\");\n";
+        ss << name << ".setName(" << literalOfText(outputVariable->getName()) << ");\n";
+        ss << name << ".setDescription(" << literalOfText(outputVariable->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (outputVariable->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setRange(" << toString(outputVariable->getMinimum()) << ", "
            << toString(outputVariable->getMaximum()) << ");\n";
@@ -154,8 +162,8 @@ namespace fuzzylite {
         }
 
         ss << "RuleBlock " << name << " = new RuleBlock();\n";
-        ss << name << ".setName(\"" << ruleBlock->getName() << "\");\n";
-        ss << name << ".setDescription(\"" << ruleBlock->getDescription() << "\");\n";
+        ss << name << ".setName(" << literalOfText(ruleBlock->getName()) << ");\n";
+        ss << name << ".setDescription(" << literalOfText(ruleBlock->getDescription()) << ");\n";
         ss << name << ".setEnabled(" << (ruleBlock->isEnabled() ? "true" : "false") << ");\n";
         ss << name << ".setConjunction(" << toString(ruleBlock->getConjunction()) << ");\n";
         ss << name << ".setDisjunction(" << toString(ruleBlock->getDisjunction()) << ");\n";
@@ -163,7 +171,7 @@ namespace fuzzylite {
         ss << name << ".setActivation(" << toString(ruleBlock->getActivation()) << ");\n";
         for (std::size_t i = 0; i < ruleBlock->numberOfRules(); ++i) {
             Rule* rule = ruleBlock->getRule(i);
-            ss << name << ".addRule(Rule.parse(\"" << rule->getText() << "\", engine));\n";
+            ss << name << ".addRule(Rule.parse(" << literalOfText(rule->getText()) << ", engine));\n";
         }
         ss << "engine.addRuleBlock(" << name << ");\n";
         return ss.str();
@@ -175,27 +183,27 @@ namespace fuzzylite {
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", "
+            ss << term->className() << ".create(" << literalOfText(term->getName()) << ", "
                << literalsOf(Op::split(discrete->parameters(), " ")) << ")";
             return ss.str();
         }
 
         if (const Function* function = dynamic_cast<const Function*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "\"" << function->getFormula()
-               << "\", engine)";
+            ss << term->className() << ".create(" << literalOfText(term->getName()) << ", "
+               << literalOfText(function->getFormula()) << ", engine)";
             return ss.str();
         }
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(\"" << term->getName() << "\", " << "engine, "
+            ss << term->className() << ".create(" << literalOfText(term->getName()) << ", " << "engine, "
                << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " ")) << ")";
             return ss.str();
         }
 
         std::ostringstream ss;
-        ss << "new " << term->className() << "(\"" << term->getName() << "\", "
+        ss << "new " << term->className() << "(" << literalOfText(term->getName()) << ", "
            << literalsOf(Op::split(term->parameters(), " ")) << ")";
         return ss.str();
     }
-- 
2.43.0


From 6dfa70bb6c7b765652c94fcd0fa76ba12a380259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 39/41] fix: CppExporter and JavaExporter wrote terms without
 values with a comma that does not compile

---
 src/imex/CppExporter.cpp  |  4 ++++
 src/imex/JavaExporter.cpp | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/imex/CppExporter.cpp b/src/imex/CppExporter.cpp
index 5f8d332..9842b89 100644
--- a/src/imex/CppExporter.cpp
+++ b/src/imex/CppExporter.cpp
@@ -209,6 +209,10 @@ namespace fuzzylite {
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
+            if (discrete->xy().empty()) {
+                ss << "new " << fl(term->className()) << "(" << literalOfText(term->getName()) << ")";
+                return ss.str();
+            }
             const std::vector<std::string> values = Op::split(discrete->parameters(), " ");
             ss << fl(term->className()) << "::create(" << literalOfText(term->getName()) << ", "
                << values.size() << ", "
diff --git a/src/imex/JavaExporter.cpp b/src/imex/JavaExporter.cpp
index 4fc79e8..10f0be4 100644
--- a/src/imex/JavaExporter.cpp
+++ b/src/imex/JavaExporter.cpp
@@ -183,6 +183,10 @@ namespace fuzzylite {
 
         if (const Discrete* discrete = dynamic_cast<const Discrete*>(term)) {
             std::ostringstream ss;
+            if (discrete->xy().empty()) {
+                ss << "new " << term->className() << "(" << literalOfText(term->getName()) << ")";
+                return ss.str();
+            }
             ss << term->className() << ".create(" << literalOfText(term->getName()) << ", "
                << literalsOf(Op::split(discrete->parameters(), " ")) << ")";
             return ss.str();
@@ -197,8 +201,10 @@ namespace fuzzylite {
 
         if (const Linear* linear = dynamic_cast<const Linear*>(term)) {
             std::ostringstream ss;
-            ss << term->className() << ".create(" << literalOfText(term->getName()) << ", " << "engine, "
-               << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " ")) << ")";
+            ss << term->className() << ".create(" << literalOfText(term->getName()) << ", " << "engine";
+            if (not linear->coefficients().empty())
+                ss << ", " << literalsOf(Op::split(Op::join(linear->coefficients(), " "), " "));
+            ss << ")";
             return ss.str();
         }
 
-- 
2.43.0


From 65bf432ae76a7b0054196c39904e3543ca00437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 40/41] fix: a moved engine leaves its terms referring to the
 former engine

Moving an engine (also when a vector of engines grows) left the functions and linear
terms referring to the moved-from object, and move assignment leaked the former parts.
---
 fuzzylite/Engine.h |  5 ++++-
 src/Engine.cpp     | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/fuzzylite/Engine.h b/fuzzylite/Engine.h
index 3997c1a..14e0fe9 100644
--- a/fuzzylite/Engine.h
+++ b/fuzzylite/Engine.h
@@ -70,7 +70,10 @@ namespace fuzzylite {
         Engine(const Engine& other);
         Engine& operator=(const Engine& other);
         virtual ~Engine();
-        FL_DEFAULT_MOVE(Engine)
+#ifndef FL_CPP98
+        Engine(Engine&& other);
+        Engine& operator=(Engine&& other);
+#endif
 
         /**
           Configures the engine with the given operators
diff --git a/src/Engine.cpp b/src/Engine.cpp
index d9e999d..4be0ce2 100644
--- a/src/Engine.cpp
+++ b/src/Engine.cpp
@@ -117,6 +117,30 @@ namespace fuzzylite {
         }
     }
 
+#ifndef FL_CPP98
+    Engine::Engine(Engine&& other) :
+        _name(std::move(other._name)),
+        _description(std::move(other._description)),
+        _inputVariables(std::move(other._inputVariables)),
+        _outputVariables(std::move(other._outputVariables)),
+        _ruleBlocks(std::move(other._ruleBlocks)) {
+        updateReferences();
+    }
+
+    Engine& Engine::operator=(Engine&& other) {
+        if (this != &other) {
+            Engine moved(std::move(other));  // destroys the former components of this engine
+            _name.swap(moved._name);
+            _description.swap(moved._description);
+            _inputVariables.swap(moved._inputVariables);
+            _outputVariables.swap(moved._outputVariables);
+            _ruleBlocks.swap(moved._ruleBlocks);
+            updateReferences();
+        }
+        return *this;
+    }
+#endif
+
     void Engine::updateReferences() const {
         std::vector<Variable*> myVariables = variables();
         for (std::size_t i = 0; i < myVariables.size(); ++i) {
-- 
2.43.0


From 16d3c7896c516fe7763f60f30e55f10f783cde98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:00 +0000
Subject: [PATCH 41/41] fix: move assignment of variables, rule blocks and
 cloning factories leaks what they held

---
 fuzzylite/factory/CloningFactory.h | 17 ++++++++++++++++-
 fuzzylite/rule/RuleBlock.h         |  5 ++++-
 fuzzylite/variable/Variable.h      |  6 ++++--
 src/rule/RuleBlock.cpp             | 20 ++++++++++++++++++++
 src/variable/Variable.cpp          | 20 ++++++++++++++++++++
 5 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/fuzzylite/factory/CloningFactory.h b/fuzzylite/factory/CloningFactory.h
index 4c73886..a4ef639 100644
--- a/fuzzylite/factory/CloningFactory.h
+++ b/fuzzylite/factory/CloningFactory.h
@@ -55,7 +55,10 @@ namespace fuzzylite {
         CloningFactory(const CloningFactory& other);
         CloningFactory& operator=(const CloningFactory& other);
         virtual ~CloningFactory();
-        FL_DEFAULT_MOVE(CloningFactory)
+#ifndef FL_CPP98
+        CloningFactory(CloningFactory&& other) = default;
+        CloningFactory& operator=(CloningFactory&& other);
+#endif
 
         /**
           Returns the name of the factory
@@ -136,6 +139,18 @@ namespace fuzzylite {
         copyFrom(other);
     }
 
+#ifndef FL_CPP98
+    template <typename T>
+    inline CloningFactory<T>& CloningFactory<T>::operator=(CloningFactory&& other) {
+        if (this != &other) {
+            CloningFactory::clear();
+            _name = std::move(other._name);
+            _objects.swap(other._objects);
+        }
+        return *this;
+    }
+#endif
+
     template <typename T>
     inline CloningFactory<T>& CloningFactory<T>::operator=(const CloningFactory& other) {
         if (this != &other) {
diff --git a/fuzzylite/rule/RuleBlock.h b/fuzzylite/rule/RuleBlock.h
index 43c3b27..cc2a727 100644
--- a/fuzzylite/rule/RuleBlock.h
+++ b/fuzzylite/rule/RuleBlock.h
@@ -68,7 +68,10 @@ namespace fuzzylite {
         RuleBlock(const RuleBlock& other);
         RuleBlock& operator=(const RuleBlock& other);
         virtual ~RuleBlock();
-        FL_DEFAULT_MOVE(RuleBlock)
+#ifndef FL_CPP98
+        RuleBlock(RuleBlock&& other) = default;
+        RuleBlock& operator=(RuleBlock&& other);
+#endif
 
         /**
         Enables the rule block
diff --git a/fuzzylite/variable/Variable.h b/fuzzylite/variable/Variable.h
index 903acfd..539244a 100644
--- a/fuzzylite/variable/Variable.h
+++ b/fuzzylite/variable/Variable.h
@@ -66,8 +66,10 @@ namespace fuzzylite {
         );
         Variable(const Variable& other);
         Variable& operator=(const Variable& other);
-        //@todo: implement move assign without leaking memory
-        FL_DEFAULT_MOVE(Variable)
+#ifndef FL_CPP98
+        Variable(Variable&& other) = default;
+        Variable& operator=(Variable&& other);
+#endif
         virtual ~Variable();
 
         /**
diff --git a/src/rule/RuleBlock.cpp b/src/rule/RuleBlock.cpp
index b947192..2ce6bf0 100644
--- a/src/rule/RuleBlock.cpp
+++ b/src/rule/RuleBlock.cpp
@@ -64,6 +64,26 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    RuleBlock& RuleBlock::operator=(RuleBlock&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _rules.size(); ++i)
+                delete _rules.at(i);
+            _rules.clear();
+
+            _enabled = other._enabled;
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _rules.swap(other._rules);
+            _activation = std::move(other._activation);
+            _conjunction = std::move(other._conjunction);
+            _disjunction = std::move(other._disjunction);
+            _implication = std::move(other._implication);
+        }
+        return *this;
+    }
+#endif
+
     void RuleBlock::copyFrom(const RuleBlock& source) {
         _enabled = source._enabled;
         _name = source._name;
diff --git a/src/variable/Variable.cpp b/src/variable/Variable.cpp
index c4c8105..77a348e 100644
--- a/src/variable/Variable.cpp
+++ b/src/variable/Variable.cpp
@@ -52,6 +52,26 @@ namespace fuzzylite {
         return *this;
     }
 
+#ifndef FL_CPP98
+    Variable& Variable::operator=(Variable&& other) {
+        if (this != &other) {
+            for (std::size_t i = 0; i < _terms.size(); ++i)
+                delete _terms.at(i);
+            _terms.clear();
+
+            _name = std::move(other._name);
+            _description = std::move(other._description);
+            _terms.swap(other._terms);
+            _value = other._value;
+            _minimum = other._minimum;
+            _maximum = other._maximum;
+            _enabled = other._enabled;
+            _lockValueInRange = other._lockValueInRange;
+        }
+        return *this;
+    }
+#endif
+
     void Variable::copyFrom(const Variable& other) {
         _name = other._name;
         _description = other._description;
-- 
2.43.0

