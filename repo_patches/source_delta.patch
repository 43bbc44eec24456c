From c4869b11f411f212ebd1e0abe6a4a14d7b485af4 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 01/36] fix: undoing variable elimination also restores
 eliminated variables of the restored clauses

---
 src/candy/simplification/VariableElimination.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..ac69c14 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // restored clauses may contain variables which have been eliminated later on: restore these as well
+        for (size_t i = 0; i < correction_set.size(); i++) {
+            for (size_t k = 0; k < correction_set[i].size(); k++) {
+                Var other = correction_set[i][k].var();
+                if (is_eliminated(other)) {
+                    std::vector<Cl> cor = undo_elimination(other);
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
@@ -133,7 +143,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return v < (Var)eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 2dbbf8b99ff2df0d991a86c8a4fc0d227e4b0b12 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 02/36] fix: do not propagate or subsume with deleted clauses
 of eliminated variables

---
 src/candy/core/Solver.h                              | 1 +
 src/candy/simplification/SubsumptionClauseDatabase.h | 1 +
 src/candy/systems/propagate/Propagate.h              | 2 +-
 src/candy/systems/propagate/StaticPropagate.h        | 2 +-
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..e2ccaaa 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -259,6 +259,7 @@ private:
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
+                propagator.reset(); // clauses of eliminated variables must not be propagated any more
                 if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
             }
 
diff --git a/src/candy/simplification/SubsumptionClauseDatabase.h b/src/candy/simplification/SubsumptionClauseDatabase.h
index 6d2d3f3..7f996b6 100644
--- a/src/candy/simplification/SubsumptionClauseDatabase.h
+++ b/src/candy/simplification/SubsumptionClauseDatabase.h
@@ -56,6 +56,7 @@ public:
             occurrences.resize(clause_db.nVars());
         }
         for (Clause* clause : clause_db) {
+            if (clause->isDeleted()) continue;
             SubsumptionClause* subsumption_clause = new (subsumption_clauses.allocate()) SubsumptionClause(clause);
             addToOccurenceLists(subsumption_clause);
         }
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From eff796d70235953fb615b8356012a263d77aec26 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 03/36] fix: ipasir_assume of a variable that occurs in no
 clause

---
 src/candy/ipasir/ipasircandy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..9148190 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -81,6 +81,8 @@ public:
         drop_analysis();
         nomodel = true;
         assumptions.push_back(import(lit));
+        // the solver must know the variable, even if it does not occur in any clause
+        while ((Var)problem.nVars() <= import(lit).var()) problem.newVar();
     }
 
     int solve() {
-- 
2.43.0


From 5625c9b80d75e2e3fbb64e48256fa5f07cf9bc58 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 04/36] fix: clause order covers all variables of the used gate
 clauses

---
 src/candy/randomsimulation/ClauseOrder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..7e32b5c 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -175,6 +175,13 @@ namespace Candy {
             usedGateClauses = &gate.bwd;
         }
         
+        // clauses of monotonic gates can contain variables which are not among the gate's inputs
+        for (const Cl* clause : *usedGateClauses) {
+            for (Lit lit : *clause) {
+                m_maxVar = std::max(m_maxVar, lit.var());
+            }
+        }
+
         m_outputLitsOrdered.push_back(usedOutput);
         auto &clausesTarget = createClauseStorage(usedOutput.var());
         assert (clausesTarget.empty());
-- 
2.43.0


From cdc42edc17976e7f50b9de5ae07909299bd003e2 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:02 +0000
Subject: [PATCH 05/36] fix: DIMACS reader handles block boundaries inside
 clauses, long lines, missing final newline and malformed numbers

---
 src/candy/utils/StreamBuffer.cc | 17 +++++++++++------
 src/candy/utils/StreamBuffer.h  |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..d747928 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -26,6 +26,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <errno.h>
 #include <string.h>
 #include <limits>
+#include <algorithm>
 
 namespace Candy {
 
@@ -54,6 +55,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // the number might be in the next block of the file
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -62,7 +64,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int>::max() || number < -std::numeric_limits<int>::max()) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
@@ -70,10 +72,11 @@ namespace Candy {
             // Had ERRNO=29 ('Illegal seek') when reading from stdin
             throw ParserException(std::string("PARSE ERROR! In 'strtol()', errno ") + std::to_string(errno) + std::string(" while reading ") + std::string(1, buffer[pos]));
         }
-        else if (end > str) {
-            incPos(static_cast<intptr_t>(end - str));
-            return static_cast<int>(number);
+        else if (end == str) {
+            throw ParserException(std::string("PARSE ERROR! Expected number but found ") + std::string(1, buffer[pos]));
         }
+        incPos(static_cast<intptr_t>(end - str));
+        return static_cast<int>(number);
     }
 
     void StreamBuffer::check_refill_buffer() {
@@ -84,13 +87,15 @@ namespace Candy {
             }
             size = offset + gzread(in, buffer + offset, buffer_size - offset);
             offset = 0;
+            buffer[std::max(size, 0)] = '\0';
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) offset = 0;
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..7c1eaeb 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1];
         check_refill_buffer();
     }
 
-- 
2.43.0


From 161d8d76da9cc724ea2b4c929e5c0b28ea97cf6d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:53 +0000
Subject: [PATCH 06/36] fix: proof checker rejected every proof for a formula
 with contradictory unit clauses

---
 src/candy/core/DRATChecker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..82166af 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
-- 
2.43.0


From 40258614b1681efead42d59368736b08c30f8f9a Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:53 +0000
Subject: [PATCH 07/36] fix: proof checker missed a conflict among facts which
 had been propagated before

---
 src/candy/core/DRATChecker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index 82166af..23a8127 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -126,6 +126,7 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
     // check if clause is asymmetric tautology
+    trail.qhead = 0; // facts might not have been propagated over clauses that were added meanwhile
     bool conflict = check_asymm(begin, end, lit_Undef);
         
     // check if clause is resolution asymmetric tautology
-- 
2.43.0


From 7f24171101091772fd9ef5bf2b22938c4194cd88 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:53 +0000
Subject: [PATCH 08/36] fix: proof checker rejected lemmas with a pure literal,
 which have the RAT property

---
 src/candy/core/DRATChecker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index 23a8127..20478e6 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -133,6 +133,7 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
     unsigned int level = trail.decisionLevel();
     for (auto it = begin; !conflict && it != end; it++) {
         Lit pivot = *it;
+        conflict = true; // holds trivially if there is nothing to resolve with
         for (Clause* clause : occurences[~pivot]) if (!clause->isDeleted()) {
             conflict = check_asymm(clause->begin(), clause->end(), ~pivot);
             trail.backtrack(level);
-- 
2.43.0


From 8203ddf15ca1968b0dd4aef4ba8648f85bbd5164 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:53 +0000
Subject: [PATCH 09/36] fix: proof checker deleted the same copy of a duplicate
 clause twice

---
 src/candy/core/DRATChecker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index 20478e6..a037eea 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -163,7 +163,7 @@ bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
     if (size > 1) {
         for (Clause* clause : occurences[*begin]) {
-            if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
+            if (!clause->isDeleted() && size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
                     propagator.detachClause(clause);
-- 
2.43.0


From ca907699c38024e88ba55dfbc8453b35b1bec146 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:36 +0000
Subject: [PATCH 10/36] fix: proof checker accessed memory out of bounds for
 variables that are not in the formula

---
 src/candy/core/DRATChecker.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index a037eea..f997f93 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -29,6 +29,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <string.h>
 
 #include <sys/stat.h>
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -125,6 +126,9 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) {
+        return false; // unknown variable
+    }
     // check if clause is asymmetric tautology
     trail.qhead = 0; // facts might not have been propagated over clauses that were added meanwhile
     bool conflict = check_asymm(begin, end, lit_Undef);
@@ -160,6 +164,9 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) {
+        return false; // unknown variable
+    }
     size_t size = std::distance(begin, end);
     if (size > 1) {
         for (Clause* clause : occurences[*begin]) {
-- 
2.43.0


From 37beddd5c29ea17e9acd4125e9a7703b7b09bb78 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:57 +0000
Subject: [PATCH 11/36] fix: clauses with more than 65535 literals were
 silently truncated, which turned satisfiable formulas unsatisfiable

---
 src/candy/core/clauses/Clause.h              | 6 +++---
 src/candy/core/clauses/ClauseDatabase.h      | 2 +-
 src/candy/simplification/SubsumptionClause.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/core/clauses/ClauseDatabase.h b/src/candy/core/clauses/ClauseDatabase.h
index c02afc3..8da759c 100644
--- a/src/candy/core/clauses/ClauseDatabase.h
+++ b/src/candy/core/clauses/ClauseDatabase.h
@@ -217,7 +217,7 @@ public:
         assert(clause->size() > 1);
         std::vector<Lit> literals;
         for (Lit literal : *clause) if (literal != lit) literals.push_back(literal);
-        Clause* new_clause = createClause(literals.begin(), literals.end(), std::min(clause->getLBD(), (uint16_t)literals.size()));
+        Clause* new_clause = createClause(literals.begin(), literals.end(), std::min<unsigned int>(clause->getLBD(), literals.size()));
         removeClause(clause);
         return new_clause;
     }
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From d009356448fbd199a33aa393a39efbd7aaac303d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:23 +0000
Subject: [PATCH 12/36] fix: minimal model computation did not compute models
 of minimum size

The parallel counter reused variables of the problem, counted its last
input twice and the bound was not strict.
---
 src/candy/minimizer/Minimizer.cc | 4 +++-
 src/candy/minimizer/Minimizer.h  | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..173cf5b 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -141,11 +141,13 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
             variables.push_back(Lit(v, false));
+            counter.newVar(); // the counter is defined over fresh variables
         }
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        solver->getAssignment().setAssumptions({});
         satisfiable = l_True;
-        while (satisfiable == l_True) {
+        while (satisfiable == l_True && cardinality.size() > 0) {
             lessthan.clear();
             genLessThanConstraint(lessthan, outputs, cardinality.size());
             solver->init(lessthan);
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..f872d3d 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -84,8 +84,8 @@ private:
         }
 
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
-        Lit carry = inputs.back();
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 };
+        Lit carry = inputs.back(); // the last input is counted by the carry
         
         Cl a_outputs = genParCounter(out, a_inputs);
         Cl b_outputs = genParCounter(out, b_inputs);
@@ -117,6 +117,8 @@ private:
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
         For lessthan;
+
+        k--; // less-or-equal to k-1
         
         // comparator circuit
         for (unsigned int i = 0; i < outputs.size(); i++) {
-- 
2.43.0


From 99726d4c551bd1a4a1eaf24647ef4b024f4fbfc3 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 13/36] fix: the gate filters of random simulation dropped all
 gates because their attributes were never read

---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 7e32b5c..93e5138 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -343,6 +343,8 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
+
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
-- 
2.43.0


From 51421f83d2ae43af4742b39cec0c3af2114a2c47 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 14/36] fix: the recursive clause order listed gates below
 several roots repeatedly

---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 93e5138..e48bfa8 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -243,7 +243,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From ff45e2c40a3266832fa7d6b7cf9a9b6096120f28 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 15/36] fix: random simulation took different signals for
 constant or equivalent when their hashes cancelled out

---
 src/candy/randomsimulation/Partition.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..9c0e7df 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -42,6 +42,12 @@
 #define FASTVARIABLEPARTITIONING_VARID_SIZE_BITS 28
 
 namespace Candy {
+    /* Computes the next group ID. The multiplication is essential: the simulation vectors are sequences
+     generated by fastNextRand(), which cancel out when combined only linearly with fastNextRand(). */
+    static inline uint64_t nextGroupId(uint64_t groupId, SimulationVector::varsimvec_field_t field) {
+        return fastNextRand((groupId * 0x9E3779B97F4A7C15ull) ^ field);
+    }
+
     Partition::Partition() {
         
     }
@@ -260,7 +266,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                  nextGroupId(partitionEntry.groupId, simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -284,7 +290,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                  nextGroupId(partitionEntry.groupId, ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From 0d1e248c8b112954bbcc4a10173d740363bcf8bc Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 16/36] fix: only the first simulation vector was initialized

---
 src/candy/randomsimulation/SimulationVector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..781ea17 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -85,6 +85,7 @@ namespace Candy {
         for (size_t i = 0; i < m_size; ++i) {
             new(toBeInitialized) SimulationVector;
             toBeInitialized->initialize(0ull);
+            ++toBeInitialized;
         }
         
         m_isInitialized = true;
-- 
2.43.0


From 3652ecc7ca3e6ec56f8cde7941d996fff911160e Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 17/36] fix: -rsar-enable crashed with its default options and
 for formulas without enough gates

---
 src/candy/Main.cc                  | 2 +-
 src/candy/frontend/SolverFactory.h | 2 +-
 src/candy/rsar/ARSolver.cc         | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..778271e 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -228,7 +228,7 @@ int main(int argc, char** argv) {
         if (RSAROptions::opt_rsar_enable) {
             solver = createRSARSolver(problem);
         }
-        else {
+        if (solver == nullptr) {
             solver = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
         }
         solvers.push_back(solver); 
diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..bf9f970 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -60,7 +60,7 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (!std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }.empty()) {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
diff --git a/src/candy/rsar/ARSolver.cc b/src/candy/rsar/ARSolver.cc
index ea9bf84..ff9e2b1 100644
--- a/src/candy/rsar/ARSolver.cc
+++ b/src/candy/rsar/ARSolver.cc
@@ -161,7 +161,9 @@ namespace Candy {
     ARSolver::ARSolver(std::unique_ptr<Conjectures> conjectures,
         std::unique_ptr<RefinementHeuristic> heuristics, 
         CandySolverInterface* solver) : ARSolver(std::move(conjectures), solver) {
-        m_heuristics.push_back(std::move(heuristics));
+        if (heuristics != nullptr) {
+            m_heuristics.push_back(std::move(heuristics));
+        }
     }
     
     ARSolver::ARSolver(std::unique_ptr<Conjectures> conjectures, CandySolverInterface* solver)
-- 
2.43.0


From 4d5c0071e23d7c8ff5d0db6963bcadc4ede4761f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 18/36] fix: argument count after option parsing came from a
 shadowed variable, so reading from standard input never worked

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From df6e6f3e874a2b491f7a480459a67e837ba950e8 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 19/36] fix: option values out of range or not numeric were
 accepted

---
 src/candy/frontend/CLIOptions.cc |  2 +-
 src/candy/utils/Options.h        | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..535ff9e 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -150,8 +150,8 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (!(range.begin_inclusive ? tmp >= range.begin : tmp > range.begin) || !(range.end_inclusive ? tmp <= range.end : tmp < range.end)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -207,10 +207,10 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -279,8 +279,8 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From 508463f50a4ad0a21b35fcf805b2a40669a3a2d1 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 20/36] fix: string option values of 256 and more characters
 were not terminated

---
 src/candy/utils/Options.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 535ff9e..f986a4d 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -329,8 +329,7 @@ class StringOption : public Option {
     StringOption(const char* c, const char* n, const char* d, const char* def = "", const bool disabled_ = false) 
         : Option(n, d, c, "<string>", disabled_) {
             len = sprintf(pattern, "-%s=", name);
-            value = new char[256];
-            set(def);
+            value = strdup(def);
         }
 
     operator      const char*  (void) const     { return value; }
@@ -348,8 +347,9 @@ class StringOption : public Option {
     }
 
     void set(const char* val) {
-        // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        char* copy = strdup(val);
+        free(value);
+        value = copy;
     }
 
     char* get() {
-- 
2.43.0


From f6aac0b98ffb7b86fa3938212c36fa709d9eab7f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 21/36] fix: portfolio reported results while solver threads
 were still running and aborted on exit

---
 src/candy/Main.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 778271e..d8bca2d 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <mutex>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -174,9 +175,11 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
 
     lbool result_ = solver_->solve();
 
-    if (result == l_Undef) {
-        result = result_;
+    static std::mutex result_mutex;
+    std::lock_guard<std::mutex> lock(result_mutex);
+    if (result == l_Undef && result_ != l_Undef) {
         solver = solver_;
+        result = result_;
     }
 }
 
@@ -310,6 +313,10 @@ int main(int argc, char** argv) {
         while (result == l_Undef && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
+        interrupted = true; // the remaining threads must not be running any more when their results are used or the program exits
+        for (std::thread& thread : threads) {
+            thread.join();
+        }
         installSignalHandlers(false);
     }
 
-- 
2.43.0


From d0450a96bd5da30b80d1e2605918546d9ba5b4a5 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 22/36] fix: all threads of the portfolio wrote their
 certificates into the same file

---
 src/candy/Main.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index d8bca2d..f39bb15 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -41,6 +41,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <errno.h>
 #include <iostream>
 #include <csignal>
+#include <cstdio>
 #include <string>
 #include <stdexcept>
 #include <regex>
@@ -248,8 +249,12 @@ int main(int argc, char** argv) {
             std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
+        const std::string certified_file(SolverOptions::opt_certified_file);
         for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
+            if (!certified_file.empty()) { // each solver writes its own certificate
+                SolverOptions::opt_certified_file = (certified_file + "." + std::to_string(count)).c_str();
+            }
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
             SolverOptions::opt_preprocessing = (count == 0);
@@ -317,6 +322,17 @@ int main(int argc, char** argv) {
         for (std::thread& thread : threads) {
             thread.join();
         }
+        if (!certified_file.empty()) { // keep the certificate of the solver which determined the result
+            for (unsigned int i = 0; i < solvers.size(); i++) {
+                const std::string file = certified_file + "." + std::to_string(i);
+                if (solvers[i] == solver) {
+                    std::rename(file.c_str(), certified_file.c_str());
+                } else {
+                    std::remove(file.c_str());
+                }
+            }
+            SolverOptions::opt_certified_file = certified_file.c_str();
+        }
         installSignalHandlers(false);
     }
 
-- 
2.43.0


From 797f35125982628463ba4be81e29a1855371ef49 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 23/36] fix: cnf2aig printed variables as constants and defined
 variables twice or not at all

---
 src/candy/gates/AIGProblem.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..156aaa9 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -87,7 +87,8 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            // AIGER literals 0 and 1 are the constants, variables start with 1
+            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit) + 2);
         }
     }
 
@@ -133,7 +134,7 @@ private:
                 conj.push_back(clause->front());
             } 
             else {
-                Lit out = Lit(++var_count);
+                Lit out = Lit(var_count++);
                 conj.push_back(out);
 
                 Cl inverted;
@@ -149,7 +150,7 @@ private:
 
     void createAnds() {
         while (literals.size() > 0) {
-            Lit lit = literals.back();
+            Lit lit = problem[literals.back().var()].out; // one definition for both polarities
             literals.pop_back();
 
             if (!visited[lit]) {
@@ -184,7 +185,7 @@ private:
             Cl rights { conj.begin() + pivot, conj.end() };
             Lit left = convertNaryRecursive(lefts);
             Lit right = convertNaryRecursive(rights);
-            Lit output = Lit(++var_count);
+            Lit output = Lit(var_count++);
             ands.emplace_back(output, left, right);
             return output;
         }
@@ -193,7 +194,7 @@ private:
     void convertNaryAndsToBinaryAnds() {
         for (AndGate a : pands) {
             if (a.conj.size() == 0) {
-                fprintf(stderr, "Warning: Conjunction Size is Zero at %i\n ", (int)a.output);
+                ands.emplace_back(a.output, lit_Undef, lit_Undef);
             }
             else if (a.conj.size() == 1) {
                 ands.emplace_back(a.output, a.conj.front(), lit_Undef);
-- 
2.43.0


From c4b508467a5f960e0dcb1ba7ca15305f076e9b97 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 24/36] fix: notices were mixed into the circuit that cnf2aig
 prints and into the output of candy without comment prefix

---
 src/candy/cnf2aig.cc               | 2 ++
 src/candy/frontend/CandyBuilder.cc | 2 +-
 src/candy/utils/Options.h          | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/cnf2aig.cc b/src/candy/cnf2aig.cc
index f66ac0a..8026d62 100644
--- a/src/candy/cnf2aig.cc
+++ b/src/candy/cnf2aig.cc
@@ -22,6 +22,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <zlib.h>
 #include <cassert>
 #include <cstring>
+#include <iostream>
 #include <iterator>
 #include <map>
 #include <set>
@@ -43,6 +44,7 @@ int main(int argc, char** argv) {
 	}
 
 	FILE* out = stdout;
+	std::cout.rdbuf(std::cerr.rdbuf()); // stdout is for the circuit only
     char* filename = argv[1];
 
 	CNFProblem problem;
diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index f986a4d..a0d11e3 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -83,7 +83,7 @@ class Option {
             getOptionList().push_back(this);
         }
         else {
-            std::cout << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
+            std::cerr << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
         }
     }
 
-- 
2.43.0


From da9155d55f4da5066bccf898659c01a6cf47e23d Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 25/36] fix: -rsil-mode=vanishing built the budget heuristic
 and implicationbudgeted the vanishing one

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From f1f6e45164e735867453fbbd36dee11433056ea6 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 26/36] fix: gbd hash used internal literal numbers, so that
 different formulas had the same text

---
 src/candy/gbd/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/gbd/hash.cpp b/src/candy/gbd/hash.cpp
index 69d053b..9477875 100644
--- a/src/candy/gbd/hash.cpp
+++ b/src/candy/gbd/hash.cpp
@@ -15,7 +15,7 @@ std::string Hash::gbd_hash() {
 
     for (Candy::Cl* clause : problem) {
         for (Candy::Lit lit : *clause) {
-            s.append(std::to_string(lit));
+            s.append(std::to_string(lit.sign() ? -(lit.var() + 1) : lit.var() + 1));
             s.append(" ");
         }
         s.append("0");
-- 
2.43.0


From 32b8d4adf97ac8d54f65ad25351401041752dc9f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 27/36] fix: degree hash depended on the order of clauses and
 counted below zero

---
 src/candy/gbd/hash.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/candy/gbd/hash.cpp b/src/candy/gbd/hash.cpp
index 9477875..f9e62ce 100644
--- a/src/candy/gbd/hash.cpp
+++ b/src/candy/gbd/hash.cpp
@@ -29,29 +29,21 @@ std::string Hash::gbd_hash() {
 }
 
 std::string Hash::degree_hash() {
-    std::vector<std::vector<Candy::Cl*>> occurrences(problem.nVars()*2);
-    std::vector<unsigned int> degrees(problem.nVars()*2);
-    std::vector<Candy::Lit> facts;
+    std::vector<unsigned int> degrees(problem.nVars()*2, 0);
+    std::vector<bool> facts(problem.nVars()*2, false);
 
     for (Candy::Cl* clause : problem) {
         if (clause->size() == 1) {
-            facts.push_back(clause->front());
-        }
-        for (Candy::Lit lit : *clause) {
-            occurrences[lit].push_back(clause);
+            facts[clause->front()] = true;
         }
     }
-    for (unsigned int lit = 0; lit < problem.nVars()*2; lit++) {
-        degrees[lit] = occurrences[lit].size();
-    }
     // normalize degree-list by unit-propagation
-    for (Candy::Lit lit : facts) {
-        for (Candy::Cl* clause : occurrences[lit]) {
+    for (Candy::Cl* clause : problem) {
+        if (std::none_of(clause->begin(), clause->end(), [&facts](Candy::Lit lit) { return facts[lit]; })) {
             for (Candy::Lit lit : *clause) {
-                degrees[lit]--;
+                if (!facts[~lit]) degrees[lit]++;
             }
         }
-        degrees[~lit] = 0;
     }
 
     unsigned char sig[MD5_SIZE];
-- 
2.43.0


From 817b03ea579d7ba9d5825d2b67291361bba42a50 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 28/36] fix: md5 forgot buffered bytes when an empty chunk was
 processed

---
 src/candy/gbd/md5/md5.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/candy/gbd/md5/md5.cpp b/src/candy/gbd/md5/md5.cpp
index d5c7b16..6ad09c2 100644
--- a/src/candy/gbd/md5/md5.cpp
+++ b/src/candy/gbd/md5/md5.cpp
@@ -114,8 +114,6 @@ namespace md5 {
             if (processed != input_length) {
                 memcpy(stored + stored_size, (char*)input + processed, input_length - processed);
                 stored_size += input_length - processed;
-            } else {
-                stored_size = 0;
             }
         } else {
             // throw error when trying to process after completion?
-- 
2.43.0


From cec2fd14e76b908fc92549e8e1a13cc3e6235e6f Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 29/36] fix: checking a partial model that fails read behind
 the end of the model

---
 src/candy/core/CandySolverResult.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..850cd9e 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -79,7 +79,10 @@ public:
 
     // return satisfied literal for given variable
     Lit value(Var x) const {
-        if (model[x] == l_False) {
+        if (x >= (Var)model.size()) {
+            return lit_Undef;
+        }
+        else if (model[x] == l_False) {
             return Lit(x, true);
         } 
         else if (model[x] == l_True) {
-- 
2.43.0


From 865360757ea7e03551dfdad0b75ace3741e1ff18 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 30/36] fix: a NULL terminate callback was called instead of
 being removed

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index e2ccaaa..e705465 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From f1d279674d019f6fec988ea8bbf37234fdd85d50 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 31/36] fix: learning rate of LRB was rounded down to an
 integer

---
 src/candy/systems/branching/LRB.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index c56bb36..a1df9de 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -148,7 +148,7 @@ public:
             if (!order_heap.inHeap(v) && trail.isDecisionVar(v)) order_heap.insert(v);
 
             if (interval_assigned[v] > 0) {
-                weight[v] = inv_step_size * weight[v] + step_size * (participated[v] / interval_assigned[v]);
+                weight[v] = inv_step_size * weight[v] + step_size * ((double)participated[v] / interval_assigned[v]);
                 interval_assigned[v] = 0;
                 participated[v] = 0;
             }
-- 
2.43.0


From 68f80d9bcd8ebcc4b565adf9c99ea1cc2ed8f779 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 32/36] fix: occurrence based activities were NaN for a problem
 without clauses

---
 src/candy/systems/branching/LRB.h   | 2 +-
 src/candy/systems/branching/VSIDS.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index a1df9de..2c24f29 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -75,7 +75,7 @@ public:
             }
             double max = *std::max_element(literalOccurrence.begin(), literalOccurrence.end());
             for (double& occ : literalOccurrence) {
-                occ = occ / max;
+                if (max > 0) occ = occ / max;
             }
         }
         
diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..203c66c 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -172,7 +172,7 @@ public:
             double max = *std::max_element(literalOccurrence.begin(), literalOccurrence.end());
             for (double &occ : literalOccurrence)
             {
-                occ = occ / max;
+                if (max > 0) occ = occ / max;
             }
         }
 
-- 
2.43.0


From 215b8e0d63654a06df64b5daeff9158b5797a495 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 33/36] fix: centralities were NaN if no vertex lies between
 others

---
 src/candy/teexgraph/CenGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/teexgraph/CenGraph.cpp b/src/candy/teexgraph/CenGraph.cpp
index 9de4e38..7113def 100644
--- a/src/candy/teexgraph/CenGraph.cpp
+++ b/src/candy/teexgraph/CenGraph.cpp
@@ -253,7 +253,7 @@ vector<double> Graph::betweennessCentrality(const Scope scope = FULL, const doub
 
     vector<double> centralities(nodes(FULL), 0);
     for(int i = 0; i < nodes(FULL); i++) {
-        centralities[i] = totals[i] / maxval;
+        centralities[i] = maxval > 0 ? totals[i] / maxval : 0;
     }
 
     return centralities;
-- 
2.43.0


From 03801aa271cf5646372008b2d3346df3da233c44 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 34/36] fix: centrality of variables without edges was read out
 of bounds

---
 src/candy/systems/branching/VSIDSC.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..1fa6e2a 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,8 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        size_t node = graph.mapNode(v.id); // variables without an edge have no centrality
+                        bumpFactor = var_inc * (1 + (node < centrality.size() ? centrality[node] : 0) * centralityFactor);
                 }
                 varBumpActivity(v, bumpFactor);
         }
-- 
2.43.0


From 6119476cf0b42c5a06dc05eac5e3d630ad5ea838 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:39 +0000
Subject: [PATCH 35/36] fix: extra bump started at a level behind the current
 decision level

---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index 203c66c..c4d44c8 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 1fa6e2a..0a46512 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -262,7 +262,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From e841e7e3a8384dd282f3b40d6283efba4acce008 Mon Sep 17 00:00:00 2001
From: verifier <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:31 +0000
Subject: [PATCH 36/36] fix: order of LRB was not restored after a change of a
 variable's weight

---
 src/candy/systems/branching/LRB.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/LRB.h b/src/candy/systems/branching/LRB.h
index 2c24f29..7ae97f2 100644
--- a/src/candy/systems/branching/LRB.h
+++ b/src/candy/systems/branching/LRB.h
@@ -145,13 +145,15 @@ public:
         for (auto it = trail.begin(backtrack_level); it != trail.end(); it++) {
             Var v = it->var();
             polarity[v] = it->sign();
-            if (!order_heap.inHeap(v) && trail.isDecisionVar(v)) order_heap.insert(v);
-
             if (interval_assigned[v] > 0) {
                 weight[v] = inv_step_size * weight[v] + step_size * ((double)participated[v] / interval_assigned[v]);
                 interval_assigned[v] = 0;
                 participated[v] = 0;
             }
+
+            // the position in the order depends on the weight
+            if (order_heap.inHeap(v)) order_heap.update(v);
+            else if (trail.isDecisionVar(v)) order_heap.insert(v);
         }
     }
 
-- 
2.43.0

