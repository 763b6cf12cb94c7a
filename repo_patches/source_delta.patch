From 5e04741b469bd8523a800faeee631bf90a1b5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:52 +0000
Subject: [PATCH 01/58] fix: Bonmin::vector::operator() dereferences begin() of
 an empty vector (undefined behaviour)

---
 src/Interfaces/BonTypes.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonTypes.hpp b/src/Interfaces/BonTypes.hpp
index 971a795..82ea4d1 100644
--- a/src/Interfaces/BonTypes.hpp
+++ b/src/Interfaces/BonTypes.hpp
@@ -24,16 +24,16 @@ public:
      return (*this);}
   /** Assignment.*/
   vector<T>& operator=(const std::vector<T>& other){
-     return std::vector<T>::operator=(other);
+     std::vector<T>::operator=(other);
      return (*this);}
 
 /** Access pointer to first element of storage.*/
 inline T* operator()(){
-  return &(*std::vector<T>::begin());
+  return std::vector<T>::data();
 }
 /** Access pointer to first element of storage.*/
 inline const T* operator()() const {
-  return &(*std::vector<T>::begin());
+  return std::vector<T>::data();
 }
 };
 
-- 
2.43.0


From 6887bd2bca817a39f63a8bb80af13102e20f9e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 02/58] fix: linear relaxation ignores the constant term of
 linear constraints

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 7271c30..e68a971 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2480,12 +2480,18 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
        }
     }
     else {
-      //double value = jValues_[i] * x[jCol_[i]];
-      //rowLow[jRow_[i]] += value;
-      //rowUp[jRow_[i]] += value;
+      //What remains of g once all the linear terms are taken out is the constant term
+      g[jRow_[i]] -= jValues_[i] * x[jCol_[i]];
     } 
   }
 
+  //Move the constant term of linear constraints (if any) to their right-hand-sides
+  for(int i = 0 ; i < m ; i++) {
+    if(constTypes_[i] != TNLP::LINEAR || fabs(g[i]) < 1e-09) continue;
+    if(rowLow[i] > - infty) rowLow[i] -= g[i];
+    if(rowUp[i] < infty) rowUp[i] -= g[i];
+  }
+
 
   CoinPackedMatrix mat(true, jRow_, jCol_, jValues_, nnz_jac_g);
   mat.setDimensions(m,n); // In case matrix was empty, this should be enough
-- 
2.43.0


From 4fdb631202688616b4df8bffaa64c610ca6dd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:19 +0000
Subject: [PATCH 03/58] fix: Benders cut drops the contribution of the
 constraints from its right-hand-side

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index e68a971..662b0e0 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2176,7 +2176,7 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
     double f;
     problem_to_optimize_->eval_f(n, x, 1, f);
 
-    ub = -f;
+    ub -= f;
     //double minCoeff = 1e50;
     for(int i = 0; i<n ; i++) {
       if(cleanNnz(obj[i],colLower[i], colUpper[i], -getInfinity(), 0,
-- 
2.43.0


From b7439bfc055b49d1bbe5804ca31bd84e3fdfd2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:06 +0000
Subject: [PATCH 04/58] fix: outer approximation drops rows whose infinite side
 is given as +-nlp_*_bound_inf

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 662b0e0..b3e6c4c 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1965,7 +1965,7 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
         ub[numCuts] = rowUpper[rowIdx] - g[rowIdx];
       else
         ub[numCuts] = infty;
-      if(rowLower[rowIdx] > -infty && rowUpper[rowIdx] < infty)
+      if(rowLower[rowIdx] > -infty_ && rowUpper[rowIdx] < infty_)
       {
         if(duals[rowIdx] >= 0)// <= inequality
           lb[numCuts] = - infty;
@@ -2235,7 +2235,7 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
     ub = rowUpper - g;
   else
     ub = infty;
-  if(rowLower > -infty && rowUpper < infty)
+  if(rowLower > -infty_ && rowUpper < infty_)
   {
     if(dual >= 0)// <= inequality
       lb = - infty;
-- 
2.43.0


From 070e268737a1a12d930b541f4e0cebe1b207b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 05/58] fix: OA and FP abort (assertion) when the incumbent
 value is 0 or cutoff_decr is not positive

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 1 -
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cab337f..0e2aebf 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -161,7 +161,6 @@ namespace Bonmin
            cutoff = ub > 0 ?
                     ub * (1 - parameters_.cbcCutoffIncrement_):
                     ub * (1 + parameters_.cbcCutoffIncrement_);
-           assert(cutoff < ub);
            
            numSols_++;
          }
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 33d9c80..521f7c6 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -147,7 +147,6 @@ namespace Bonmin
         // Update the cutoff
         ub = std::min(nlp_->getObjValue(), ub);
         cutoff = ub > 0 ? ub *(1 - parameters_.cbcCutoffIncrement_) : ub*(1 + parameters_.cbcCutoffIncrement_);
-        assert(cutoff < ub);
         // Update the lp solver cutoff
         lp->setDblParam(OsiDualObjectiveLimit, cutoff);
         numSols_++;
-- 
2.43.0


From 153b3a9ec28286dd58c8636474a2fc1dd5b1e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:18 +0000
Subject: [PATCH 06/58] fix: feasibility checker fathoms a node whose LP
 solution moved off the integers by less than 0.1

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 1149a5d..9e2def6 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -102,7 +102,7 @@ namespace Bonmin
       //           milpBound = 1e200;
       if (feasible) {
         changed = isDifferentOnIntegers(*nlp_, objects_, nObjects_,
-                                        0.1,
+                                        parameters_.cbcIntegerTolerance_,
                                         nlp_->getColSolution(), lp->getColSolution());
       }
       if (changed) {
-- 
2.43.0


From 4bf256d5d872d734378ce65095818fd1cca6132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:30 +0000
Subject: [PATCH 07/58] fix: OA and FP abort (assertion) when linearizing at
 the NLP solution gives no cut

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp      | 7 +++++--
 src/Algorithms/OaGenerators/BonOACutGenerator2.cpp | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 0e2aebf..cb7695f 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -129,6 +129,7 @@ namespace Bonmin
 
       //setup the nlp
       int numberCutsBefore = cs.sizeRowCuts();
+      const double ub_before = ub;
 
       //Fix the variable which have to be fixed, after having saved the bounds
       branch_info.solution_ = colsol;
@@ -197,8 +198,10 @@ namespace Bonmin
 #endif
       
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
+      else if (ub >= ub_before)
+        break;// neither a cut nor a better solution: the MILP would not change
       numberCutsBefore = cs.sizeRowCuts();
      
       //check time
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index 521f7c6..dcd230b 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -165,8 +165,8 @@ namespace Bonmin
       }
 
       int numberCuts = cs.sizeRowCuts() - numberCutsBefore;
-      assert(numberCuts);
-      installCuts(*lp, cs, numberCuts);
+      if (numberCuts > 0)
+        installCuts(*lp, cs, numberCuts);
 
       lp->resolve();
 
-- 
2.43.0


From 3dbcffbfe93db837a62f6fb6f4d0299fcaaaac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 08/58] fix: probed-dive pushes a NULL node on the tree when it
 stops a dive without a candidate child

---
 src/CbcBonmin/BonDiver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 2f3054e..9001aa5 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -345,8 +345,10 @@ namespace Bonmin
           CbcTree::push(nextOnBranch_);
           nextOnBranch_ = NULL;
           //Also have to cleanup candidateChild_
-          CbcTree::push(candidateChild_);
-          candidateChild_ = NULL;
+          if (candidateChild_ != NULL) {
+            CbcTree::push(candidateChild_);
+            candidateChild_ = NULL;
+          }
           return CbcTree::bestNode(cutoff);
         }
 #ifdef DIVE_DEBUG
-- 
2.43.0


From a8cd5d51f09ce4a12e00ba78a772413e6bf3987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 09/58] fix: best-guess node comparison dereferences a NULL
 branching decision

---
 src/CbcBonmin/BonGuessHeuristic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonGuessHeuristic.cpp b/src/CbcBonmin/BonGuessHeuristic.cpp
index 157eca7..5b19e14 100644
--- a/src/CbcBonmin/BonGuessHeuristic.cpp
+++ b/src/CbcBonmin/BonGuessHeuristic.cpp
@@ -24,7 +24,8 @@ namespace Bonmin
   GuessHeuristic::solution(double &solutionValue, double *betterSolution)
   {
     // Get pointer to pseudo costs object
-    const BonChooseVariable* chooseMethod = dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod());
+    const BonChooseVariable* chooseMethod = model_->branchingMethod() ?
+      dynamic_cast<BonChooseVariable*>(model_->branchingMethod()->chooseMethod()) : NULL;
 
     if (!chooseMethod) {
       (*model_->messageHandler()) << "Can't get pseudo costs!!!\n";
-- 
2.43.0


From bc1b03a7bbea9ae3a7ff9f794f9a1882d4c026b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 10/58] fix: fix-and-solve and dummy pump heuristics delete the
 solver owned by the local search setup twice

---
 src/CbcBonmin/Heuristics/BonDummyPump.cpp            | 1 -
 src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonDummyPump.cpp b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
index dd9bf72..1a6c89d 100644
--- a/src/CbcBonmin/Heuristics/BonDummyPump.cpp
+++ b/src/CbcBonmin/Heuristics/BonDummyPump.cpp
@@ -56,7 +56,6 @@ namespace Bonmin {
 
     double cutoff = info.cutoff_; 
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
     return r_val;
   }
 
diff --git a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
index ca21485..a16ed7c 100644
--- a/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
+++ b/src/CbcBonmin/Heuristics/BonFixAndSolveHeuristic.cpp
@@ -67,7 +67,6 @@ namespace Bonmin {
     if(nFixed < numberObjects / 3) return 0;
     double cutoff = info.cutoff_; 
     int r_val = doLocalSearch(nlp, newSolution, objectiveValue, cutoff);
-    delete nlp;
     return r_val;
   }
 
-- 
2.43.0


From 3c4e8f681784d4563599be95b3b4708f346490f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:58 +0000
Subject: [PATCH 11/58] fix: cut strengthening exits on problems with Fortran
 style numbering

---
 src/Interfaces/BonCutStrengthener.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 9a0ca49..5ee10f8 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -265,6 +265,18 @@ namespace Bonmin
 	delete [] jCol;
 	return false;
       }
+      // like for eval_jac_g, the indices follow the numbering style of the problem
+      Index n_tminlp, m_tminlp, nnz_jac_g, nnz_h_lag;
+      TNLP::IndexStyleEnum index_style;
+      if (!tminlp->get_nlp_info(n_tminlp, m_tminlp, nnz_jac_g, nnz_h_lag, index_style)) {
+	delete [] jCol;
+	return false;
+      }
+      if (index_style == TNLP::FORTRAN_STYLE) {
+	for (int i=0; i<nele_grad_gi; i++) {
+	  jCol[i]--;
+	}
+      }
     }
 
     bool lower_bound;
-- 
2.43.0


From c672a5179504e6183c19483e0ae0dbe2a20740a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:48 +0000
Subject: [PATCH 12/58] fix: MIP diving and MILP rounding evaluate the Jacobian
 at a new point with new_x=false

---
 src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp | 2 +-
 src/CbcBonmin/Heuristics/BonMilpRounding.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
index 531b500..08be6f0 100644
--- a/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
+++ b/src/CbcBonmin/Heuristics/BonHeuristicDiveMIP.cpp
@@ -317,7 +317,7 @@ namespace Bonmin
 
       // get the jacobian so that we know the coefficients of the MILP matrix
       double* jac_g = new double [nnz_jac_g];
-      minlp->eval_jac_g(numberColumns, x_sol, false,
+      minlp->eval_jac_g(numberColumns, x_sol, true,
 			numberRows, nnz_jac_g,
 			0, 0, jac_g);
 
diff --git a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
index c0d9ef3..5a3b038 100644
--- a/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
+++ b/src/CbcBonmin/Heuristics/BonMilpRounding.cpp
@@ -141,7 +141,7 @@ namespace Bonmin
 
     // get the jacobian values 
     vector<double> jac_g(nnz_jac_g);
-    minlp->eval_jac_g(n, x_sol, false,
+    minlp->eval_jac_g(n, x_sol, true,
                       m, nnz_jac_g,
                       NULL, NULL, jac_g());
 
-- 
2.43.0


From 27b35c4e210a31e7a4b6ee7a76a546d6e84416e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:01 +0000
Subject: [PATCH 13/58] fix: cut strengthening evaluates the constraint at a
 new point with new_x=false

---
 src/Interfaces/BonCutStrengthener.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonCutStrengthener.cpp b/src/Interfaces/BonCutStrengthener.cpp
index 5ee10f8..6996049 100644
--- a/src/Interfaces/BonCutStrengthener.cpp
+++ b/src/Interfaces/BonCutStrengthener.cpp
@@ -518,11 +518,11 @@ namespace Bonmin
     update_x_full(x);
     bool retval;
     if (constr_index_ == -1) {
-      retval = tminlp_->eval_f(n_orig_, x_full_, new_x, g[0]);
+      retval = tminlp_->eval_f(n_orig_, x_full_, true, g[0]);
       g[0] -= x[n-1];
     }
     else {
-      retval = tminlp_->eval_gi(n_orig_, x_full_, new_x, constr_index_, g[0]);
+      retval = tminlp_->eval_gi(n_orig_, x_full_, true, constr_index_, g[0]);
     }
     return retval;
   }
@@ -544,7 +544,7 @@ namespace Bonmin
       DBG_ASSERT(!iRow && values);
       update_x_full(x);
       if (constr_index_ == -1) {
-	retval = tminlp_->eval_grad_f(n_orig_, x_full_, new_x, grad_f_);
+	retval = tminlp_->eval_grad_f(n_orig_, x_full_, true, grad_f_);
 	if (retval) {
 	  for (Index i=0; i<n-1; i++) {
 	    values[i] = grad_f_[var_indices_[i]];
@@ -553,7 +553,7 @@ namespace Bonmin
 	}
       }
       else {
-	retval = tminlp_->eval_grad_gi(n_orig_, x_full_, new_x, constr_index_,
+	retval = tminlp_->eval_grad_gi(n_orig_, x_full_, true, constr_index_,
 				       nele_jac, NULL, values);
       }
     }
-- 
2.43.0


From bb18d4153d9e989fdfe9f98954914861268d994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:56 +0000
Subject: [PATCH 14/58] fix: dfs-dive tree loses a node at each call in bound
 closing modes and aborts on deep, pruned or re-sorted trees

---
 src/CbcBonmin/BonDiver.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index 9001aa5..fb12cf7 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -489,7 +489,7 @@ namespace Bonmin
       nBacktracks_ = rhs.nBacktracks_;
       maxDepthBFS_ = rhs.maxDepthBFS_;
       maxDiveBacktracks_ = rhs.maxDiveBacktracks_;
-      maxDiveDepth_ = maxDiveDepth_;
+      maxDiveDepth_ = rhs.maxDiveDepth_;
       mode_ = rhs.mode_;
     }
     return *this;
@@ -514,9 +514,9 @@ namespace Bonmin
 #ifdef DIVE_DEBUG
     std::cout<<"CbcDfsDiver::top"<<std::endl;
 #endif
-    if (mode_ != CbcDfsDiver::FindSolutions) {
+    if (mode_ > CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::top();
+      return CbcTree::top();
     }
     if (diveListSize_) {
       return dive_.front();
@@ -601,9 +601,8 @@ namespace Bonmin
     }
     if (mode_ != CbcDfsDiver::FindSolutions) {
       assert(dive_.empty());
-      CbcTree::bestNode(cutoff);
+      return CbcTree::bestNode(cutoff);
     }
-    assert(nBacktracks_ < maxDiveBacktracks_);
     CbcNode * node = NULL;
     while (diveListSize_ > 0) {
 #ifdef DIVE_DEBUG
@@ -615,7 +614,6 @@ namespace Bonmin
       dive_.pop_front();
       diveListSize_ --;
       assert(node);
-      assert((node->depth() - divingBoardDepth_) <= maxDiveDepth_);
       if (node->objectiveValue() > cutoff) {//throw away node for now just put it on the heap as deleting a node is
         //more complicated than that (has to delete nodeInfo, cuts...)
 #ifdef DIVE_DEBUG
@@ -668,7 +666,8 @@ namespace Bonmin
     assert(dive_.empty());
     assert(diveListSize_ == 0);
     node = CbcTree::bestNode(cutoff);
-    divingBoardDepth_ = node->depth();
+    if (node != NULL)
+      divingBoardDepth_ = node->depth();
     nBacktracks_ = 0;
     return node;
   }
@@ -819,7 +818,7 @@ namespace Bonmin
     assert(comparisonDive_);
     assert(comparisonBound_);
     CbcDfsDiver::ComparisonModes mode = diver_->getComparisonMode();
-    if (mode == CbcDfsDiver::FindSolutions) {
+    if (mode == CbcDfsDiver::FindSolutions || mode == CbcDfsDiver::Enlarge) {
       return comparisonDive_->test(x,y);
     }
     else if (mode == CbcDfsDiver::CloseBound) {
-- 
2.43.0


From a3ad0aac145a4f692060e0263a55bbe375f64502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:56 +0000
Subject: [PATCH 15/58] fix: strong branching fixes variables at the wrong
 point and aborts when a candidate is infeasible both ways or unsolved

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 02f0b9d..394747a 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -609,11 +609,8 @@ namespace Bonmin
     if (isRoot) {
       numberStrong = CoinMax(numberStrong_, numberStrongRoot_);
     }
-    std::vector<double> save_sol;
-    if (bb_log_level_>=3) {
-       save_sol.resize(info->numberColumns_);
-       std::copy(info->solution_, info->solution_ + info->numberColumns_ , save_sol.begin());
-    }
+    // strong branching overwrites the solution of the solver info->solution_ may point to
+    std::vector<double> save_sol(info->solution_, info->solution_ + info->numberColumns_);
     if (numberUnsatisfied_) {
       const double* upTotalChange = pseudoCosts_.upTotalChange();
       const double* downTotalChange = pseudoCosts_.downTotalChange();
@@ -679,6 +676,8 @@ namespace Bonmin
             if (bestObjectIndex_>=0)
               returnCode=3;
           }
+          const double * solver_sol = info->solution_;
+          info->solution_ = save_sol.data();
           for (unsigned int i=0;i < results_.size();i++) {
             int iObject = results_[i].whichObject();
             double upEstimate;
@@ -745,6 +744,7 @@ namespace Bonmin
                 returnCode=2;
             }
           }
+          info->solution_ = solver_sol;
         }
         else if (returnCode==3) {
           // max time - just choose one
@@ -917,7 +917,7 @@ namespace Bonmin
         // infeasible
         returnCode=-1;
         //break; // exit loop
-      } else if (status0==1||status1==1) {
+      } else if (returnCode!=-1&&(status0==1||status1==1)) {
         numberStrongFixed_++;
   	returnCode=1;
       }
@@ -928,8 +928,7 @@ namespace Bonmin
         break;
       }
       // stop if look ahead heuristic tells us so
-      if (!isRoot && numberLookAhead_) {
-	assert(status0==0 && status1==0);
+      if (!isRoot && numberLookAhead_ && status0==0 && status1==0) {
 	double upEstimate = result->upChange();
 	double downEstimate = result->downChange();
 	double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From efd9df7e015a068fd485f24daf93cff56263537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:36 +0000
Subject: [PATCH 16/58] fix: ECP cut generation aborts when the LP
 overestimates the objective at the separated point

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index b3e6c4c..6654421 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1870,7 +1870,6 @@ OsiTMINLPInterface::getNonLinearitiesViolation(const double *x, const double obj
 {
   double f;
   double norm = getConstraintsViolation(x, f);
-  assert((f - obj) > -1e-08);
   norm =  (f - obj) > norm ? f - obj : norm;
   return norm;
 }
-- 
2.43.0


From d48ddd779144185cab82ab12f463485e5c38b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:48 +0000
Subject: [PATCH 17/58] fix: dynamic NLP dereferences an empty cut list, or a
 NULL reformulation when the objective is linear

---
 src/Algorithms/QuadCuts/BonLinearCutsGenerator.cpp | 2 +-
 src/CbcBonmin/BonCbc.cpp                           | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonLinearCutsGenerator.cpp b/src/Algorithms/QuadCuts/BonLinearCutsGenerator.cpp
index 407c5aa..037416f 100644
--- a/src/Algorithms/QuadCuts/BonLinearCutsGenerator.cpp
+++ b/src/Algorithms/QuadCuts/BonLinearCutsGenerator.cpp
@@ -130,7 +130,7 @@ namespace Bonmin {
         mycuts[i] = cuts.rowCutPtr(i);
         cs.insert(*mycuts[i]);
       }
-      nlp->applyRowCuts((int)mycuts.size(), const_cast<const OsiRowCut **> (&mycuts[0]));
+      nlp->applyRowCuts((int)mycuts.size(), const_cast<const OsiRowCut **> (mycuts.data()));
     }
 
     // Take off slack cuts
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 65fcb20..841fc37 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -464,8 +464,10 @@ namespace Bonmin
                                             // can be solved
         OsiTMINLPInterface * tmpOsi = dynamic_cast<OsiTMINLPInterface *> (model_.solver());
         TMINLPLinObj * tmp_tminlp = dynamic_cast<TMINLPLinObj *> (tmpOsi->model());
-        tmpOsi->setModel(tmp_tminlp->tminlp());
-        model_.initialSolve();
+        if(tmp_tminlp){//objective was not linear
+          tmpOsi->setModel(tmp_tminlp->tminlp());
+          model_.initialSolve();
+        }
       } 
       else {
         LinearCutsGenerator cgl;
@@ -476,7 +478,7 @@ namespace Bonmin
         for(int i = 0 ; i < cuts.sizeRowCuts() ; i++){
           mycuts[i] = cuts.rowCutPtr(i);
         }
-        model_.solver()->applyRowCuts((int)mycuts.size(), const_cast<const OsiRowCut **>(&mycuts[0]));
+        model_.solver()->applyRowCuts((int)mycuts.size(), const_cast<const OsiRowCut **>(mycuts.data()));
       }
 
        //Added by Claudia
-- 
2.43.0


From 1eeff4b7620c152ce7b464b1732c2bf113aeaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:06 +0000
Subject: [PATCH 18/58] fix: milp_solver=Cbc_Par throws because it reads the
 unregistered option probing_cuts

---
 src/Algorithms/BonCbcLpStrategy.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/BonCbcLpStrategy.cpp b/src/Algorithms/BonCbcLpStrategy.cpp
index 35efae8..9d9f93b 100644
--- a/src/Algorithms/BonCbcLpStrategy.cpp
+++ b/src/Algorithms/BonCbcLpStrategy.cpp
@@ -60,11 +60,11 @@ namespace Bonmin
 
     int k = 0;
     
-    bool set = s.options()->GetIntegerValue("probing_cuts", gen_freqs_[k], prefix);
-    if(set==0) gen_freqs_[k] = -99;
+    // probing cuts are disabled in Bonmin (see BonminSetup::registerMilpCutGenerators)
+    gen_freqs_[k] = 0;
     k++;
 
-    set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
+    bool set = s.options()->GetIntegerValue("Gomory_cuts", gen_freqs_[k], prefix);
     if(set==0) gen_freqs_[k] = -99;
     k++;
     
-- 
2.43.0


From 2b7a63ee53c4e713f5007528e0688341984f00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:06 +0000
Subject: [PATCH 19/58] fix: validity information of read_solution_file
 overwrites that of enable_dynamic_nlp

---
 src/Algorithms/BonBabSetupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 391480e..571c8fe 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -628,7 +628,7 @@ namespace Bonmin
                "no","",
                "yes","",
                "For Debugging purposes only.");
-    roptions->setOptionExtraInfo("enable_dynamic_nlp", 8);
+    roptions->setOptionExtraInfo("read_solution_file", 8);
 
     /* Branching options.*/
     LpBranchingSolver::registerOptions(roptions);
-- 
2.43.0


From 11fbcc68f6bf666c5d4c6156f9ed51d842f1b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 20/58] fix: feasibility pump for MINLP cycles forever on an
 incumbent of value 0

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index cb7695f..45b07f2 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -159,9 +159,8 @@ namespace Bonmin
            //nlp is solved and feasible
            // Update the cutoff
            ub = std::min(ub, nlp_->getObjValue());
-           cutoff = ub > 0 ?
-                    ub * (1 - parameters_.cbcCutoffIncrement_):
-                    ub * (1 + parameters_.cbcCutoffIncrement_);
+           // (not relative to ub if it is close to 0, the same solution would be found forever)
+           cutoff = ub - parameters_.cbcCutoffIncrement_ * std::max(1., fabs(ub));
            
            numSols_++;
          }
-- 
2.43.0


From 557ea39b5f101e61cb4f151bbf77840d9ce79e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 21/58] fix: LP strong branching sets the upper bound of the
 branching variable to its lower bound

---
 src/Algorithms/Branching/BonLpBranchingSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/Branching/BonLpBranchingSolver.cpp b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
index 4faaa63..3a61b1d 100644
--- a/src/Algorithms/Branching/BonLpBranchingSolver.cpp
+++ b/src/Algorithms/Branching/BonLpBranchingSolver.cpp
@@ -145,7 +145,7 @@ namespace Bonmin
           diff_up_bnd_index.push_back(i);
           diff_up_bnd_value.push_back(colUp_orig[i]);
         }
-        lin->setColUpper(i,lo);
+        lin->setColUpper(i,up);
       }
     }
 
@@ -179,7 +179,7 @@ namespace Bonmin
       }
     }
     tminlp_interface->problem()->set_obj_value(obj);
-    tminlp_interface->problem()->Set_x_sol(numCols, lin_->getColSolution());
+    tminlp_interface->problem()->Set_x_sol(numCols, lin->getColSolution());
 
     //restore the original bounds
     if(warm_start_mode_ == Basis){
-- 
2.43.0


From fcec37823329a0cadc298616c4750fcf085b8b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:45 +0000
Subject: [PATCH 22/58] fix: feasibility checker solves the same NLP forever
 when the LP solution is slightly off its integers

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 9e2def6..9fb7425 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -109,6 +109,10 @@ namespace Bonmin
        branch_info.solution_ = lp->getColSolution();
        isInteger = integerFeasible(*lp,branch_info, parameters_.cbcIntegerTolerance_,
                                      objects_, nObjects_);
+       // Slightly off the same integers: the same NLP would be solved again, leave it to branching
+       if (isInteger && feasible)
+         isInteger = isDifferentOnIntegers(*nlp_, objects_, nObjects_, 0.1,
+                                           nlp_->getColSolution(), lp->getColSolution());
       }
       else {
         isInteger = 0;
-- 
2.43.0


From c9c87a8595b8848441c767df888e2e2b2460e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:09 +0000
Subject: [PATCH 23/58] fix: outer approximation of a single constraint
 misreads Fortran style indices and needs duals that may not exist

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 6654421..719783b 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2213,6 +2213,14 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int nnz;
   problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
   problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
+  Index n, m, nnz_jac_g, nnz_h_lag;
+  TNLP::IndexStyleEnum index_style;
+  problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
+  if(index_style == Ipopt::TNLP::FORTRAN_STYLE)//put C-style
+  {
+    for(int i = 0 ; i < nnz ; i++)
+      indices[i]--;
+  }
 
   CoinPackedVector cut;
   double lb;
@@ -2223,7 +2231,6 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   const double rowUpper = getRowUpper()[rowIdx];
   const double * colLower = getColLower();
   const double * colUpper = getColUpper();
-  const double dual = (getRowPrice() + 2 * getNumCols())[rowIdx];
   double infty = getInfinity();
   
   if(rowLower > - infty_)
@@ -2236,6 +2243,7 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
     ub = infty;
   if(rowLower > -infty_ && rowUpper < infty_)
   {
+    const double dual = (getRowPrice() + 2 * getNumCols())[rowIdx];
     if(dual >= 0)// <= inequality
       lb = - infty;
     if(dual <= 0)// >= inequality
-- 
2.43.0


From c582fda0736769df6817d87e939d199c76066b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:37 +0000
Subject: [PATCH 24/58] fix: feasibility pump NLP has wrong derivatives and
 cutoff row, and writes out of bounds with both extra constraints

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 36 +++++++++++++++-----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index 913f8e6..a6259d2 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -206,7 +206,7 @@ namespace Bonmin
       ret_code = tnlp_->eval_g(n, x, new_x, m-2, g);
       // compute the value of the cutoff constraint
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-2] = obj_value;
       else
 	ret_code = false;
@@ -223,7 +223,7 @@ namespace Bonmin
     else if(use_cutoff_constraint_) {
       ret_code = tnlp_->eval_g(n, x, new_x, m-1, g);
       Number obj_value;
-      if(eval_f(n, x, new_x, obj_value))
+      if(tnlp_->eval_f(n, x, new_x, obj_value))
 	g[m-1] = obj_value;
       else
 	ret_code = false;
@@ -254,7 +254,7 @@ namespace Bonmin
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 2, nele_jac - n - n_integers, 
 				   iRow, jCol, values);
 
       if (iRow && jCol && !values) { //Initialization phase 
@@ -268,9 +268,8 @@ namespace Bonmin
 	  jCol[i] = i + index_correction;
 	}
 	// compute the jacobian contribution of the local branching constraint
-	k = nele_jac - n_integers;
-	iRow += k;
-	jCol += k;
+	iRow += n;
+	jCol += n;
 	for(int i = 0; i< n_integers; i++) {
 	  iRow[i] = m - 1 + index_correction;
 	  jCol[i] = inds_[i] + index_correction;
@@ -279,10 +278,9 @@ namespace Bonmin
       else if (!iRow & !jCol && values) { //computation phase
 	// compute the jacobian contribution of the cutoff constraint
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
+	values += nele_jac - n - n_integers;
 	if(ret_code_grad_f) {
-	  int k = nele_jac - n - n_integers;
-	  values += k;
 	  for(int i = 0; i< n; i++) {
 	    values[i] = grad_f[i];
 	  }
@@ -291,8 +289,7 @@ namespace Bonmin
 	  ret_code = false;
 	delete [] grad_f;
 	// compute the jacobian contribution of the local branching constraint
-	int k = nele_jac - n_integers;
-	values += k;
+	values += n;
 	for(int i = 0; i< n_integers; i++) {
 	  if(vals_[i] <= 0.1)
 	    values[i] = 1.0;
@@ -305,7 +302,7 @@ namespace Bonmin
       }
     }
     else if(use_cutoff_constraint_) {
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -320,7 +317,7 @@ namespace Bonmin
       }
       else if (!iRow & !jCol && values) { //computation phase
 	Number* grad_f = new Number[n];
-	bool ret_code_grad_f = eval_grad_f(n, x, new_x, grad_f);
+	bool ret_code_grad_f = tnlp_->eval_grad_f(n, x, new_x, grad_f);
 	if(ret_code_grad_f) {
 	  int k = nele_jac - n;
 	  values += k;
@@ -338,7 +335,7 @@ namespace Bonmin
     }
     else if(use_local_branching_constraint_) {
       int n_integers = (int)vals_.size();
-      ret_code = tnlp_->eval_jac_g(n, x, new_x, m, nele_jac - n_integers, 
+      ret_code = tnlp_->eval_jac_g(n, x, new_x, m - 1, nele_jac - n_integers, 
 				   iRow, jCol, values);
       
       if (iRow && jCol && !values) { //Initialization phase 
@@ -380,27 +377,28 @@ namespace Bonmin
   {
     bool ret_code;
 
-    int  nnz_obj_h = (norm_ == 2) ? (int)inds_.size() : 0;
+    int  nnz_obj_h = (use_feasibility_pump_objective_ && norm_ == 2) ? (int)inds_.size() : 0;
+    double obj_weight = use_feasibility_pump_objective_ ? obj_factor*(1-lambda_)*sigma_ : obj_factor;
 
     if(use_cutoff_constraint_ && use_local_branching_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 2];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_weight + coef_obj, 
 			       m - 2, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_cutoff_constraint_) {
       double coef_obj = (iRow != NULL)?0 : lambda[m - 1];
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_ + coef_obj, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_weight + coef_obj, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else if(use_local_branching_constraint_) {
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_weight, 
 			       m - 1, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
     else { // this is the original feasibility pump implementation
-      ret_code = tnlp_->eval_h(n, x, new_x, obj_factor*(1-lambda_)*sigma_, 
+      ret_code = tnlp_->eval_h(n, x, new_x, obj_weight, 
 			       m, lambda, new_lambda, nele_hess - nnz_obj_h, 
 			       iRow, jCol, values);
     }
-- 
2.43.0


From fb49b0141494df69bb40e2de81e60521346be3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:33 +0000
Subject: [PATCH 25/58] fix: resetting the starting point leaves a dangling
 dual point, and setting duals alone zeroes the primal starting point

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 +++-
 src/Interfaces/BonTMINLP2TNLP.cpp        | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 719783b..9ab0bf9 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1404,8 +1404,10 @@ OsiTMINLPInterface::setColSolution(const double *colsol)
 {
   if(colsol != NULL)
     problem_->setxInit(getNumCols(), colsol);
-  else
+  else {
     problem_->resetStartingPoint();
+    app_->disableWarmStart();
+  }
   hasBeenOptimized_ = false;
 }
 
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index e5ee820..9055623 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -281,6 +281,7 @@ namespace Bonmin
   {
     curr_warm_starter_ = NULL;
     x_init_.clear();
+    duals_init_ = NULL;
   }
 
   void TMINLP2TNLP::setxInit(Index n,const Number* x_init)
@@ -294,6 +295,8 @@ namespace Bonmin
   void TMINLP2TNLP::setDualsInit(Index m, const Number* duals_init)
   {
     assert(m == num_variables() * 2 + num_constraints() );
+    if(x_init_.empty())//the primal starting point is still the one of the user
+      x_init_ = x_init_user_;
     x_init_.resize(num_variables() * 3 + num_constraints(), 0.);
     duals_init_ = x_init_() + num_variables();
 
-- 
2.43.0


From ad4dce7efdf3b7d1b7f374609b0b614e29be985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:02 +0000
Subject: [PATCH 26/58] fix: linear objective reformulation misuses NULL arrays
 and writes values on a structure request

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
index 2dd7729..01fc15a 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.cpp
@@ -75,7 +75,7 @@ namespace Bonmin{
      if(use_g_scaling && g_scaling){
        mod_obj_scaling = g_scaling;}
      return tminlp_->get_scaling_parameters(*mod_obj_scaling, use_x_scaling, n - 1, x_scaling,
-                                                         use_g_scaling, m - 1, g_scaling + 1);
+                                                         use_g_scaling, m - 1, (g_scaling != NULL) ? g_scaling + 1 : NULL);
    }
 
 
@@ -115,8 +115,13 @@ namespace Bonmin{
      assert(m == m_);
 
      bool return_value = tminlp_->get_starting_point(n - 1, init_x, x, init_z, z_L, z_U,
-                                            m - 1, init_lambda, lambda + 1);
-     tminlp_->eval_f(n-1, x, true, x[n-1]);
+                                            m - 1, init_lambda, (lambda != NULL) ? lambda + 1 : NULL);
+     if(init_x)
+       return_value &= tminlp_->eval_f(n-1, x, true, x[n-1]);
+     if(init_z){
+       z_L[n-1] = 0;
+       z_U[n-1] = 0;
+     }
      if(init_lambda && lambda != NULL)
        lambda[0] = 0;
      return return_value;
@@ -196,8 +201,10 @@ namespace Bonmin{
      assert(i < m_);
      assert(n == n_);
      if(i == 0){
-      if(jCol != NULL){
-        for(int i = 0 ; i < n ; i++) jCol[i] = i + offset_;
+      nele_grad_gi = n;
+      if(values == NULL){
+        for(int j = 0 ; j < n ; j++) jCol[j] = j + offset_;
+        return true;
       }
       bool ret_val= tminlp_->eval_grad_f(n-1, x, new_x, values);
       values[n-1] = -1;
-- 
2.43.0


From 1402cbee9d9ccbf02dc962c6e0c33aa359db38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:36 +0000
Subject: [PATCH 27/58] fix: problem with quadratic cuts drops constants,
 misreads full matrices, recurses in scaling and mixes up per-row arrays when
 cuts are removed

---
 src/Algorithms/QuadCuts/BonQuadCut.cpp     |  2 +-
 src/Algorithms/QuadCuts/BonQuadRow.cpp     |  2 +-
 src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp | 38 +++++++++++++++-------
 src/Algorithms/QuadCuts/BonTMINLP2Quad.hpp |  3 ++
 src/Algorithms/QuadCuts/BonTMatrix.cpp     | 36 ++++++++++++--------
 5 files changed, 53 insertions(+), 28 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonQuadCut.cpp b/src/Algorithms/QuadCuts/BonQuadCut.cpp
index c723953..cb4e2a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadCut.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadCut.cpp
@@ -59,7 +59,7 @@ namespace Bonmin {
     	int s=start[i];
 	int l=length[i];
       for(int k = s ; k < s+l ; k++){
-        if(i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
+        if(type_ == Full || i == indice[k]) rhs += solution[i] * solution[indice[k]] * val[k];
         else rhs += 2*solution[i] * solution[indice[k]] * val[k];
       }
     }
diff --git a/src/Algorithms/QuadCuts/BonQuadRow.cpp b/src/Algorithms/QuadCuts/BonQuadRow.cpp
index c473701..efe95a6 100644
--- a/src/Algorithms/QuadCuts/BonQuadRow.cpp
+++ b/src/Algorithms/QuadCuts/BonQuadRow.cpp
@@ -52,7 +52,7 @@ QuadRow & QuadRow::operator=(const QuadRow &rhs){
 }
 
 QuadRow::QuadRow(const QuadCut &cut):
-  c_(0),
+  c_(cut.c()),
   a_(cut.row()),
   Q_(cut.Q(), cut.type())
   {
diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
index 62e71ff..2eeb196 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.cpp
@@ -55,7 +55,8 @@ namespace Bonmin {
       quadRows_(other.quadRows_),
       H_(),
       curr_nnz_jac_(other.curr_nnz_jac_),
-      obj_(other.obj_)
+      obj_(other.obj_),
+      c_(other.c_)
       {
        // Get the number of nonzoeroes in the matrix
        const size_t nnz_h = TMINLP2TNLP::nnz_h_lag();
@@ -152,7 +153,7 @@ namespace Bonmin {
                                         bool& use_g_scaling, Index m,
                                         Number* g_scaling){
            assert(num_constraints() == m);
-           bool retval = get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
+           bool retval = TMINLP2TNLP::get_scaling_parameters(obj_scaling, use_x_scaling, n, x_scaling, use_g_scaling, m - (int)quadRows_.size(), g_scaling);
            if(use_g_scaling){
              g_scaling += m - (int)quadRows_.size();
              CoinFillN(g_scaling, (int)quadRows_.size(), 1.);}
@@ -202,7 +203,7 @@ namespace Bonmin {
     }
     i -= m_orig;
      gi = quadRows_[i]->eval_f(x, new_x);
-     return false;
+     return true;
   }
 
 
@@ -278,7 +279,7 @@ namespace Bonmin {
       assert(jCol == NULL);
       quadRows_[i]->eval_grad(nele_grad_gi, x, new_x, values);
     }
-    return false;
+    return true;
   }
     /** Return the hessian of the
      *  lagrangian. The vectors iRow and jCol only need to be set once
@@ -365,9 +366,7 @@ namespace Bonmin {
        curr_nnz_jac_ += quadRows_.back()->nnz_grad();
      }
      addRowCuts((OsiCuts) cuts, safe); 
-     duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
-     x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
-     duals_init_ = x_init_() + x_l_.size();
+     resizeRowArrays();
   }
 
   /** Method to add array of OsiRowCut figuring out which is quadratic (slow!)..*/
@@ -393,9 +392,7 @@ namespace Bonmin {
         quadRows_.push_back(new QuadRow(*cuts[i]));
        curr_nnz_jac_ += quadRows_.back()->nnz_grad();
      }
-     duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
-     x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
-     duals_init_ = x_init_() + x_l_.size();
+     resizeRowArrays();
   } 
   /** Method to add OsiCuts figuring out which is quadratic (slow!)..*/
   void TMINLP2TNLPQuadCuts::addCuts(const OsiCuts& cuts){
@@ -439,14 +436,24 @@ namespace Bonmin {
     quadRows_.push_back(new QuadRow(cuts.rowCut(i)));
     curr_nnz_jac_ += quadRows_.back()->nnz_grad();
   }
+     resizeRowArrays();
+ }
+
+  /** Resize the arrays which have one entry per row after rows have been appended.*/
+  void TMINLP2TNLPQuadCuts::resizeRowArrays(){
+     if(!g_sol_.empty())
+       g_sol_.resize(g_l_.size(), 0.);
      duals_sol_.resize(g_l_.size() + 2*x_l_.size(), 0.);
+     if(x_init_.empty())//the primal starting point is still the one of the user
+       x_init_ = x_init_user_;
      x_init_.resize(g_l_.size() + 3*x_l_.size(), 0.);
      duals_init_ = x_init_() + x_l_.size();
- }
+  }
 
   /** Method which removes a set of cuts.*/
   void TMINLP2TNLPQuadCuts::removeCuts(unsigned int n,const int * idxs){
      if(n == 0) return;
+     resizeRowArrays();
      vector< int > order(quadRows_.size());
      int m_tminlp = num_constraints() - (int)quadRows_.size();
       //delete the pointers
@@ -471,15 +478,22 @@ namespace Bonmin {
     int i;
     double * g_l = g_l_() + m_tminlp;
     double * g_u = g_u_() + m_tminlp;
-    for(i = 0 ; order[i] < INT_MAX ; i++){
+    double * g_sol = g_sol_.empty() ? NULL : g_sol_() + m_tminlp;
+    double * duals_sol = duals_sol_() + 2*x_l_.size() + m_tminlp;
+    double * duals_init = x_init_() + 3*x_l_.size() + m_tminlp;
+    for(i = 0 ; i < (int) order.size() && order[i] < INT_MAX ; i++){
       assert(order[i] >= i);
       quadRows_[i] = quadRows_[order[i]]; 
       g_l[i] = g_l[order[i]];
       g_u[i] = g_u[order[i]];
+      if(g_sol) g_sol[i] = g_sol[order[i]];
+      duals_sol[i] = duals_sol[order[i]];
+      duals_init[i] = duals_init[order[i]];
     }
     quadRows_.erase(quadRows_.begin() + i, quadRows_.end());
     g_l_.erase(g_l_.begin() + m_tminlp + i, g_l_.end());
     g_u_.erase(g_u_.begin() + m_tminlp + i, g_u_.end());
+    resizeRowArrays();
  }
 
 void
diff --git a/src/Algorithms/QuadCuts/BonTMINLP2Quad.hpp b/src/Algorithms/QuadCuts/BonTMINLP2Quad.hpp
index 1b544ea..68bbfe3 100644
--- a/src/Algorithms/QuadCuts/BonTMINLP2Quad.hpp
+++ b/src/Algorithms/QuadCuts/BonTMINLP2Quad.hpp
@@ -153,6 +153,9 @@ namespace Bonmin
     /** Add some cuts to the problem formulaiton (handles Quadratics).*/
     void addRowCuts(const OsiCuts &cuts, bool safe);
 
+    /** Resize the arrays which have one entry per row after rows have been appended or removed.*/
+    void resizeRowArrays();
+
   private:
     /**@name Default Compiler Generated Methods
      * (Hidden to avoid implicit creation/calling).
diff --git a/src/Algorithms/QuadCuts/BonTMatrix.cpp b/src/Algorithms/QuadCuts/BonTMatrix.cpp
index 12ab75b..9f9d0ce 100644
--- a/src/Algorithms/QuadCuts/BonTMatrix.cpp
+++ b/src/Algorithms/QuadCuts/BonTMatrix.cpp
@@ -137,23 +137,31 @@ TMat::numNonEmptyCols(){
 /** Remove the duplicated entries.*/
 void 
 TMat::removeDuplicates(){
+  if(nnz_ == 0) return;
   orderByRows();
-  int j = 0;
-  for(int i = 1; i < nnz_ ; i++){
-    if((jCol_[rowOrdering_[i]] == jCol_[rowOrdering_[j]]) && 
-       (iRow_[rowOrdering_[i]] == iRow_[rowOrdering_[j]])){
-       value_[rowOrdering_[j]] += value_[rowOrdering_[i]];
+  int * iRow = new int[capacity_];
+  int * jCol = new int[capacity_];
+  double * value = new double[capacity_];
+  int j = -1;
+  for(int i = 0; i < nnz_ ; i++){
+    const int & k = rowOrdering_[i];
+    if(j >= 0 && jCol_[k] == jCol[j] && iRow_[k] == iRow[j]){
+      value[j] += value_[k];
     }
     else{
-      jCol_[rowOrdering_[++j]] = jCol_[rowOrdering_[i]];
-      iRow_[rowOrdering_[j]] = iRow_[rowOrdering_[i]];
-      value_[rowOrdering_[j]] = value_[rowOrdering_[i]];
+      jCol[++j] = jCol_[k];
+      iRow[j] = iRow_[k];
+      value[j] = value_[k];
     }
   }
-  resizeAndCopyArray(jCol_, j, capacity_);
-  resizeAndCopyArray(iRow_, j, capacity_);
-  resizeAndCopyArray(value_, j, capacity_);
-  nnz_ = j;
+  freeSpace();
+  iRow_ = iRow;
+  jCol_ = jCol;
+  value_ = value;
+  nnz_ = j + 1;
+  //Positions have changed
+  rowOrdering_.clear();
+  columnOrdering_.clear();
 }
 
 void
@@ -192,8 +200,8 @@ TMat::make_lower_to_be_upper(){
 void
 TMat::make_full_upper_triangular(){
   // Make it upper triangular
-  for(int i = 0 , j = 0; i < nnz_ && j < nnz_ ;){
-    if(iRow_[i] < jCol_[i]){//swap the two entries
+  for(int i = 0 ; i < nnz_ ; i++){
+    if(iRow_[i] > jCol_[i]){//swap the two entries
       int buf = iRow_[i];
       iRow_[i] = jCol_[i];
       jCol_[i] = buf;
-- 
2.43.0


From ea6f901980f5ee0f29ed28eff9d4ed76fded01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:25 +0000
Subject: [PATCH 28/58] fix: feasibility pump for MINLP can return to the same
 integer assignment forever

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index 45b07f2..f3aaaaf 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -9,6 +9,7 @@
 
 #include "BonFpForMinlp.hpp"
 #include "BonminConfig.h"
+#include <set>
 
 #include "OsiClpSolverInterface.hpp"
 
@@ -124,6 +125,7 @@ namespace Bonmin
     double * nlpSol = NULL;
     int major_iteration = 0;
     double ub = cutoff;
+    std::set< vector<double> > visited;
     while (colsol) {
       numberPasses++;
 
@@ -139,6 +141,13 @@ namespace Bonmin
          assert(fabs(colsol[indices[i]] - floor(colsol[indices[i]] + 0.5)) < 1e-5);
          x_bar[i] = colsol[indices[i]];
       }
+      // Everything below only depends on the integers: if they have been seen already the cuts added for
+      // them did not remove them (numerically) and the same would be done forever
+      vector<double> x_int(indices.size());
+      for(unsigned int i = 0 ; i < indices.size() ; i++)
+         x_int[i] = floor(x_bar[i] + 0.5);
+      if(!visited.insert(x_int).second)
+        break;
 
       double dist = nlp_->solveFeasibilityProblem(indices.size(), x_bar(), indices(), 1, 0, 2);
 
-- 
2.43.0


From 8d54c9aee92805757d16d9db271e9c862adff40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:07 +0000
Subject: [PATCH 29/58] fix: linear objective reformulation hides new points
 from the original problem

---
 src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp b/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
index 95a7199..ec4a789 100644
--- a/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
+++ b/src/Algorithms/QuadCuts/BonTMINLPLinObj.hpp
@@ -95,9 +95,13 @@ class BONMINLIB_EXPORT TMINLPLinObj: public Bonmin::TMINLP {
       * Just call tminlp_ method. */
     virtual bool eval_f(Ipopt::Index n, const Ipopt::Number* x, bool new_x,
         Ipopt::Number& obj_value){
+        assert(IsValid(tminlp_));
         assert(n == n_);
+        bool ret_val = true;
+        if(new_x)//tminlp_ has to know that the point has changed
+          ret_val = tminlp_->eval_f(n - 1, x, new_x, obj_value);
         obj_value = x[n-1];
-       return true;}
+       return ret_val;}
 
     /** Return the vector of the gradient of
      *  the objective w.r.t. x. Just call tminlp_ method. */
@@ -105,11 +109,14 @@ class BONMINLIB_EXPORT TMINLPLinObj: public Bonmin::TMINLP {
         Ipopt::Number* grad_f){
        assert(IsValid(tminlp_));
        assert(n == n_);
+       bool ret_val = true;
+       if(new_x)//tminlp_ has to know that the point has changed
+         ret_val = tminlp_->eval_grad_f(n - 1, x, new_x, grad_f);
        n--;
        for(int  i = 0 ; i < n ; i++){
         grad_f[i] = 0;}
        grad_f[n] = 1;
-       return true;}
+       return ret_val;}
 
     /** Return the vector of constraint values.
       * Use tminlp_ functions and use mapping to get the needed values. */
-- 
2.43.0


From b20b9b59018e8c1a46baf850d88a31bf33e1ed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 30/58] fix: status of an NLP interface is uninitialized before
 its first solve and in its copies

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 9ab0bf9..0e47763 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -416,12 +416,14 @@ OsiTMINLPInterface::OsiTMINLPInterface():
     veryTiny_(1e-20),
     rhsRelax_(tiny_),
     infty_(1e100),
+    optimizationStatus_(TNLPSolver::doesNotConverge),
     warmStartMode_(None),
     firstSolve_(true),
     cutStrengthener_(NULL),
     oaMessages_(),
     oaHandler_(NULL),
-    newCutoffDecr(COIN_DBL_MAX)
+    newCutoffDecr(COIN_DBL_MAX),
+    optimizationStatusBeforeHotStart_(TNLPSolver::doesNotConverge)
 
 {
    oaHandler_ = new OaMessageHandler;
@@ -580,13 +582,15 @@ OsiTMINLPInterface::OsiTMINLPInterface (const OsiTMINLPInterface &source):
     veryTiny_(source.veryTiny_),
     rhsRelax_(source.rhsRelax_),
     infty_(source.infty_),
+    optimizationStatus_(source.optimizationStatus_),
     warmStartMode_(source.warmStartMode_),
     firstSolve_(true),
     cutStrengthener_(source.cutStrengthener_),
     oaMessages_(),
     oaHandler_(NULL),
     newCutoffDecr(source.newCutoffDecr),
-    strong_branching_solver_(source.strong_branching_solver_)
+    strong_branching_solver_(source.strong_branching_solver_),
+    optimizationStatusBeforeHotStart_(source.optimizationStatusBeforeHotStart_)
 {
   if(IsValid(source.tminlp_)) {
     problem_ = source.problem_->clone();
-- 
2.43.0


From 0ef873a46c9121dd7d273a6498a37c8ebda768c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 31/58] fix: fake basis of an interface that was not solved yet
 dereferences NULL activities

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 0e47763..05d0549 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1480,6 +1480,7 @@ OsiTMINLPInterface::build_fake_basis() const{
    const double * act = problem_->g_sol();
    const double * lb = problem_->g_l();
    const double * ub = problem_->g_u();
+   if(act == NULL) return r_val;//Not solved yet
    for(int i = 0 ; i < n_con ; i++){
      if(lb[i] > ub[i] - EPSILON){
         r_val->setArtifStatus(i, CoinWarmStartBasis::isFree); 
-- 
2.43.0


From cf12dc2e7e26c62997f0a8948a9cc7a5b797aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:43 +0000
Subject: [PATCH 32/58] fix: row activities are those of the last trial after
 resolveForCost keeps an earlier solution

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++++
 src/Interfaces/BonTMINLP2TNLP.cpp        | 8 ++++++++
 src/Interfaces/BonTMINLP2TNLP.hpp        | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 05d0549..c6fd0a8 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -865,6 +865,8 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
   CoinCopyN(getRowPrice(),
       2*getNumCols()+ getNumRows(),
       point() + getNumCols());
+  vector<double> activity(getNumRows());
+  CoinCopyN(getRowActivity(), getNumRows(), activity());
   TNLPSolver::ReturnStatus savedStatus = optimizationStatus_;
   if(isProvenOptimal())
     messageHandler()->message(SOLUTION_FOUND,
@@ -900,6 +902,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
       CoinCopyN(getRowPrice(),
           2*getNumCols()+ getNumRows(),
           point() + getNumCols());
+      CoinCopyN(getRowActivity(), getNumRows(), activity());
       bestBound = getObjValue();
       savedStatus = optimizationStatus_;
     }
@@ -980,6 +983,7 @@ OsiTMINLPInterface::resolveForCost(int numsolve, bool keepWarmStart)
 
   problem_->Set_x_sol(getNumCols(),point());
   problem_->Set_dual_sol((int) point.size()-getNumCols(), point() + getNumCols());
+  problem_->Set_g_sol(getNumRows(), activity());
   problem_->set_obj_value(bestBound);
   optimizationStatus_ = savedStatus;
   hasBeenOptimized_ = true;
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index 9055623..f462b1b 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -327,6 +327,14 @@ namespace Bonmin
     IpBlasDcopy(n, dual_sol, 1, duals_sol_(), 1);
   }
 
+  /** Set the constraints values at the continuous solution */
+  void TMINLP2TNLP::Set_g_sol(Index m, const Number* g_sol)
+  {
+    assert(m == num_constraints());
+    g_sol_.resize(m);
+    IpBlasDcopy(m, g_sol, 1, g_sol_(), 1);
+  }
+
   /** Change the type of the variable */
   void TMINLP2TNLP::SetVariableType(Index n, TMINLP::VariableType type)
   {
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index f158ad8..0976f49 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -215,6 +215,9 @@ namespace Bonmin
     /** Set the contiuous dual solution */
     void Set_dual_sol(Ipopt::Index n, const Ipopt::Number* dual_sol);
 
+    /** Set the constraints values at the continuous solution */
+    void Set_g_sol(Ipopt::Index m, const Ipopt::Number* g_sol);
+
     /** Change the type of the variable */
     void SetVariableType(Ipopt::Index n, TMINLP::VariableType type);
     //@}
-- 
2.43.0


From b3ff41cdac8242468b1eae1fc1cf7c9d786fc1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:04 +0000
Subject: [PATCH 33/58] fix: starting point is a stale pointer after it was
 reset

---
 src/Interfaces/BonTMINLP2TNLP.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index 0976f49..8151bd5 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -117,7 +117,7 @@ namespace Bonmin
     /** get the starting primal point */
     const Ipopt::Number * x_init() const
     {
-      return x_init_();
+      return x_init_.empty() ? NULL : x_init_();
     }
 
     /** get the user provided starting primal point */
-- 
2.43.0


From 249c1009e673ca193bb3f42d1310321122fa6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:12 +0000
Subject: [PATCH 34/58] fix: re-solving for robustness enables warm starts
 without a dual point, so that every later solve fails

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index c6fd0a8..a7140ca 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1031,8 +1031,10 @@ OsiTMINLPInterface::resolveForRobustness(int numsolve)
   if(!isAbandoned()) {
     messageHandler()->message(WARN_SUCCESS_WS, messages_) << CoinMessageEol ;
     // re-enable warmstart and get it
-    app_->enableWarmStart();
-    if (warmStartMode_ < Optimum) {
+    // (if it is not exposed, only if there is a dual starting point to restore)
+    if (warmStartMode_ >= Optimum)
+      app_->enableWarmStart();
+    else {
       app_->setWarmStart(ws_backup, problem_);
       delete ws_backup;
     }
@@ -1066,8 +1068,9 @@ OsiTMINLPInterface::resolveForRobustness(int numsolve)
       messageHandler()->message(WARN_SUCCESS_RANDOM, messages_)
 	<< f+2 << CoinMessageEol ;
       // re-enable warmstart and get it
-      app_->enableWarmStart();
-      if (warmStartMode_ < Optimum) {
+      if (warmStartMode_ >= Optimum)
+        app_->enableWarmStart();
+      else {
         app_->setWarmStart(ws_backup, problem_);
         delete ws_backup;
       }
-- 
2.43.0


From 0fcbdcca6588454f16f95944396f64bb93ed7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:12 +0000
Subject: [PATCH 35/58] fix: setting an empty warm start makes the next resolve
 abort

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index a7140ca..066a29a 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1532,6 +1532,10 @@ OsiTMINLPInterface::internal_setWarmStart(const CoinWarmStart* ws)
     warmstart_ = ws->clone();
     return true;
   }
+  const IpoptWarmStart* iws = dynamic_cast<const IpoptWarmStart*>(ws);
+  if (iws && iws->empty()) {//Nothing to start from
+    return true;
+  }
   // See if it is anything else than the CoinWarmStartBasis that all others
   // derive from
   const CoinWarmStartPrimalDual* pdws =
-- 
2.43.0


From 86a2e282ee350cb5d3d5fc72f038b22fc3cc4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:12 +0000
Subject: [PATCH 36/58] fix: copying branching information frees uninitialized
 pointers

---
 src/Interfaces/BonTMINLP.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Interfaces/BonTMINLP.hpp b/src/Interfaces/BonTMINLP.hpp
index c2b87bf..95f1132 100644
--- a/src/Interfaces/BonTMINLP.hpp
+++ b/src/Interfaces/BonTMINLP.hpp
@@ -143,7 +143,6 @@ namespace Bonmin
       {}
       BranchingInfo(const BranchingInfo &other)
       {
-        gutsOfDestructor();
         size = other.size;
         priorities = CoinCopyOfArray(other.priorities, size);
         branchingDirections = CoinCopyOfArray(other.branchingDirections, size);
-- 
2.43.0


From 97b5ea7834c605ddbf377586aa73bea7005be590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:12 +0000
Subject: [PATCH 37/58] fix: copying sos information overwrites the original
 with uninitialized data

---
 src/Interfaces/BonTMINLP.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index fc96bc4..becf892 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -47,13 +47,14 @@ TMINLP::SosInfo::SosInfo(const SosInfo & source):
     indices = new int[numNz];
     weights = new double[numNz];
     for(int i = 0 ; i < num ; i++) {
-      source.types[i] = types[i];
-      source.priorities[i] = priorities[i];
-      source.starts[i] = starts[i];
+      types[i] = source.types[i];
+      priorities[i] = source.priorities[i];
+      starts[i] = source.starts[i];
     }
+    starts[num] = source.starts[num];
     for(int i = 0 ; i < numNz ; i++) {
-      source.indices[i] = indices[i];
-      source.weights[i] = weights[i];
+      indices[i] = source.indices[i];
+      weights[i] = source.weights[i];
     }
   }
   else {
-- 
2.43.0


From fcfc7874b640d5755db1459934f1488d80bc7845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:12 +0000
Subject: [PATCH 38/58] fix: clearing the perturbation radii leaves a dangling
 pointer

---
 src/Interfaces/BonTMINLP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interfaces/BonTMINLP.cpp b/src/Interfaces/BonTMINLP.cpp
index becf892..3e941d6 100644
--- a/src/Interfaces/BonTMINLP.cpp
+++ b/src/Interfaces/BonTMINLP.cpp
@@ -89,6 +89,7 @@ TMINLP::SosInfo::gutsOfDestructor()
 
 void TMINLP::PerturbInfo::SetPerturbationArray(Ipopt::Index numvars, const double* perturb_radius) {
   delete [] perturb_radius_;
+  perturb_radius_ = NULL;
   if (perturb_radius) {
     perturb_radius_ = new double[numvars];
     for(int i=0; i<numvars; i++) {
-- 
2.43.0


From e2ad1bed641283fbb5b5334ec0c33089c461038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:12 +0000
Subject: [PATCH 39/58] fix: copying a setup with another NLP passes the
 message handler to a missing LP solver

---
 src/Algorithms/BonBabSetupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 571c8fe..0529e83 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -152,7 +152,7 @@ namespace Bonmin
       continuousSolver_ = nonlinearSolver_;
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      nonlinearSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
-- 
2.43.0


From 6a2e02aea5d3f284beb16f5d104e5a5b4aa9877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:49 +0000
Subject: [PATCH 40/58] fix: a copied setup keeps using the solvers and
 heuristics of the original

---
 src/Algorithms/BonBabSetupBase.cpp | 15 ++++++++------
 src/Algorithms/BonBonminSetup.cpp  | 32 +++++++++++++++++++++++++++++-
 src/CbcBonmin/BonCbc.cpp           |  1 +
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index 0529e83..ff05f6e 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -95,7 +95,10 @@ namespace Bonmin
     if (other.nonlinearSolver_) {
       nonlinearSolver_ = static_cast<OsiTMINLPInterface *>(other.nonlinearSolver_->clone());
     }
-    if (other.continuousSolver_) {
+    if (other.continuousSolver_ && other.continuousSolver_ == other.nonlinearSolver_) {
+      continuousSolver_ = nonlinearSolver_;
+    }
+    else if (other.continuousSolver_) {
       continuousSolver_ = other.continuousSolver_->clone();
     }
     if (other.messageHandler_) {
@@ -107,7 +110,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -121,7 +124,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
@@ -159,7 +162,7 @@ namespace Bonmin
       cutGenerators_.back().cgl = cutGenerators_.back().cgl->clone();
     }
 
-    for (HeuristicMethods::iterator i = heuristics_.begin() ; i != heuristics_.end() ; i++) {
+    for (HeuristicMethods::const_iterator i = other.heuristics_.begin() ; i != other.heuristics_.end() ; i++) {
       heuristics_.push_back(*i);
       heuristics_.back().heuristic = i->heuristic->clone();
     }
@@ -173,7 +176,7 @@ namespace Bonmin
     CoinCopyN(other.intParam_, NumberIntParam, intParam_);
     CoinCopyN(other.doubleParam_, NumberDoubleParam, doubleParam_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
   /** Copy constructor with change of nlp. */
@@ -209,7 +212,7 @@ namespace Bonmin
     CoinCopyN(defaultDoubleParam_, NumberDoubleParam, doubleParam_);
     gatherParametersValues(options_);
     for (unsigned int i = 0 ; i < objects_.size() ; i++) {
-      objects_[i]->clone();
+      objects_[i] = objects_[i]->clone();
     }
   }
 
diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index ae60d2f..b93246d 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -61,12 +61,41 @@
 //#include "BonInnerApproximation.hpp"
 namespace Bonmin
 {
+  /** Make the cut generators and heuristics of a copied setup use that setup instead of the original.*/
+  static void useSetup(BonminSetup * s)
+  {
+    for (BabSetupBase::CuttingMethods::iterator i = s->cutGenerators().begin() ; i != s->cutGenerators().end() ; i++) {
+      if (OaDecompositionBase * oa = dynamic_cast<OaDecompositionBase *>(i->cgl))
+        oa->assignNlpInterface(s->nonlinearSolver());
+      else if (OaNlpOptim * opt = dynamic_cast<OaNlpOptim *>(i->cgl))
+        opt->assignInterface(s->nonlinearSolver());
+    }
+    for (BabSetupBase::HeuristicMethods::iterator i = s->heuristics().begin() ; i != s->heuristics().end() ; i++) {
+      if (DummyHeuristic * h = dynamic_cast<DummyHeuristic *>(i->heuristic))
+        h->setNlp(s->nonlinearSolver());
+      else if (HeuristicDive * h = dynamic_cast<HeuristicDive *>(i->heuristic))
+        h->setSetup(s);
+      else if (HeuristicDiveMIP * h = dynamic_cast<HeuristicDiveMIP *>(i->heuristic))
+        h->setSetup(s);
+      else if (HeuristicFPump * h = dynamic_cast<HeuristicFPump *>(i->heuristic))
+        h->setSetup(s);
+      else if (LocalSolverBasedHeuristic * h = dynamic_cast<LocalSolverBasedHeuristic *>(i->heuristic))
+        h->setSetup(s);
+      else if (MilpRounding * h = dynamic_cast<MilpRounding *>(i->heuristic))
+        h->setSetup(s);
+    }
+    if (s->branchingMethod() != NULL && s->continuousSolver() != NULL)
+      s->branchingMethod()->setSolver(s->continuousSolver());
+  }
+
   BonminSetup::BonminSetup(const CoinMessageHandler * handler):BabSetupBase(handler),algo_(Dummy)
   {}
 
   BonminSetup::BonminSetup(const BonminSetup &other):BabSetupBase(other),
       algo_(other.algo_)
-  {}
+  {
+    useSetup(this);
+  }
 
   BonminSetup::BonminSetup(const BonminSetup &other,
                            OsiTMINLPInterface &nlp):
@@ -88,6 +117,7 @@ namespace Bonmin
       continuousSolver_->setAuxiliaryInfo(extraStuff);
       delete extraStuff;
     }
+    useSetup(this);
   }
   BonminSetup::BonminSetup(const BonminSetup &other,
                            OsiTMINLPInterface &nlp,
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 841fc37..019c28b 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -300,6 +300,7 @@ namespace Bonmin
     if (strong2)
       strong2->setCbcModel(&model_);
     branch.setChooseMethod(*s.branchingMethod());
+    s.branchingMethod()->setSolver(s.continuousSolver());
 
     model_.setBranchingMethod(&branch);
 	// prevent duplicating object when copying in CbcModel.cpp
-- 
2.43.0


From 62b5943364ef7c7b21c225b3bd0be9c3946bd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:31 +0000
Subject: [PATCH 41/58] fix: NLP solver of a copied setup keeps the message
 handler of the original

---
 src/Algorithms/BonBabSetupBase.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index ff05f6e..da2ec55 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -103,7 +103,10 @@ namespace Bonmin
     }
     if (other.messageHandler_) {
       messageHandler_ = other.messageHandler_->clone();
-      continuousSolver_->passInMessageHandler(messageHandler_);
+      if (nonlinearSolver_)
+        nonlinearSolver_->passInMessageHandler(messageHandler_);
+      if (continuousSolver_)
+        continuousSolver_->passInMessageHandler(messageHandler_);
     }
     for (CuttingMethods::const_iterator i = other.cutGenerators_.begin() ; i != other.cutGenerators_.end() ; i++) {
       cutGenerators_.push_back(*i);
-- 
2.43.0


From c960bc93cfd878fcc98b3a798d5e0d7f98365402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:46 +0000
Subject: [PATCH 42/58] fix: a setup copied with another NLP loses the
 branching objects, priorities and sos constraints

---
 src/Algorithms/BonBonminSetup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Algorithms/BonBonminSetup.cpp b/src/Algorithms/BonBonminSetup.cpp
index b93246d..9bf449b 100644
--- a/src/Algorithms/BonBonminSetup.cpp
+++ b/src/Algorithms/BonBonminSetup.cpp
@@ -112,6 +112,8 @@ namespace Bonmin
       continuousSolver_->messageHandler()->setLogLevel(lpLogLevel);
 
       nonlinearSolver_->extractLinearRelaxation(*continuousSolver_);
+      if(other.continuousSolver_ && other.continuousSolver_->numberObjects())
+        continuousSolver_->addObjects(other.continuousSolver_->numberObjects(), other.continuousSolver_->objects());
       // say bound dubious, does cuts at solution
       OsiBabSolver * extraStuff = new OsiBabSolver(3);
       continuousSolver_->setAuxiliaryInfo(extraStuff);
-- 
2.43.0


From 6325cfff87bf50c27dbba87797c85375679678a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 43/58] fix: probed diving overwrites or never gives back a
 candidate node once the cutoff passed it

---
 src/CbcBonmin/BonDiver.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CbcBonmin/BonDiver.cpp b/src/CbcBonmin/BonDiver.cpp
index fb12cf7..9d4a725 100644
--- a/src/CbcBonmin/BonDiver.cpp
+++ b/src/CbcBonmin/BonDiver.cpp
@@ -363,6 +363,11 @@ namespace Bonmin
       assert(true && "Should not get here.");
       CbcTree::push(nextOnBranch_);//For safety
       nextOnBranch_ = NULL;
+      //Also have to cleanup candidateChild_
+      if (candidateChild_ != NULL) {
+        CbcTree::push(candidateChild_);
+        candidateChild_ = NULL;
+      }
     }
     else if(candidateChild_ != NULL && ! treeCleaning_){
 #ifdef DIVE_DEBUG
@@ -388,6 +393,8 @@ namespace Bonmin
         return ret_val;
       }
       assert(true && "Should not get here.");
+      CbcTree::push(candidateChild_);//For safety
+      candidateChild_ = NULL;
    }
    CbcNode * ret_val = CbcTree::bestNode(cutoff);
 #ifdef DIVE_DEBUG
-- 
2.43.0


From 69b0767045ef691f086bc99619607abd0cc8bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:27 +0000
Subject: [PATCH 44/58] fix: the bounds reader reads past the end of the file,
 never initializes its indices and terminates on a missing file

---
 src/Interfaces/BonBoundsReader.cpp | 76 +++++++++++++-----------------
 src/Interfaces/BonBoundsReader.hpp |  2 +
 2 files changed, 36 insertions(+), 42 deletions(-)

diff --git a/src/Interfaces/BonBoundsReader.cpp b/src/Interfaces/BonBoundsReader.cpp
index d4ef484..e184099 100644
--- a/src/Interfaces/BonBoundsReader.cpp
+++ b/src/Interfaces/BonBoundsReader.cpp
@@ -10,6 +10,8 @@
 #include "BonBoundsReader.hpp"
 
 #include <fstream>
+#include <limits>
+#include <vector>
 
 namespace Bonmin {
 BoundsReader::~BoundsReader()
@@ -55,62 +57,52 @@ void BoundsReader::read(const std::string &fileName)
 void BoundsReader::read()
 {
   gutsOfDestructor();
-  //First count the number of lower and upper bounds resp
   std::string lo="LO";
   std::string up="UP";
   std::string in;
-  {
-    std::ifstream fin(fileName_.c_str());
-    //std::streampos begin = fin.tellg();
-    while(!fin.eof()) {
-      fin>>in;
-      if(in==lo)
-        nLower_++;
-      else if(in==up)
-        nUpper_++;
-      else
-        throw;
-      fin.ignore(10000,'\n');
+  std::vector<double> lowers, uppers;
+  std::vector<int> indLowers, indUppers;
+  std::ifstream fin(fileName_.c_str());
+  if(!fin.is_open())
+    throw CoinError("Cannot open file " + fileName_, "read", "BoundsReader");
+  while(fin>>in) {
+    int index;
+    double bound;
+    if(in!=lo && in!=up)
+      throw CoinError("Unknown type of bound " + in, "read", "BoundsReader");
+    if(!(fin>>index>>bound))
+      throw CoinError("Cannot read index and value of a bound", "read", "BoundsReader");
+    if(in==lo) {
+      lowers.push_back(bound);
+      indLowers.push_back(index);
     }
+    else {
+      uppers.push_back(bound);
+      indUppers.push_back(index);
+    }
+    fin.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
   }
+  nLower_ = static_cast<int>(lowers.size());
+  nUpper_ = static_cast<int>(uppers.size());
   if(nLower_ > 0) {
-    lowerBounds_ = new double[nLower_];
-    indexLowers_ = new int[nLower_];
+    lowerBounds_ = CoinCopyOfArray(&lowers[0], nLower_);
+    indexLowers_ = CoinCopyOfArray(&indLowers[0], nLower_);
   }
   if(nUpper_ > 0) {
-    upperBounds_ = new double[nUpper_];
-    indexUppers_ = new int[nUpper_];
-  }
-  //fin.seekg(0);
-  // fin.seekg( 0, std::ios::beg);
-  nLower_ = 0;
-  nUpper_ = 0;
-  {
-    std::ifstream fin2(fileName_.c_str());
-    //fin.close();
-    //fin.open(fileName_.c_str());
-    while(!fin2.eof()) {
-      int index;
-      double bound;
-      fin2>>in>>index>>bound;
-      if(in==lo) {
-        lowerBounds_[nLower_] = bound;
-        indexLowers_[nLower_++] = index;
-      }
-      else if(in==up) {
-        upperBounds_[nUpper_] = bound;
-        indexUppers_[nUpper_++] = index;
-      }
-      else
-        throw;
-      fin2.ignore(10000,'\n');
-    }
+    upperBounds_ = CoinCopyOfArray(&uppers[0], nUpper_);
+    indexUppers_ = CoinCopyOfArray(&indUppers[0], nUpper_);
   }
 }
 
 void BoundsReader::readAndApply(OsiTMINLPInterface * solver)
 {
   read();
+  const int numcols = solver->getNumCols();
+  for(int i = 0 ; i < nLower_ + nUpper_ ; i++) {
+    const int index = (i < nLower_) ? indexLowers_[i] : indexUppers_[i - nLower_];
+    if(index < 0 || index >= numcols)
+      throw CoinError("Bound given for a variable that does not exist", "readAndApply", "BoundsReader");
+  }
   for(int i = 0 ; i < nLower_ ; i++) {
     solver->setColLower(indexLowers_[i], lowerBounds_[i]);
   }
diff --git a/src/Interfaces/BonBoundsReader.hpp b/src/Interfaces/BonBoundsReader.hpp
index 64a6921..28dff8e 100644
--- a/src/Interfaces/BonBoundsReader.hpp
+++ b/src/Interfaces/BonBoundsReader.hpp
@@ -25,6 +25,8 @@ public:
       fileName_(),
       lowerBounds_(NULL),
       upperBounds_(NULL),
+      indexLowers_(NULL),
+      indexUppers_(NULL),
       nLower_(0),
       nUpper_(0)
   {}
-- 
2.43.0


From 5367214719c8ef9d6242f55da21bdf04486ec37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:49 +0000
Subject: [PATCH 45/58] fix: the starting point reader applies a point it could
 not read or that has other dimensions than the problem

---
 src/Interfaces/BonStartPointReader.cpp | 46 ++++++++++++++++----------
 src/Interfaces/BonStartPointReader.hpp | 16 +++++++--
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/Interfaces/BonStartPointReader.cpp b/src/Interfaces/BonStartPointReader.cpp
index e3e4827..40b8e60 100644
--- a/src/Interfaces/BonStartPointReader.cpp
+++ b/src/Interfaces/BonStartPointReader.cpp
@@ -18,37 +18,47 @@ namespace Bonmin {
       std::cerr<<"Error in opening initial point file";
       return false;
     }
-    int numPrimals;
-    int numDuals;
+    int numPrimals = 0;
+    int numDuals = 0;
     inFile>>numPrimals>>numDuals;
-    gutsOfDestructor();
-    primals_ = new double [numPrimals];
-    duals_ = new double[numDuals];
+    if(!inFile || numPrimals < 0 || numDuals < 0) {
+      std::cerr<<"Error in reading initial point file";
+      return false;
+    }
+    double * primals = new double [numPrimals];
+    double * duals = new double[numDuals];
     for(int i = 0; i < numPrimals ; i++) {
-      inFile>>primals_[i];
+      inFile>>primals[i];
     }
     for(int i = 0; i < numDuals ; i++) {
-      inFile>>duals_[i];
+      inFile>>duals[i];
+    }
+    if(!inFile) {
+      std::cerr<<"Error in reading initial point file";
+      delete [] primals;
+      delete [] duals;
+      return false;
     }
+    gutsOfDestructor();
+    primals_ = primals;
+    duals_ = duals;
+    numPrimals_ = numPrimals;
+    numDuals_ = numDuals;
     return true;
   }
 
   bool StartPointReader::readAndApply(OsiTMINLPInterface * solver)
   {
-    readFile();
-    solver->solver()->enableWarmStart();
-    if(primals_)
-      solver->setColSolution(primals_);
-    else {
-      std::cerr<<"No warm start info ???"<<std::endl;
+    if(!readFile())
       return 0;
-    }
-    if(duals_)
-      solver->setRowPrice(duals_);
-    else {
-      std::cerr<<"No warm start info ???"<<std::endl;
+    if(numPrimals_ != solver->getNumCols() ||
+       numDuals_ != 2 * solver->getNumCols() + solver->getNumRows()) {
+      std::cerr<<"Initial point file does not have the dimensions of the problem"<<std::endl;
       return 0;
     }
+    solver->solver()->enableWarmStart();
+    solver->setColSolution(primals_);
+    solver->setRowPrice(duals_);
     return 1;
   }
 }
diff --git a/src/Interfaces/BonStartPointReader.hpp b/src/Interfaces/BonStartPointReader.hpp
index f1d39c1..defb0f0 100644
--- a/src/Interfaces/BonStartPointReader.hpp
+++ b/src/Interfaces/BonStartPointReader.hpp
@@ -27,13 +27,17 @@ public:
   StartPointReader(std::string fileName = ""):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
   /** Constructor with fileName_ given by a const char * */
   StartPointReader(const char * fileName):
       fileName_(fileName),
       primals_(NULL),
-      duals_(NULL)
+      duals_(NULL),
+      numPrimals_(0),
+      numDuals_(0)
   {}
 
   /** Reads the .initP file*/
@@ -59,6 +63,10 @@ public:
       delete[] primals_;
     if(duals_!=NULL)
       delete[] duals_;
+    primals_ = NULL;
+    duals_ = NULL;
+    numPrimals_ = 0;
+    numDuals_ = 0;
   }
 
   /// Access primal variables values.
@@ -79,6 +87,10 @@ private:
   double * primals_;
   /// Dual variables values.
   double * duals_;
+  /// Number of primal values read.
+  int numPrimals_;
+  /// Number of dual values read.
+  int numDuals_;
 };
 
 }
-- 
2.43.0


From 15fe50e7b750a81ea23f1a88c5e8493c71f0976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:49 +0000
Subject: [PATCH 46/58] fix: the names reader indexes names by pointers that do
 not survive reading, keeps names of an earlier file and copies names the
 wrong way

---
 src/Interfaces/BonColReader.cpp | 12 +++++++-----
 src/Interfaces/BonColReader.hpp | 11 +----------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/Interfaces/BonColReader.cpp b/src/Interfaces/BonColReader.cpp
index 7a43470..8c15070 100644
--- a/src/Interfaces/BonColReader.cpp
+++ b/src/Interfaces/BonColReader.cpp
@@ -14,7 +14,7 @@ namespace Bonmin{
 
 NamesReader::NamesReader(const char * file, const char * suffix)
     :
-    file_(), suffix_(suffix), indices_(), names_()
+    file_(), suffix_(), indices_(), names_()
 {
   assert(file!= NULL);
   file_=file;
@@ -30,7 +30,7 @@ bool NamesReader::readFile()
 {
   std::string colFileName = file_;
   size_t size = colFileName.size();
-  bool hasNlExtension =  (colFileName.size()>4) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
+  bool hasNlExtension =  (colFileName.size()>3) && (colFileName[size - 1] =='l') && (colFileName[size - 2] =='n') && (colFileName[size - 3] =='.');
   if(hasNlExtension)
     colFileName.erase(size-3,3);
   colFileName+=suffix_;
@@ -38,6 +38,8 @@ bool NamesReader::readFile()
   if(!inFile.is_open()) {
     return false;
   }
+  names_.clear();
+  indices_.clear();
   std::string name;
   int nVar = 0;
   do {
@@ -46,14 +48,14 @@ bool NamesReader::readFile()
     if(name.size()==0)
       continue;
     names_.push_back(name);
-    indices_[names_[nVar].c_str()] = nVar;
+    indices_[names_[nVar]] = nVar;
     nVar++;
   }
   while(!inFile.eof());
 
   //  names_ = new std::string[nVar];
   for(int i = 0 ; i < nVar ; i++) {
-    assert(i==indices_ [ names_ [i].c_str()]);
+    assert(i==indices_ [ names_ [i]]);
   }
   return true;
 }
@@ -61,6 +63,6 @@ bool NamesReader::readFile()
 void
 NamesReader::copyNames(OsiSolverInterface::OsiNameVec& names)
 {
-  names_ = names;
+  names = names_;
 }
 }
diff --git a/src/Interfaces/BonColReader.hpp b/src/Interfaces/BonColReader.hpp
index e086736..7ad3256 100644
--- a/src/Interfaces/BonColReader.hpp
+++ b/src/Interfaces/BonColReader.hpp
@@ -58,17 +58,8 @@ private:
   /// Suffix of the file (".col", ".row")
   std::string suffix_;
 
-  /// String comparison strucutre.
-  struct ltstr
-  {
-    bool operator()(const char* s1, const char* s2) const
-    {
-      return strcmp(s1, s2) < 0;
-    }
-  };
-
   /// Hash type.
-  typedef std::map<const char *, int, ltstr> namesHash;
+  typedef std::map<std::string, int> namesHash;
   ///Hash map used to store the indices.
   namesHash indices_;
   ///Variable names.
-- 
2.43.0


From 166f8932e76412c093816e4fe4ee083e2c036389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:38 +0000
Subject: [PATCH 47/58] fix: files written for an unsolved NLP lose digits of
 the bounds and announce duals that are not there

---
 src/Interfaces/BonStartPointReader.cpp | 6 ++++--
 src/Interfaces/BonTNLPSolver.cpp       | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Interfaces/BonStartPointReader.cpp b/src/Interfaces/BonStartPointReader.cpp
index 40b8e60..1b45352 100644
--- a/src/Interfaces/BonStartPointReader.cpp
+++ b/src/Interfaces/BonStartPointReader.cpp
@@ -52,12 +52,14 @@ namespace Bonmin {
     if(!readFile())
       return 0;
     if(numPrimals_ != solver->getNumCols() ||
-       numDuals_ != 2 * solver->getNumCols() + solver->getNumRows()) {
+       (numDuals_ != 0 && numDuals_ != 2 * solver->getNumCols() + solver->getNumRows())) {
       std::cerr<<"Initial point file does not have the dimensions of the problem"<<std::endl;
       return 0;
     }
-    solver->solver()->enableWarmStart();
     solver->setColSolution(primals_);
+    if(numDuals_ == 0)//only a primal point
+      return 1;
+    solver->solver()->enableWarmStart();
     solver->setRowPrice(duals_);
     return 1;
   }
diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index d070ee5..2bcddf2 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -193,6 +193,8 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
   if(hasVarNames)
     fMod.open(fModName.c_str());
   fBounds.open(fBoundsName.c_str());
+  fMod.precision(17);
+  fBounds.precision(17);
     
   for(int i = 0 ; i < numcols ; i++)
     {    
@@ -234,7 +236,7 @@ TNLPSolver::UnsolvedError::writeDiffFiles(const std::string prefix) const{
 
     std::ofstream fStartPoint(fStartPointName.c_str());
     fStartPoint.precision(17);
-    fStartPoint<<numcols<<"\t"<<2*numcols+numrows<<std::endl;
+    fStartPoint<<numcols<<"\t"<<(duals ? 2*numcols+numrows : 0)<<std::endl;
     for(int i = 0 ; i < numcols ; i++)
     fStartPoint<<primals[i]<<std::endl;
     int end = 2*numcols + numrows;
-- 
2.43.0


From 027e66fe752177e53644bcf99244227eda42e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:38 +0000
Subject: [PATCH 48/58] fix: the final callback is told of zero variables when
 an NLP could not be solved

---
 src/CbcBonmin/BonCbc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 019c28b..69d8825 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -530,7 +530,7 @@ namespace Bonmin
     }
     catch(TNLPSolver::UnsolvedError *E){
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
-           0,
+           s.nonlinearSolver()->getNumCols(),
            NULL,
            DBL_MAX);
       throw E;
-- 
2.43.0


From 255b179e910abdc0589d2bb1f66396b07eb97e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:38 +0000
Subject: [PATCH 49/58] fix: strong branching with sos constraints branches on
 a variable that is fixed already

---
 .../Branching/BonChooseVariable.cpp           | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index 394747a..f5e6732 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -702,9 +702,13 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,0);
-                branch->branch(solver);
-                delete branch;
+                int iCol = obj->columnNumber();
+                // a variable may be fixed already by another object
+                if (iCol < 0 || solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,0);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double downEstimate;
@@ -725,9 +729,13 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                OsiBranchingObject * branch = obj->createBranch(solver,info,1);
-                branch->branch(solver);
-                delete branch;
+                int iCol = obj->columnNumber();
+                // a variable may be fixed already by another object
+                if (iCol < 0 || solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                  OsiBranchingObject * branch = obj->createBranch(solver,info,1);
+                  branch->branch(solver);
+                  delete branch;
+                }
               }
             }
             double MAXMIN_CRITERION = maxminCrit(info);
-- 
2.43.0


From 4025dcf5361fb7933c6fbb2ae996603c13f72f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:38 +0000
Subject: [PATCH 50/58] fix: special ordered sets, priorities and preferred
 directions do not reach the branching objects of the LP based algorithms

---
 src/Algorithms/BonBabSetupBase.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/BonBabSetupBase.cpp b/src/Algorithms/BonBabSetupBase.cpp
index da2ec55..ece8d6c 100644
--- a/src/Algorithms/BonBabSetupBase.cpp
+++ b/src/Algorithms/BonBabSetupBase.cpp
@@ -786,10 +786,11 @@ namespace Bonmin
     const double * upPsCosts = nonlinearSolver()->getUpPsCosts();
     const int * directions = nonlinearSolver()->getBranchingDirections();
     bool hasPseudo = (upPsCosts!=NULL);
-    if ((priorities == NULL) && (directions == NULL) && hasPseudo)
+    if ((priorities == NULL) && (directions == NULL) && !hasPseudo)
       return;
-    int n = nonlinearSolver()->numberObjects();
-    OsiObject ** objects = nonlinearSolver()->objects();
+    // the search branches on the objects of the continuous solver
+    int n = continuousSolver()->numberObjects();
+    OsiObject ** objects = continuousSolver()->objects();
     for (int i = 0 ; i < n; i++) {
       OsiObject2 * object = dynamic_cast<OsiObject2 *>(objects[i]);
       int iCol = objects[i]->columnNumber();
@@ -832,7 +833,7 @@ namespace Bonmin
       const double * weights = sos->weights;
       bool hasPriorities = false;
       const int * varPriorities = nonlinearSolver()->getPriorities();
-      int numberObjects =  nonlinearSolver()->numberObjects();
+      int numberObjects =  continuousSolver()->numberObjects();
       if (varPriorities)
       {
         for (int i = 0 ; i < numberObjects ; i++) {
@@ -856,7 +857,7 @@ namespace Bonmin
       {
         int start = starts[i];
         int length = starts[i + 1] - start;
-        objects[i] = new OsiSOS(nonlinearSolver(), length, &indices[start],
+        objects[i] = new OsiSOS(continuousSolver(), length, &indices[start],
             &weights[start], (int) types[i]);
 
         objects[i]->setPriority(10);
@@ -864,7 +865,7 @@ namespace Bonmin
           objects[i]->setPriority(sosPriorities[i]);
         }
       }
-      nonlinearSolver()->addObjects(numSos, objects);
+      continuousSolver()->addObjects(numSos, objects);
       for (int i = 0 ; i < numSos ; i++)
         delete objects[i];
       delete [] objects;
-- 
2.43.0


From c1a4473f6e5c06eb1dd999366f508bb1890f94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:13 +0000
Subject: [PATCH 51/58] fix: strong branching with overlapping sos sets
 branches on a set that is satisfied already

---
 src/Algorithms/Branching/BonChooseVariable.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Algorithms/Branching/BonChooseVariable.cpp b/src/Algorithms/Branching/BonChooseVariable.cpp
index f5e6732..aa8a7e1 100644
--- a/src/Algorithms/Branching/BonChooseVariable.cpp
+++ b/src/Algorithms/Branching/BonChooseVariable.cpp
@@ -702,9 +702,9 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                int iCol = obj->columnNumber();
-                // a variable may be fixed already by another object
-                if (iCol < 0 || solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                int way = 0;
+                // it may be satisfied already by what was fixed for other objects
+                if (obj->infeasibility(info, way) > 0.) {
                   OsiBranchingObject * branch = obj->createBranch(solver,info,0);
                   branch->branch(solver);
                   delete branch;
@@ -729,9 +729,9 @@ namespace Bonmin
               numberFixed++;
               if (fixVariables) {
                 const OsiObject * obj = solver->object(iObject);
-                int iCol = obj->columnNumber();
-                // a variable may be fixed already by another object
-                if (iCol < 0 || solver->getColLower()[iCol] < solver->getColUpper()[iCol]) {
+                int way = 0;
+                // it may be satisfied already by what was fixed for other objects
+                if (obj->infeasibility(info, way) > 0.) {
                   OsiBranchingObject * branch = obj->createBranch(solver,info,1);
                   branch->branch(solver);
                   delete branch;
-- 
2.43.0


From 177c9fd50652bfe979db9e05c89a2ff1cb722d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:32 +0000
Subject: [PATCH 52/58] fix: an NLP failure while Cbc checks a solution deletes
 its solver twice

---
 src/CbcBonmin/BonCbc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 69d8825..c95b960 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -529,6 +529,11 @@ namespace Bonmin
     }
     }
     catch(TNLPSolver::UnsolvedError *E){
+      //Cbc uses its continuous solver in place of the solver while it checks a solution: do not delete it twice
+      if(model_.solver() && model_.solver() == model_.continuousSolver()) {
+        OsiSolverInterface * solver = model_.solver()->clone();
+        model_.assignSolver(solver, false);
+      }
       s.nonlinearSolver()->model()->finalize_solution(TMINLP::MINLP_ERROR,
            s.nonlinearSolver()->getNumCols(),
            NULL,
-- 
2.43.0


From 1aa180fbdbc5a324f5a199096b51ca5dd0a73e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:32 +0000
Subject: [PATCH 53/58] fix: failed evaluations of a problem with all variables
 fixed are taken as valid data

---
 src/Interfaces/BonTNLPSolver.cpp        | 15 +++++++++++++--
 src/Interfaces/Ipopt/BonIpoptSolver.cpp |  4 ++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Interfaces/BonTNLPSolver.cpp b/src/Interfaces/BonTNLPSolver.cpp
index 2bcddf2..7aa9d84 100644
--- a/src/Interfaces/BonTNLPSolver.cpp
+++ b/src/Interfaces/BonTNLPSolver.cpp
@@ -107,7 +107,7 @@ namespace Bonmin{
     // feasible or not.
     double obj_value;
 
-    tnlp->eval_f(n, x_l, true, obj_value);
+    bool evaluated = tnlp->eval_f(n, x_l, true, obj_value);
 
     double * x_sol = new double[n];
 
@@ -119,7 +119,18 @@ namespace Bonmin{
 
     double * g_sol = (m > 0) ? new double [m] : NULL;
 
-    tnlp->eval_g(n, x_sol, true, m, g_sol);
+    evaluated = evaluated && tnlp->eval_g(n, x_sol, true, m, g_sol);
+
+    if(!evaluated) {//nothing is known of the point
+      optimizationStatus = computationError;
+      if (m > 0) {
+        delete [] g_l;
+        delete [] g_u;
+        delete [] g_sol;
+      }
+      delete [] x_sol;
+      return 1;
+    }
     
     optimizationStatus = solvedOptimal;
     for(int i = 0 ; i < m ; i++) {
diff --git a/src/Interfaces/Ipopt/BonIpoptSolver.cpp b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
index 235e6b3..e790a39 100644
--- a/src/Interfaces/Ipopt/BonIpoptSolver.cpp
+++ b/src/Interfaces/Ipopt/BonIpoptSolver.cpp
@@ -167,6 +167,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
 
     if (BonminAbortAll)
@@ -213,6 +215,8 @@ namespace Bonmin
         optimizationStatus_ = Ipopt::Solve_Succeeded;
       else if (ret_status == provenInfeasible)
         optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
+      else
+        optimizationStatus_ = Ipopt::Invalid_Number_Detected;
     }
     if (BonminAbortAll)
       optimizationStatus_ = Ipopt::Infeasible_Problem_Detected;
-- 
2.43.0


From 46a957978a9548645f78ffab42570589641d9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:32 +0000
Subject: [PATCH 54/58] fix: outer approximations and linear relaxations are
 built from failed evaluations

---
 src/Interfaces/BonOsiTMINLPInterface.cpp | 49 ++++++++++++++----------
 src/Interfaces/BonOsiTMINLPInterface.hpp |  2 +
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 066a29a..39c6ff1 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -1853,13 +1853,23 @@ int OsiTMINLPInterface::initializeJacobianArrays()
 }
 
 
+void
+OsiTMINLPInterface::checkEvaluation(bool ok)
+{
+  if(!ok) {
+    std::string probName;
+    getStrParam(OsiProbName, probName);
+    throw newUnsolvedError(Ipopt::Invalid_Number_Detected, problem_, probName);
+  }
+}
+
 double 
 OsiTMINLPInterface::getConstraintsViolation(const double *x, double &obj)
 {
   int numcols = getNumCols();
   int numrows = getNumRows();
-  double * g = new double[numrows];
-  tminlp_->eval_g(numcols, x, 1, numrows, g);
+  vector<double> g(numrows);
+  checkEvaluation(tminlp_->eval_g(numcols, x, 1, numrows, g()));
   const double * rowLower = getRowLower();
   const double * rowUpper = getRowUpper();
 
@@ -1877,8 +1887,7 @@ OsiTMINLPInterface::getConstraintsViolation(const double *x, double &obj)
       norm = rowViolation > norm ? rowViolation : norm;
     }
   }
-  tminlp_->eval_f(numcols, x, 1, obj);
-  delete [] g;
+  checkEvaluation(tminlp_->eval_f(numcols, x, 1, obj));
   return norm;
 }
 
@@ -1954,8 +1963,8 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
   assert(jRow_ != NULL);
   assert(jCol_ != NULL);
   vector<double> g(m);
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
-  problem_to_optimize_->eval_g(n,x,1,m,g());
+  checkEvaluation(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_));
+  checkEvaluation(problem_to_optimize_->eval_g(n,x,1,m,g()));
   //As jacobian is stored by cols fill OsiCuts with cuts
   vector<CoinPackedVector>  cuts(nNonLinear_ + 1);
   vector<double> lb(nNonLinear_ + 1);
@@ -2069,9 +2078,9 @@ OsiTMINLPInterface::getOuterApproximation(OsiCuts &cs, const double * x,
 
   if(getObj == 2 || (getObj && !problem_->hasLinearObjective())) { // Get the objective cuts
     vector<double> obj(n);
-    problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+    checkEvaluation(problem_to_optimize_->eval_grad_f(n, x, 1,obj()));
     double f;
-    problem_to_optimize_->eval_f(n, x, 1, f);
+    checkEvaluation(problem_to_optimize_->eval_f(n, x, 1, f));
 
     CoinPackedVector v;
     v.reserve(n);
@@ -2136,8 +2145,8 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
   assert(jCol_ != NULL);
   vector<double> g(m);
   const double * x = getColSolution();
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
-  problem_to_optimize_->eval_g(n,x,1,m,g());
+  checkEvaluation(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_));
+  checkEvaluation(problem_to_optimize_->eval_g(n,x,1,m,g()));
   //As jacobian is stored by cols fill OsiCuts with cuts
   vector<double> cut(n+1,0.);
   vector<bool> keep(m+1,false);
@@ -2189,9 +2198,9 @@ OsiTMINLPInterface::getBendersCut(OsiCuts &cs,
   if(!problem_->hasLinearObjective() && 
      isProvenOptimal()) { // Get the objective cuts
     vector<double> obj(n);
-    problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+    checkEvaluation(problem_to_optimize_->eval_grad_f(n, x, 1,obj()));
     double f;
-    problem_to_optimize_->eval_f(n, x, 1, f);
+    checkEvaluation(problem_to_optimize_->eval_f(n, x, 1, f));
 
     ub -= f;
     //double minCoeff = 1e50;
@@ -2229,8 +2238,8 @@ OsiTMINLPInterface::getConstraintOuterApproximation(OsiCuts &cs, int rowIdx,
   int * indices = new int[getNumCols()];
   double * values = new double[getNumCols()];
   int nnz;
-  problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values);
-  problem_->eval_gi(getNumCols(),x,1, rowIdx, g);
+  checkEvaluation(problem_->eval_grad_gi(getNumCols(), x, 1, rowIdx, nnz, indices, values));
+  checkEvaluation(problem_->eval_gi(getNumCols(),x,1, rowIdx, g));
   Index n, m, nnz_jac_g, nnz_h_lag;
   TNLP::IndexStyleEnum index_style;
   problem_->get_nlp_info(n, m, nnz_jac_g, nnz_h_lag, index_style);
@@ -2421,11 +2430,11 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
     initializeJacobianArrays();
 
   //get Jacobian
-  problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_);
+  checkEvaluation(problem_to_optimize_->eval_jac_g(n, x, 1, m, nnz_jac_g, NULL, NULL, jValues_));
 
 
   vector<double> g(m);
-  problem_to_optimize_->eval_g(n, x, 1, m, g());
+  checkEvaluation(problem_to_optimize_->eval_g(n, x, 1, m, g()));
 
   vector<double> rowLow(m);
   vector<double> rowUp(m);
@@ -2549,10 +2558,10 @@ OsiTMINLPInterface::extractLinearRelaxation(OsiSolverInterface &si,
      if(problem_->hasLinearObjective()){
        double zero;
        vector<double> x0(n,0.);
-       problem_to_optimize_->eval_f(n, x0(), 1, zero);
+       checkEvaluation(problem_to_optimize_->eval_f(n, x0(), 1, zero));
        si.setDblParam(OsiObjOffset, -zero);
        //Copy the linear objective and don't create a dummy variable.
-       problem_to_optimize_->eval_grad_f(n, x, 1,obj());
+       checkEvaluation(problem_to_optimize_->eval_grad_f(n, x, 1,obj()));
        si.setObjective(obj());
     }
     else {
@@ -2575,7 +2584,7 @@ OsiTMINLPInterface::addObjectiveFunction(OsiSolverInterface &si,
   int numcols = getNumCols();
   assert(numcols == si.getNumCols() );
   vector<double> obj(numcols);
-  problem_to_optimize_->eval_grad_f(numcols, x, 1,obj());
+  checkEvaluation(problem_to_optimize_->eval_grad_f(numcols, x, 1,obj()));
   //add variable alpha
   //(alpha should be empty in the matrix with a coefficient of -1 and unbounded)
   CoinPackedVector a;
@@ -2584,7 +2593,7 @@ OsiTMINLPInterface::addObjectiveFunction(OsiSolverInterface &si,
   // Now get the objective cuts
   // get the gradient, pack it and add the cut
   double ub;
-  problem_to_optimize_->eval_f(numcols, x, 1, ub);
+  checkEvaluation(problem_to_optimize_->eval_f(numcols, x, 1, ub));
   ub*=-1;
   double lb = -1e300;
   CoinPackedVector objCut;
diff --git a/src/Interfaces/BonOsiTMINLPInterface.hpp b/src/Interfaces/BonOsiTMINLPInterface.hpp
index eb81628..8921ec9 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.hpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.hpp
@@ -82,6 +82,8 @@ class SimpleError : public CoinError
   TNLPSolver::UnsolvedError * newUnsolvedError(int num, Ipopt::SmartPtr<TMINLP2TNLP> problem, std::string name){
     return app_->newUnsolvedError(num, problem, name);
   }
+  /** Throws an UnsolvedError if an evaluation of the user's functions failed.*/
+  void checkEvaluation(bool ok);
   //#############################################################################
 
   enum WarmStartModes{
-- 
2.43.0


From 9e88364c1a31989ffebd6896a40d9c9e4253a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:53 +0000
Subject: [PATCH 55/58] fix: after an interrupt stale NLP results are used,
 false claims are made, loops go on forever and later solves are stopped too

---
 src/Algorithms/OaGenerators/BonFpForMinlp.cpp |  5 +++
 .../OaGenerators/BonOACutGenerator2.cpp       |  7 +++
 .../OaGenerators/BonOaFeasChecker.cpp         |  7 +++
 src/CbcBonmin/BonCbc.cpp                      | 44 ++++++++++++++++---
 src/Interfaces/BonOsiTMINLPInterface.cpp      | 18 ++++++--
 src/Interfaces/BonTMINLP2TNLP.hpp             |  6 +++
 6 files changed, 77 insertions(+), 10 deletions(-)

diff --git a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
index f3aaaaf..661842e 100644
--- a/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
+++ b/src/Algorithms/OaGenerators/BonFpForMinlp.cpp
@@ -23,6 +23,9 @@
 
 #include <climits>
 
+//To stop on a user interruption
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "FP for MINLP";
@@ -127,6 +130,8 @@ namespace Bonmin
     double ub = cutoff;
     std::set< vector<double> > visited;
     while (colsol) {
+      if (BonminAbortAll)
+        break;
       numberPasses++;
 
       //setup the nlp
diff --git a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
index dcd230b..8a2f8f0 100644
--- a/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
+++ b/src/Algorithms/OaGenerators/BonOACutGenerator2.cpp
@@ -22,6 +22,9 @@
 
 #include <climits>
 
+//To stop on a user interruption
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "OA decomposition";
@@ -142,6 +145,10 @@ namespace Bonmin
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {//nothing is known of the NLP: nothing can be accepted, the search stops
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 9fb7425..17aaf49 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -13,6 +13,9 @@
 #include "OsiAuxInfo.hpp"
 #include "BonSolverHelp.hpp"
 
+//To stop on a user interruption
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
    static const char * txt_id = "check integer sol.";
@@ -62,6 +65,10 @@ namespace Bonmin
 
       //Now solve the NLP get the cuts, and intall them in the local LP
       nlp_->resolve(txt_id);
+      if (BonminAbortAll) {//nothing is known of the NLP: nothing can be accepted, the search stops
+        milpBound = 1e200;
+        break;
+      }
       if (post_nlp_solve(babInfo, cutoff)) {
         //nlp solved and feasible
         // Update the cutoff
diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index c95b960..76149a9 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -61,6 +61,32 @@ extern "C"
     return;
   }
 }
+
+namespace {
+  /** Catches interrupts while it exists.*/
+  class InterruptCatcher
+  {
+  public:
+    InterruptCatcher(CbcModel * model):
+        previousModel_(currentBranchModel),
+        previousHandler_(signal(SIGINT, signal_handler))
+    {
+      currentBranchModel = model;
+    }
+    ~InterruptCatcher()
+    {
+      signal(SIGINT, previousHandler_);
+      currentBranchModel = previousModel_;
+      if(currentBranchModel == NULL) {//not in a sub-search of an interrupted one
+        BonminAbortAll = false;
+        BonminInteruptedOnce = false;
+      }
+    }
+  private:
+    CbcModel * previousModel_;
+    CoinSighandler_t previousHandler_;
+  };
+}
 #endif
 
 namespace Bonmin
@@ -434,14 +460,9 @@ namespace Bonmin
     }
 
 #ifdef SIGNAL
-    //CoinSighandler_t saveSignal=SIG_DFL;
-    // register signal handler  FIXME restore original signal handler when finished
-    /*saveSignal =*/ signal(SIGINT,signal_handler);
+    InterruptCatcher catcher(&model_);
 #endif
 
-    currentBranchModel = &model_;
-
-
     try {
     //Get the time and start.
     {
@@ -456,6 +477,7 @@ namespace Bonmin
       }
     }
 
+    continuousRelaxation_ = -COIN_DBL_MAX;
     if(!BonminInteruptedOnce){
     int ival;
     s.options()->GetEnumValue("enable_dynamic_nlp", ival, "bonmin.");
@@ -491,7 +513,8 @@ namespace Bonmin
 
     }
 
-    continuousRelaxation_ =model_.solver()->getObjValue();
+    if(!BonminAbortAll)
+      continuousRelaxation_ =model_.solver()->getObjValue();
     if (specOpt==16)//Set warm start point for Ipopt
     {
 #if 1
@@ -689,8 +712,15 @@ namespace Bonmin
     }
     else if (model_.status()==2) {
       status = TMINLP::MINLP_ERROR;
+      mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
     }
   }
+  if(BonminAbortAll) {
+    //NLPs are not solved any more after an interrupt: nodes fathomed since then prove nothing
+    status = TMINLP::USER_INTERRUPT;
+    mipStatus_ = bestSolution_ ? Feasible : NoSolutionKnown;
+    bestBound_ = std::min(bestBound_, continuousRelaxation_);
+  }
   s.nonlinearSolver()->model()->finalize_solution(status,
      s.nonlinearSolver()->getNumCols(),
      bestSolution_,
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 39c6ff1..9b2019a 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2648,7 +2648,11 @@ void
 OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
     const char * whereFrom)
 {
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//what was known of an earlier NLP does not hold for this one
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   totalNlpSolveTime_-=CoinCpuTime();
   if(warmStarted)
     optimizationStatus_ = app_->ReOptimizeTNLP(GetRawPtr(problem_to_optimize_));
@@ -2821,7 +2825,11 @@ void OsiTMINLPInterface::initialSolve(const char * whereFrom)
   assert(IsValid(app_));
   assert(IsValid(problem_));
 
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//what was known of an earlier NLP does not hold for this one
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   // Discard warmstart_ if we had one
   delete warmstart_;
   warmstart_ = NULL;
@@ -2887,7 +2895,11 @@ OsiTMINLPInterface::resolve(const char * whereFrom)
 {
   assert(IsValid(app_));
   assert(IsValid(problem_));
-  if (BonminAbortAll == true) return;
+  if (BonminAbortAll == true) {//what was known of an earlier NLP does not hold for this one
+    optimizationStatus_ = TNLPSolver::provenInfeasible;
+    problem_->set_optimization_status(Ipopt::USER_REQUESTED_STOP);
+    return;
+  }
   int has_warmstart = warmstart_ == NULL ? 0 : 1;
   if(warmstart_ == NULL) has_warmstart = 0;
   else if(!app_->warmStartIsValid(warmstart_)) has_warmstart = 1;
diff --git a/src/Interfaces/BonTMINLP2TNLP.hpp b/src/Interfaces/BonTMINLP2TNLP.hpp
index 8151bd5..ed9a7a5 100644
--- a/src/Interfaces/BonTMINLP2TNLP.hpp
+++ b/src/Interfaces/BonTMINLP2TNLP.hpp
@@ -156,6 +156,12 @@ namespace Bonmin
       return return_status_;
     }
 
+    /** Set the solution status (when the problem is not solved).*/
+    void set_optimization_status(Ipopt::SolverReturn status)
+    {
+      return_status_ = status;
+    }
+
     /** Get the objective value */
     Ipopt::Number obj_value() const
     {
-- 
2.43.0


From 1ddda6a5bbdcce00bb8d12396472aa2917dfaaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:51 +0000
Subject: [PATCH 56/58] fix: an interrupt does not stop the NLP of a
 feasibility pump

---
 src/Interfaces/BonTNLP2FPNLP.cpp | 16 ++++++++++++++++
 src/Interfaces/BonTNLP2FPNLP.hpp | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/Interfaces/BonTNLP2FPNLP.cpp b/src/Interfaces/BonTNLP2FPNLP.cpp
index a6259d2..f79e064 100644
--- a/src/Interfaces/BonTNLP2FPNLP.cpp
+++ b/src/Interfaces/BonTNLP2FPNLP.cpp
@@ -12,6 +12,8 @@
 
 using namespace Ipopt;
 
+extern bool BonminAbortAll;
+
 namespace Bonmin
 {
   TNLP2FPNLP::TNLP2FPNLP(const SmartPtr<TNLP> tnlp, double objectiveScalingFactor):
@@ -437,6 +439,20 @@ namespace Bonmin
     return ret_code;
   }
 
+  bool
+  TNLP2FPNLP::intermediate_callback(AlgorithmMode mode,
+      Index iter, Number obj_value,
+      Number inf_pr, Number inf_du,
+      Number mu, Number d_norm,
+      Number regularization_size,
+      Number alpha_du, Number alpha_pr,
+      Index ls_trials,
+      const IpoptData* ip_data,
+      IpoptCalculatedQuantities* ip_cq)
+  {
+    return !BonminAbortAll;
+  }
+
   void
   TNLP2FPNLP::finalize_solution(SolverReturn status,
       Index n, const Number* x, const Number* z_L, const Number* z_U,
diff --git a/src/Interfaces/BonTNLP2FPNLP.hpp b/src/Interfaces/BonTNLP2FPNLP.hpp
index 991d989..42b0407 100644
--- a/src/Interfaces/BonTNLP2FPNLP.hpp
+++ b/src/Interfaces/BonTNLP2FPNLP.hpp
@@ -153,6 +153,17 @@ namespace Bonmin
         Ipopt::Number obj_value,
         const Ipopt::IpoptData* ip_data,
         Ipopt::IpoptCalculatedQuantities* ip_cq);
+
+    /** Called once per iteration, stops the optimization when the user interrupts Bonmin.*/
+    virtual bool intermediate_callback(Ipopt::AlgorithmMode mode,
+        Ipopt::Index iter, Ipopt::Number obj_value,
+        Ipopt::Number inf_pr, Ipopt::Number inf_du,
+        Ipopt::Number mu, Ipopt::Number d_norm,
+        Ipopt::Number regularization_size,
+        Ipopt::Number alpha_du, Ipopt::Number alpha_pr,
+        Ipopt::Index ls_trials,
+        const Ipopt::IpoptData* ip_data,
+        Ipopt::IpoptCalculatedQuantities* ip_cq);
     //@}
 
     virtual bool get_variables_linearity(Ipopt::Index n, LinearityType* var_types)
-- 
2.43.0


From b7783e612b4b6b51fee8b5434161f4b580aa3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:08 +0000
Subject: [PATCH 57/58] fix: an upper bounding objective corrupts the branching
 objects, is used when it fails, and is ignored without discrete variables

---
 src/CbcBonmin/BonCbc.cpp                 | 5 +++++
 src/Interfaces/BonOsiTMINLPInterface.cpp | 5 ++++-
 src/Interfaces/BonTMINLP2TNLP.cpp        | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/CbcBonmin/BonCbc.cpp b/src/CbcBonmin/BonCbc.cpp
index 76149a9..3dcafbb 100644
--- a/src/CbcBonmin/BonCbc.cpp
+++ b/src/CbcBonmin/BonCbc.cpp
@@ -655,6 +655,11 @@ namespace Bonmin
          CoinCopyN(solver->getColSolution(), solver->getNumCols(),
             bestSolution_);
          bestObj_ = bestBound_ = solver->getObjValue();
+         if(bonBabInfoPtr && bonBabInfoPtr->bestSolution2().size() > 0){//answer is valued by the upper bounding objective
+           std::copy(bonBabInfoPtr->bestSolution2().begin(), bonBabInfoPtr->bestSolution2().end(),
+               bestSolution_);
+           bestObj_ = bonBabInfoPtr->bestObj2();
+         }
           status = TMINLP::SUCCESS;
           mipStatus_ = FeasibleOptimal;
       }
diff --git a/src/Interfaces/BonOsiTMINLPInterface.cpp b/src/Interfaces/BonOsiTMINLPInterface.cpp
index 9b2019a..12a646f 100644
--- a/src/Interfaces/BonOsiTMINLPInterface.cpp
+++ b/src/Interfaces/BonOsiTMINLPInterface.cpp
@@ -2746,7 +2746,10 @@ OsiTMINLPInterface::solveAndCheckErrors(bool warmStarted, bool throwOnFailure,
       OsiObject ** object = objects();
       for(int i = 0 ; i< nObjects ; i++){
         int dummy;
-        if(object[i]->infeasibility(this,dummy) > intTol)
+        OsiObject * obj = object[i]->clone();//infeasibility changes the estimates of the object which may be in use
+        bool satisfied = obj->infeasibility(this,dummy) <= intTol;
+        delete obj;
+        if(!satisfied)
         {
           integerSol=false;
           break;
diff --git a/src/Interfaces/BonTMINLP2TNLP.cpp b/src/Interfaces/BonTMINLP2TNLP.cpp
index f462b1b..4e18832 100644
--- a/src/Interfaces/BonTMINLP2TNLP.cpp
+++ b/src/Interfaces/BonTMINLP2TNLP.cpp
@@ -672,7 +672,8 @@ namespace Bonmin
   double 
   TMINLP2TNLP::evaluateUpperBoundingFunction(const double * x){
     Number help;
-    tminlp_->eval_upper_bound_f(num_variables(), x, help);
+    if(!tminlp_->eval_upper_bound_f(num_variables(), x, help))
+      return COIN_DBL_MAX;
     return help;
   }
 
-- 
2.43.0


From 26c04af9c9d8ddb9bd229c6adf4a7bb2888b62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:02 +0000
Subject: [PATCH 58/58] fix: the feasibility checker never relaxes special
 ordered sets it fixed and solves the same NLP forever

---
 src/Algorithms/OaGenerators/BonOaFeasChecker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
index 17aaf49..dc7ef37 100644
--- a/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
+++ b/src/Algorithms/OaGenerators/BonOaFeasChecker.cpp
@@ -51,6 +51,12 @@ namespace Bonmin
     int numberPasses = 0;
     double * nlpSol =  NULL;
     int numberCutsBefore = cs.sizeRowCuts();
+    // Fixing a special ordered set only tightens bounds: each assignment starts from those of the node
+    const int numNlpCols = nlp_->getNumCols();
+    vector<double> nlpLower(numNlpCols);
+    vector<double> nlpUpper(numNlpCols);
+    std::copy(nlp_->getColLower(), nlp_->getColLower() + numNlpCols, nlpLower.begin());
+    std::copy(nlp_->getColUpper(), nlp_->getColUpper() + numNlpCols, nlpUpper.begin());
    
     while (isInteger && feasible ) {
       numberPasses++;
@@ -60,6 +66,8 @@ namespace Bonmin
       //Fix the variable which have to be fixed, after having saved the bounds
       double * colsol = const_cast<double *>(lp->getColSolution());
       branch_info.solution_ = colsol;
+      nlp_->setColLower(nlpLower());
+      nlp_->setColUpper(nlpUpper());
       fixIntegers(*nlp_,branch_info, parameters_.cbcIntegerTolerance_,objects_, nObjects_);
 
 
-- 
2.43.0

