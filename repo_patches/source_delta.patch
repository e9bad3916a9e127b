From 490615b02f6cbc498fd5f16fcafc8e25c240217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 01/83] fix: count the parts appended to a compound vector

addVector appended the part and its size but left n_parts_ at zero, so every
operation on such a vector was a no-op and owned parts leaked.
---
 src/LinAlg/hiopVectorCompoundPD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 9f7d31f..590eb7c 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -1014,6 +1014,7 @@ void hiopVectorCompoundPD::addVector(hiopVector *v)
 {
   vectors_.push_back(v);
   n_ += v->get_size();
+  n_parts_++;
 }
 
 hiopVector& hiopVectorCompoundPD::getVector(index_type index) const
-- 
2.43.0


From f05395a06760cb104cc0407dbb7a69af4cc21bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 02/83] fix: compound vector's log-barrier gradient divides by
 the given vector, not by the pattern

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 590eb7c..550b98d 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -740,7 +740,7 @@ double hiopVectorCompoundPD::sum_local() const
 void hiopVectorCompoundPD::addLogBarrierGrad(double alpha, const hiopVector& vx, const hiopVector& select)
 {
   const hiopVectorCompoundPD& ix = dynamic_cast<const hiopVectorCompoundPD&>(select);
-  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(select);
+  const hiopVectorCompoundPD& x = dynamic_cast<const hiopVectorCompoundPD&>(vx);
   assert(this->get_num_parts() == ix.get_num_parts());  
   for(index_type i = 0; i < n_parts_; i++) {
     vectors_[i]->addLogBarrierGrad(alpha, x.getVector(i), ix.getVector(i));
-- 
2.43.0


From d44b3a9f732b0bd895e20f96e1036df0636518d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 03/83] fix: compound vector reports inconsistent bounds found
 in one of its parts

---
 src/LinAlg/hiopVectorCompoundPD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopVectorCompoundPD.cpp b/src/LinAlg/hiopVectorCompoundPD.cpp
index 550b98d..8dc48f2 100644
--- a/src/LinAlg/hiopVectorCompoundPD.cpp
+++ b/src/LinAlg/hiopVectorCompoundPD.cpp
@@ -807,7 +807,9 @@ bool hiopVectorCompoundPD::projectIntoBounds_local(const hiopVector& xl_,
   assert(this->get_num_parts() == ixu.get_num_parts());
 
   for(index_type i = 0; i < n_parts_; i++) {
-    vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2);
+    if(!vectors_[i]->projectIntoBounds_local(xl.getVector(i),ixl.getVector(i),xu.getVector(i),ixu.getVector(i),kappa1,kappa2)) {
+      return false;
+    }
   }
   return true;
 }
-- 
2.43.0


From be4e3a4ce2256f9681c2d1989e5b1b312a65e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 04/83] fix: steps respect the absolute moving limit,
 second-order corrections included

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 973c6d4..7f61290 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2831,7 +2831,7 @@ bool hiopAlgFilterIPMBase::ensure_moving_lims(const hiopIterate& it, const hiopI
     auto x_nrm = dir.get_x()->infnorm();
     auto step_nrm = alpha_pr*x_nrm;
     if(step_nrm>moving_lim_abs) {
-      alpha_pr = moving_lim_abs / step_nrm;
+      alpha_pr = moving_lim_abs / x_nrm;
       nlp->log->printf(hovLinesearch,
                        "Moving lim (absolute, [%7.3e]): step reduced: %7.3e -> %7.3e.\n",
                        moving_lim_abs,
@@ -3006,6 +3006,8 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
     // Compute step size
     bret = it_curr->fractionToTheBdry(*soc_dir, _tau, alpha_primal_soc, alpha_dual_soc); 
     assert(bret);
+    // the corrected step is subject to the moving limits, too
+    ensure_moving_lims(*it_curr, *soc_dir, alpha_primal_soc);
     
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soc_dir, alpha_primal_soc, alpha_dual_soc); 
-- 
2.43.0


From f1237a1404016e3858cf73674bced9f01cd80935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 05/83] fix: iterate callback reports the one-norm
 infeasibility of the current iterate

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 7f61290..797edea 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1127,6 +1127,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       _err_nlp_optim0=_err_nlp_optim; _err_nlp_feas0=_err_nlp_feas; _err_nlp_complem0=_err_nlp_complem;
     }
 
+    onenorm_pr_curr_ = resid->get_theta(); //at it_curr
+
     //user callback
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
@@ -2253,6 +2255,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
       _err_nlp_optim0=_err_nlp_optim; _err_nlp_feas0=_err_nlp_feas; _err_nlp_complem0=_err_nlp_complem;
     }
 
+    onenorm_pr_curr_ = resid->get_theta(); //at it_curr
+
     //user callback
     if(!nlp->user_callback_iterate(iter_num_,
                                    _f_nlp,
-- 
2.43.0


From 8e859fe791d4f9b7559410979b4ccf3b37974751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 06/83] fix: dual step length and filter entry of an accepted
 second-order correction

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 797edea..f7dfdbc 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1353,6 +1353,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                                                  num_adjusted_slacks_soc);
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
+          //the trial point is now the corrected one
+          infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
           use_soc = 1;
@@ -2574,6 +2576,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                                                    num_adjusted_slacks_soc);
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
+            //the trial point is now the corrected one
+            infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
             use_soc = 1;
@@ -3033,6 +3037,7 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
 
     if(ls_status>0) {
       _alpha_primal = alpha_primal_soc;
+      _alpha_dual = alpha_dual_soc;
       dir->copyFrom(*soc_dir);
       resid->copyFrom(*resid_trial);
       break;
-- 
2.43.0


From 666bdbef94d05fb249500eac754af39d0467892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 07/83] fix: running a solver object again leaks the
 regularisation object

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index f7dfdbc..33f6f3e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1051,6 +1051,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   assert(kkt != nullptr);
 
   // assign an Null pd_perturb, i.e., all the deltas = 0.0
+  delete pd_perturb_;
   pd_perturb_ = new hiopPDPerturbationNull();
   if(!pd_perturb_->initialize(nlp)) {
     delete kkt;
@@ -2165,6 +2166,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   hiopKKTLinSys* kkt = decideAndCreateLinearSystem(nlp);
   assert(kkt != NULL);
   
+  delete pd_perturb_;
   if(nlp->options->GetString("normaleqn_regularization_priority")=="dual_first" && nlp->options->GetString("KKTLinsys")=="normaleqn") {
     if(nlp->options->GetString("regularization_method")=="randomized") {
       pd_perturb_ = new hiopPDPerturbationDualFirstRand();
-- 
2.43.0


From c4181e9f863f6fbe2c0fece0a92f99881d0dd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 08/83] fix: option accept_every_trial_step takes the step
 instead of entering feasibility restoration

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 33f6f3e..9098e38 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1423,6 +1423,9 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
     } else if(lsStatus==3) {
       //Armijo (and switching condition) hold, nothing to do.
       nlp->runStats.tmSolverInternal.stop();
+    } else if(disableLS) {
+      //option 'accept_every_trial_step': the step is taken
+      nlp->runStats.tmSolverInternal.stop();
     } else if(lsStatus==0) {
       //small step
       if(linsol_safe_mode_on) {
@@ -2657,6 +2660,12 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.stop();
         break; //from the linear solve (compute_search_direction) loop
 
+      } else if(disableLS) {
+        //option 'accept_every_trial_step': the step is taken
+
+        nlp->runStats.tmSolverInternal.stop();
+        break; //from the linear solve (compute_search_direction) loop
+
       } else if(lsStatus==0) {
 
         //
-- 
2.43.0


From 9550a1666441ab63301ebd80c10017d9d4f1277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 09/83] fix: feasibility restoration hands over values and
 derivatives of the restored point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 56 ++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9098e38..9be658e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1436,10 +1436,6 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
         }
-
-        // exit the linear solve (compute_search_direction) loop
-        nlp->runStats.tmSolverInternal.stop();
-        break;
       } 
       nlp->runStats.tmSolverInternal.stop();
     } else {
@@ -3071,6 +3067,9 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       // variables have already been updated inside the above function
       return true;
     }
+    if(solver_status_ == Error_In_User_Function) {
+      return false;
+    }
   
     // continue robust FR
     hiopNlpFormulation* nlpFR{nullptr};
@@ -3089,7 +3088,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         }
       } else {
         // this is Sparse linear system
@@ -3101,7 +3100,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
           it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
           it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-          reset_var_from_fr_sol(kkt, reset_dual = true);
+          fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
         } 
       }
     } else {
@@ -3114,7 +3113,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
         it_trial->get_x()->copyFrom(nlp_fr_interface.get_fr_sol_x());
         it_trial->get_d()->copyFrom(nlp_fr_interface.get_fr_sol_d());
-        reset_var_from_fr_sol(kkt, reset_dual = true);
+        fr_solved = reset_var_from_fr_sol(kkt, reset_dual = true);
       }
     }
     delete nlpFR;
@@ -3138,7 +3137,7 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       fr_solved = false;
     } else {
       nlp->log->printf(hovSummary, "FR problem converged! Now apply LSQ to reset duals.\n");
-      reset_var_from_fr_sol(kkt, reset_dual = false);
+      fr_solved = reset_var_from_fr_sol(kkt, reset_dual = false);
     }
   }
 
@@ -3181,6 +3180,9 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
     solver_status_ = Infeasible_Problem;
     return false;
+  } else if(FR_status == Error_In_User_Function) {
+    solver_status_ = Error_In_User_Function;
+    return false;
   } else {
     solver_status_ = Error_In_FR;
     return false;
@@ -3190,9 +3192,10 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
 bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_dual)
 {
   // FR succeeds, it_trial->x and it_trial->d have been updated. Now we update other values for the next iter
-  if(!this->evalNlp_noHess(*it_trial, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+  // the function values go in the trial quantities, which become the current ones at the end of the iteration
+  if(!this->evalNlp_noHess(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f, *_Jac_c, *_Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
+    solver_status_ = Error_In_User_Function;
     return false;
   } else {
     nlp->log->printf(hovScalars, "FR: Update slacks and duals from the modified primals.\n");
@@ -3250,7 +3253,13 @@ bool hiopAlgFilterIPMBase::reset_var_from_fr_sol(hiopKKTLinSys* kkt, bool reset_
   // set step size to 1
   _alpha_primal = 1.0;
   _alpha_dual = 1.0;
-  
+
+  // we have the duals
+  if(!this->evalNlp_HessOnly(*it_trial, *_Hess_Lagr)) {
+    solver_status_ = Error_In_User_Function;
+    return false;
+  }
+
   return true;
 }
 
@@ -3284,6 +3293,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
   double infeas_nrm_soft=0;     // to avoid uninitialized use below
 
   bool bret = false;
+  bool trial_in_filter = true;
 
   while(num_soft_fr < max_soft_fr_iter) {
     // solve for search directions
@@ -3297,11 +3307,14 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       //evaluate the problem at the trial iterate (functions only)
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
-        return true;
+        return false;
       }
       // compute rhs for soft feasibility restoration. Use resid_trial since it hasn't been used
       resid_trial->update(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial, *_grad_f,*_Jac_c,*_Jac_d, *logbar);      
       bret = kkt->compute_directions_w_IR(resid_trial, soft_dir); 
+      if(!bret) {
+        break;
+      }
     }    
     assert(bret);
 
@@ -3319,7 +3332,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
       solver_status_ = Error_In_User_Function;
-      return true;
+      return false;
     }
 
     //update and adjust the duals
@@ -3342,7 +3355,8 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
         
     //check filter condition
     double theta_trial = resid_trial->get_nrmOne_bar_feasib();
-    if(filter.contains(theta_trial,logbar->f_logbar_trial)) {
+    trial_in_filter = filter.contains(theta_trial,logbar->f_logbar_trial);
+    if(trial_in_filter) {
       //it is in the filter, reject this trial point and continue the iterates
       num_soft_fr++;
     } else {
@@ -3351,7 +3365,19 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
       break;
     }
   }
-  return bret;
+
+  if(bret && !trial_in_filter) {
+    _alpha_primal = alpha_primal_soft;
+    _alpha_dual = alpha_dual_soft;
+
+    // the derivatives are needed at the new point
+    if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
+      solver_status_ = Error_In_User_Function;
+      return false;
+    }
+    return true;
+  }
+  return false;
 }
 
 bool hiopAlgFilterIPMBase::compute_search_direction(hiopKKTLinSys* kkt,
-- 
2.43.0


From b0ceff00b40a0743f64c2128c29d3140fe28afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 10/83] fix: a failing user function ends the solve with
 Error_In_User_Function wherever it is called

---
 src/Optimization/hiopAlgFilterIPM.cpp | 45 +++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 9be658e..826037c 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -344,7 +344,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -363,7 +362,6 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
   // do function evaluation again after we adjust the primals and/or add scaling
   if(!this->evalNlp_noHess(it_ini, f, c, d, gradf, Jac_c, Jac_d)) {
     nlp->log->printf(hovError, "Failure in evaluating user provided NLP functions.");
-    assert(false);
     return false;
   }
 
@@ -425,7 +423,8 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
 
   //we have the duals
   if(!this->evalNlp_HessOnly(it_ini, *_Hess_Lagr)) {
-    assert(false);
+    nlp->runStats.tmStartingPoint.stop();
+    nlp->runStats.tmSolverInternal.stop();
     return false;
   }
 
@@ -912,6 +911,13 @@ void hiopAlgFilterIPMBase::displayTerminationMsg()
                        strStatsReport.c_str());
       break;
   }
+  case Error_In_User_Function:
+  {
+      nlp->log->printf(hovSummary,
+                       "Stopped because of an error in the user provided functions.\n%s\n",
+                       strStatsReport.c_str());
+      break;
+  }
   default:
     {
       nlp->log->printf(hovSummary,
@@ -1000,7 +1006,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //
   if(nlp->options->GetString("checkpoint_load_on_start") != "yes" && !load_state_api_called_) {
     //this also evaluates the nlp
-    startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+    if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+      nlp->runStats.tmOptimizTotal.stop();
+      return solver_status_ = Error_In_User_Function;
+    }
     _mu=mu0;
     iter_num_total_ = 0;
   } else {
@@ -1015,7 +1024,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         nlp->log->printf(hovWarning, "Using default starting procedure (no checkpoint load!).\n");
         iter_num_total_ = 0;
         //fall back on the default starting procedure (it also evaluates the nlp)
-        startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); 
+        if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+          nlp->runStats.tmOptimizTotal.stop();
+          return solver_status_ = Error_In_User_Function;
+        }
         _mu=mu0;
         iter_num_total_ = 0;
       }
@@ -1305,6 +1317,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
         solver_status_ = Error_In_User_Function;
         nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
         return Error_In_User_Function;
       }
 
@@ -1364,6 +1377,14 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         }
       }
 
+      if(solver_status_ == Error_In_User_Function) {
+        //the user's functions failed during the second-order correction
+        nlp->runStats.tmSolverInternal.stop();
+        nlp->runStats.tmOptimizTotal.stop();
+        delete kkt;
+        return solver_status_;
+      }
+
       assert(lsStatus == 0);
       _alpha_primal *= 0.5;
 
@@ -2143,7 +2164,11 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
 
   nlp->runStats.tmOptimizTotal.start();
 
-  startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d); //this also evaluates the nlp
+  //this also evaluates the nlp
+  if(!startingProcedure(*it_curr, _f_nlp, *_c, *_d, *_grad_f, *_Jac_c, *_Jac_d)) {
+    nlp->runStats.tmOptimizTotal.stop();
+    return solver_status_ = Error_In_User_Function;
+  }
   _mu=mu0;
 
   //update log bar
@@ -2587,6 +2612,14 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           }
         }
 
+        if(solver_status_ == Error_In_User_Function) {
+          //the user's functions failed during the second-order correction
+          nlp->runStats.tmSolverInternal.stop();
+          nlp->runStats.tmOptimizTotal.stop();
+          delete kkt;
+          return solver_status_;
+        }
+
         assert(lsStatus == 0);
         _alpha_primal *= 0.5;
 
-- 
2.43.0


From c07c0baf8102bd1c6bd8aa753caf31801790f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 11/83] fix: multipliers and constraint values are handed to
 the user unscaled, leaving the iterate as it is

---
 src/Optimization/hiopNlpFormulation.cpp | 178 ++++++++++++------------
 src/Optimization/hiopNlpFormulation.hpp |   9 +-
 2 files changed, 99 insertions(+), 88 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 5204681..0882ad4 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -136,7 +136,8 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
   cons_lambdas_ = nullptr;
   temp_eq_ = nullptr;
   temp_ineq_ = nullptr;
-  temp_x_ = nullptr;
+  temp_zl_ = nullptr;
+  temp_zu_ = nullptr;
   nlp_scaling_ = nullptr;
   relax_bounds_ = nullptr;
 }
@@ -178,7 +179,8 @@ hiopNlpFormulation::~hiopNlpFormulation()
   delete cons_lambdas_;
   delete temp_eq_;
   delete temp_ineq_;
-  delete temp_x_;  
+  delete temp_zl_;
+  delete temp_zu_;
   /// nlp_scaling_ and relax_bounds_ are deleted inside nlp_transformations_
 }
 
@@ -424,8 +426,11 @@ bool hiopNlpFormulation::finalizeInitialization()
   delete temp_ineq_;
   temp_ineq_ = nullptr;
 
-  delete temp_x_;
-  temp_x_ = nullptr;
+  delete temp_zl_;
+  temp_zl_ = nullptr;
+
+  delete temp_zu_;
+  temp_zu_ = nullptr;
 
   return bret;
 }
@@ -1032,48 +1037,72 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
   return true;
 }
 
-void hiopNlpFormulation::
-get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
+void hiopNlpFormulation::unscale_duals(const hiopVector& z_L,
+                                       const hiopVector& z_U,
+                                       const hiopVector& y_c,
+                                       const hiopVector& y_d)
 {
-  if(nullptr==nlp_scaling_) {
-    const hiopVector& zl = *it.get_zl();
-    const hiopVector& zu = *it.get_zu();
-    zl.copyTo(zl_a);
-    zu.copyTo(zu_a);
-    
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    cons_lambdas_->copy_from_two_vec_w_pattern(*it.get_yc(), *cons_eq_mapping_, *it.get_yd(), *cons_ineq_mapping_);
-    cons_lambdas_->copyTo(lambda_a);  
-  } else {
-    const double obj_scale_ext_to_hiop = this->get_obj_scale();
-    if(temp_x_ == nullptr) {
-      temp_x_ = this->alloc_primal_vec();
-    }
-    temp_x_->copyFrom(*it.get_zl());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zl_a);
-    temp_x_->copyFrom(*it.get_zu());
-    temp_x_->scale(obj_scale_ext_to_hiop);
-    temp_x_->copyTo(zu_a);
-
-    if(temp_eq_ == nullptr) {
-      temp_eq_ = this->alloc_dual_eq_vec();
-    }
-    if(temp_ineq_ == nullptr) {
-      temp_ineq_ = this->alloc_dual_ineq_vec();
-    }
-    if(cons_lambdas_ == nullptr) {
-      cons_lambdas_ = this->alloc_dual_vec();
-    }
-    temp_eq_   = nlp_transformations_.apply_to_cons_eq(*temp_eq_, n_cons_eq_);
-    temp_ineq_ = nlp_transformations_.apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
-    cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
-    cons_lambdas_->scale(obj_scale_ext_to_hiop);
-    cons_lambdas_->copyTo(lambda_a);
+  if(temp_zl_ == nullptr) {
+    temp_zl_ = this->alloc_primal_vec();
+  }
+  if(temp_zu_ == nullptr) {
+    temp_zu_ = this->alloc_primal_vec();
   }
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  if(cons_lambdas_ == nullptr) {
+    cons_lambdas_ = this->alloc_dual_vec();
+  }
+  temp_zl_->copyFrom(z_L);
+  temp_zu_->copyFrom(z_U);
+  temp_eq_->copyFrom(y_c);
+  temp_ineq_->copyFrom(y_d);
 
+  if(nlp_scaling_) {
+    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
+    const double obj_scale = this->get_obj_scale();
+    nlp_scaling_->apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+    nlp_scaling_->apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+    temp_eq_->scale(1./obj_scale);
+    temp_ineq_->scale(1./obj_scale);
+    temp_zl_->scale(1./obj_scale);
+    temp_zu_->scale(1./obj_scale);
+  }
+  cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+}
+
+void hiopNlpFormulation::unscale_cons(const hiopVector& c, const hiopVector& d)
+{
+  if(temp_eq_ == nullptr) {
+    temp_eq_ = this->alloc_dual_eq_vec();
+  }
+  if(temp_ineq_ == nullptr) {
+    temp_ineq_ = this->alloc_dual_ineq_vec();
+  }
+  if(cons_body_ == nullptr) {
+    cons_body_ = this->alloc_dual_vec();
+  }
+  temp_eq_->copyFrom(c);
+  temp_ineq_->copyFrom(d);
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_inv_to_cons_eq(*temp_eq_, n_cons_eq_);
+    nlp_scaling_->apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+  }
+  //concatenate 'c' and 'd' into user's constraint body
+  cons_body_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
+}
+
+void hiopNlpFormulation::
+get_dual_solutions(const hiopIterate& it, double* zl_a, double* zu_a, double* lambda_a)
+{
+  unscale_duals(*it.get_zl(), *it.get_zu(), *it.get_yc(), *it.get_yd());
+  temp_zl_->copyTo(zl_a);
+  temp_zu_->copyTo(zu_a);
+  cons_lambdas_->copyTo(lambda_a);
 }
 
 void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
@@ -1091,32 +1120,10 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   assert(y_d.get_size() == n_cons_ineq_);
 
   const double obj_scale_ext_to_hiop = this->get_obj_scale();
-  if(cons_lambdas_ == nullptr) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values. 
-    // it's safe to modify these values since this function is called in the end
-    // y_unscaled = y_scale*y_scaled/obj_scale, z_unscaled = z_scaled/obj_scale
-    y_c = *(nlp_transformations_.apply_to_cons_eq(y_c, n_cons_eq_));
-    y_d = *(nlp_transformations_.apply_to_cons_ineq(y_d, n_cons_ineq_));
-    y_c.scale(obj_scale_ext_to_hiop);
-    y_d.scale(obj_scale_ext_to_hiop);
-    z_L.scale(obj_scale_ext_to_hiop);
-    z_U.scale(obj_scale_ext_to_hiop);
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
 
-  //concatenate 'c' and 'd' into user's constraint body
-  if(cons_body_ == nullptr) {
-    cons_body_ = cons_lambdas_->alloc_clone();
-  }
-  if(nlp_scaling_) {
-    // return unscaled values 
-    c = *(nlp_transformations_.apply_inv_to_cons_eq(c, n_cons_eq_));
-    d = *(nlp_transformations_.apply_inv_to_cons_ineq(d, n_cons_ineq_));
-  }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
+  // return unscaled values
+  unscale_duals(z_L, z_U, y_c, y_d);
+  unscale_cons(c, d);
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1134,8 +1141,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     hiopVectorPar cons_lambdas_host(n_cons_);
 
     x.copy_to_vectorpar(x_host);
-    z_L.copy_to_vectorpar(zl_host);
-    z_U.copy_to_vectorpar(zu_host);
+    temp_zl_->copy_to_vectorpar(zl_host);
+    temp_zu_->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
@@ -1152,8 +1159,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
     interface_base.solution_callback(status,
                                     (int)n_vars_,
                                     x.local_data_const(),
-                                    z_L.local_data_const(),
-                                    z_U.local_data_const(),
+                                    temp_zl_->local_data_const(),
+                                    temp_zu_->local_data_const(),
                                     (int)n_cons_,
                                     cons_body_->local_data_const(),
                                     cons_lambdas_->local_data_const(),
@@ -1187,16 +1194,13 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
   assert(y_c.get_size() == n_cons_eq_);
   assert(y_d.get_size() == n_cons_ineq_);
 
-  if(cons_lambdas_ == NULL) {
-    cons_lambdas_ = this->alloc_dual_vec();
-  }
-  cons_lambdas_->copy_from_two_vec_w_pattern(y_c, *cons_eq_mapping_, y_d, *cons_ineq_mapping_);
-
-  //concatenate 'c' and 'd' into user's constrainty body
-  if(cons_body_ == NULL) {
-    cons_body_ = cons_lambdas_->alloc_clone();
+  // return unscaled values
+  unscale_duals(z_L, z_U, y_c, y_d);
+  unscale_cons(c, d);
+  temp_ineq_->copyFrom(s);
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
   }
-  cons_body_->copy_from_two_vec_w_pattern(c, *cons_eq_mapping_, d, *cons_ineq_mapping_);
 
   //! todo -> test this when fixed variables are removed -> the internal
   //! zl and zu may have different sizes than what user expects since HiOp removes
@@ -1214,13 +1218,13 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     x.copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
-    s.copy_to_vectorpar(s_host);
+    temp_ineq_->copy_to_vectorpar(s_host);
     
     hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    z_L.copy_to_vectorpar(zl_host);
+    temp_zl_->copy_to_vectorpar(zl_host);
     
     hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
-    z_U.copy_to_vectorpar(zu_host);
+    temp_zu_->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     cons_body_->copy_to_vectorpar(cons_body_host);
@@ -1253,10 +1257,10 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
                                            logbar_obj_value,
                                            (int)n_vars_,
                                            x.local_data_const(),
-                                           z_L.local_data_const(),
-                                           z_U.local_data_const(),
+                                           temp_zl_->local_data_const(),
+                                           temp_zu_->local_data_const(),
                                            (int)n_cons_ineq_,
-                                           s.local_data_const(),
+                                           temp_ineq_->local_data_const(),
                                            (int)n_cons_,
                                            cons_body_->local_data_const(),
                                            cons_lambdas_->local_data_const(),
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index ed522f4..a5f19c4 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -313,6 +313,12 @@ protected:
                               size_type& nfixed_vars);
   /* Preprocess constraints in a form supported the NLP formulation. */
   virtual bool process_constraints();
+
+  /// Puts the multipliers in the user's units into @temp_zl_, @temp_zu_, and @cons_lambdas_.
+  void unscale_duals(const hiopVector& z_L, const hiopVector& z_U, const hiopVector& y_c, const hiopVector& y_d);
+
+  /// Puts the values of the constraints in the user's units and order into @cons_body_.
+  void unscale_cons(const hiopVector& c, const hiopVector& d);
 protected:
 #ifdef HIOP_USE_MPI
   MPI_Comm comm_;
@@ -411,7 +417,8 @@ protected:
    */
   hiopVector* temp_eq_;
   hiopVector* temp_ineq_;
-  hiopVector* temp_x_;
+  hiopVector* temp_zl_;
+  hiopVector* temp_zu_;
 
 private:
   hiopNlpFormulation(const hiopNlpFormulation& s)
-- 
2.43.0


From 46d3ad9ba5fe5811e28bd51a51d2d4cf1509020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 12/83] fix: the one-call Jacobian of dense problems is scaled
 consistently and has room for internally removed variables

---
 src/Optimization/hiopNlpFormulation.cpp | 48 +++++++++++++------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 0882ad4..d424920 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1507,38 +1507,28 @@ bool hiopNlpDenseConstraints::eval_Jac_c_d_interface_impl(hiopVector& x, bool ne
   }
 
   hiopVector* x_user = nlp_transformations_.apply_inv_to_x(x, new_x);
-  double* Jac_consde = cons_Jac_de->local_data();
-  hiopMatrix* Jac_user = nlp_transformations_.apply_inv_to_jacob_cons(*cons_Jac_, n_cons_);
 
-  hiopMatrixDense* cons_Jac_user_de = dynamic_cast<hiopMatrixDense*>(Jac_user);
-  if(cons_Jac_user_de == NULL) {
-    log->printf(hovError, "[internal error] hiopNlpDenseConstraints NLP received an unexpected matrix\n");
-    return false;
-  }
-    
   runStats.tmEvalJac_con.start();
+  //cons_Jac_ is in the user's space (includes the columns of the variables removed internally)
   bool bret = interface.eval_Jac_cons(nlp_transformations_.n_pre(), n_cons_,
                                       x_user->local_data_const(), new_x,
-                                      cons_Jac_user_de->local_data());
-  
-  cons_Jac_ = nlp_transformations_.apply_to_jacob_cons(*Jac_user, n_cons_);
-  
-  hiopMatrixDense* Jac_cde = dynamic_cast<hiopMatrixDense*>(&Jac_c);
-  hiopMatrixDense* Jac_dde = dynamic_cast<hiopMatrixDense*>(&Jac_d);
-  if(Jac_cde==NULL || Jac_dde==NULL) {
+                                      cons_Jac_de->local_data());
+
+  hiopMatrixDense* Jac_c_user = dynamic_cast<hiopMatrixDense*>
+    (nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
+  hiopMatrixDense* Jac_d_user = dynamic_cast<hiopMatrixDense*>
+    (nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  if(Jac_c_user==NULL || Jac_d_user==NULL) {
     log->printf(hovError, "[internal error] hiopNlpDenseConstraints NLP works only with dense matrices\n");
     return false;
   } 
- 
-  assert(cons_Jac_de->local_data() == Jac_consde &&
-         "mismatch between Jacobian mem adress pre- and post-transformations should not happen");
 
-  Jac_cde->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
-  Jac_dde->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
+  Jac_c_user->copyRowsFrom(*cons_Jac_, cons_eq_mapping_->local_data_const(), n_cons_eq_);
+  Jac_d_user->copyRowsFrom(*cons_Jac_, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
   
   // scale Jacobian matrices
-  Jac_c = *(nlp_transformations_.apply_inv_to_jacob_eq(Jac_c, n_cons_eq_));
-  Jac_d = *(nlp_transformations_.apply_inv_to_jacob_ineq(Jac_d, n_cons_ineq_));
+  Jac_c = *(nlp_transformations_.apply_to_jacob_eq(*Jac_c_user, n_cons_eq_));
+  Jac_d = *(nlp_transformations_.apply_to_jacob_ineq(*Jac_d_user, n_cons_ineq_));
 
   runStats.tmEvalJac_con.stop();
   runStats.nEvalJac_con_eq++;
@@ -1635,7 +1625,19 @@ hiopMatrixDense* hiopNlpDenseConstraints::alloc_Jac_d()
 
 hiopMatrixDense* hiopNlpDenseConstraints::alloc_Jac_cons()
 {
-  return alloc_multivector_primal(n_cons_);
+  const size_type n_user = nlp_transformations_.n_pre();
+  if(n_user == n_vars_) {
+    return alloc_multivector_primal(n_cons_);
+  }
+  //variables were removed internally, the user evaluates the Jacobian in the full space
+#ifdef HIOP_USE_MPI
+  if(vec_distrib_) {
+    std::vector<index_type> vec_distrib_user(num_ranks_+1);
+    interface_base.get_vecdistrib_info(n_user, vec_distrib_user.data());
+    return LinearAlgebraFactory::create_matrix_dense("DEFAULT", n_cons_, n_user, vec_distrib_user.data(), comm_);
+  }
+#endif
+  return LinearAlgebraFactory::create_matrix_dense("DEFAULT", n_cons_, n_user);
 }
 
 hiopMatrix* hiopNlpDenseConstraints::alloc_Hess_Lagr()
-- 
2.43.0


From 8e3b7235fda1bc4cb4acbb3b14585a7f78f17006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 13/83] fix: removing fixed variables: starting point,
 callbacks and serial runs use the user's full-size arrays

---
 src/Optimization/hiopNlpFormulation.cpp | 103 ++++++++++++++++--------
 src/Optimization/hiopNlpFormulation.hpp |   2 +-
 src/Optimization/hiopNlpTransforms.hpp  |  19 +++++
 3 files changed, 89 insertions(+), 35 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index d424920..c57fa9a 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -268,7 +268,8 @@ bool hiopNlpFormulation::finalizeInitialization()
 #endif
   hiopFixedVarsRemover* fixedVarsRemover = NULL;
   if(nfixed_vars>0) {
-    log->printf(hovWarning, "Detected %lld fixed variables out of a total of %lld.\n", nfixed_vars, n_vars_);
+    log->printf(hovWarning, "Detected %lld fixed variables out of a total of %lld.\n",
+                (long long) nfixed_vars, (long long) n_vars_);
 
     if(options->GetString("fixed_var")=="remove") {
       //
@@ -285,7 +286,9 @@ bool hiopNlpFormulation::finalizeInitialization()
       
 
 #ifdef HIOP_USE_MPI
-      fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      if(vec_distrib_ != nullptr) {
+        fixedVarsRemover->setFSVectorDistrib(vec_distrib_,num_ranks_);
+      }
       fixedVarsRemover->setMPIComm(comm_);
 #endif
       bret = fixedVarsRemover->setupDecisionVectorPart(); 
@@ -293,9 +296,11 @@ bool hiopNlpFormulation::finalizeInitialization()
     
       n_vars_ = fixedVarsRemover->rs_n();
 #ifdef HIOP_USE_MPI
-      index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
-      delete[] vec_distrib_;
-      vec_distrib_ = vec_distrib_rs;
+      if(vec_distrib_ != nullptr) {
+        index_type* vec_distrib_rs = fixedVarsRemover->allocRSVectorDistrib();
+        delete[] vec_distrib_;
+        vec_distrib_ = vec_distrib_rs;
+      }
 #endif
     
       hiopVector* xl_rs;
@@ -505,7 +510,7 @@ bool hiopNlpFormulation::process_bounds(size_type& n_bnds_low,
             log->printf(hovWarning, 
                         "Lower (%g) and upper bound (%g) for variable %d are very close. "
                         "Consider fixing this variable or increase 'fixed_var_tolerance'.\n",
-                        i, xl_vec[i], xu_vec[i]);
+                        xl_vec[i], xu_vec[i], i);
             nBndsClose++;
           }
         } 
@@ -793,8 +798,12 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
 
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the bound duals the user provides cover the variables that are removed internally
+  const bool vars_removed = nlp_transformations_.n_pre() != n_vars_;
+  hiopVector* zL0_user = vars_removed ? x0_for_user->alloc_clone() : &zL0_for_hiop;
+  hiopVector* zU0_user = vars_removed ? x0_for_user->alloc_clone() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   
@@ -823,6 +832,12 @@ bool hiopNlpFormulation::get_starting_point(hiopVector& x0_for_hiop,
   if(bret) {
     nlp_transformations_.apply_to_x(*x0_for_user, x0_for_hiop);
   }
+  if(vars_removed) {
+    nlp_transformations_.apply_to_x(*zL0_user, zL0_for_hiop);
+    nlp_transformations_.apply_to_x(*zU0_user, zU0_for_hiop);
+    delete zL0_user;
+    delete zU0_user;
+  }
   /* delete the temporary buffers */
   delete lambdas;
 
@@ -844,8 +859,12 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
                                                                   yc0_for_hiop.get_size() + yd0_for_hiop.get_size());
   
   hiopVector* x0_for_user = nlp_transformations_.apply_inv_to_x(x0_for_hiop, true);
-  double* zL0_for_user = zL0_for_hiop.local_data();
-  double* zU0_for_user = zU0_for_hiop.local_data();
+  // the bound duals the user provides cover the variables that are removed internally
+  const bool vars_removed = nlp_transformations_.n_pre() != n_vars_;
+  hiopVector* zL0_user = vars_removed ? x0_for_user->alloc_clone() : &zL0_for_hiop;
+  hiopVector* zU0_user = vars_removed ? x0_for_user->alloc_clone() : &zU0_for_hiop;
+  double* zL0_for_user = zL0_user->local_data();
+  double* zU0_for_user = zU0_user->local_data();
   double* lambda_for_user = lambdas->local_data();
   double* d_for_user = d0.local_data();
   double* vl_for_user = vl0.local_data();
@@ -876,6 +895,12 @@ bool hiopNlpFormulation::get_warmstart_point(hiopVector& x0_for_hiop,
   if(bret) {
     nlp_transformations_.apply_to_x(*x0_for_user, x0_for_hiop);
   }
+  if(vars_removed) {
+    nlp_transformations_.apply_to_x(*zL0_user, zL0_for_hiop);
+    nlp_transformations_.apply_to_x(*zU0_user, zU0_for_hiop);
+    delete zL0_user;
+    delete zU0_user;
+  }
 
   /* delete the temporary buffers */
   delete lambdas;
@@ -1042,12 +1067,19 @@ void hiopNlpFormulation::unscale_duals(const hiopVector& z_L,
                                        const hiopVector& y_c,
                                        const hiopVector& y_d)
 {
+  // variables that were removed internally have zero bound duals
+  const hiopVector* z_user = nlp_transformations_.apply_inv_to_bound_duals(z_L);
   if(temp_zl_ == nullptr) {
-    temp_zl_ = this->alloc_primal_vec();
+    temp_zl_ = z_user->alloc_clone();
   }
+  temp_zl_->copyFrom(*z_user);
+
+  z_user = nlp_transformations_.apply_inv_to_bound_duals(z_U);
   if(temp_zu_ == nullptr) {
-    temp_zu_ = this->alloc_primal_vec();
+    temp_zu_ = z_user->alloc_clone();
   }
+  temp_zu_->copyFrom(*z_user);
+
   if(temp_eq_ == nullptr) {
     temp_eq_ = this->alloc_dual_eq_vec();
   }
@@ -1057,8 +1089,6 @@ void hiopNlpFormulation::unscale_duals(const hiopVector& z_L,
   if(cons_lambdas_ == nullptr) {
     cons_lambdas_ = this->alloc_dual_vec();
   }
-  temp_zl_->copyFrom(z_L);
-  temp_zu_->copyFrom(z_U);
   temp_eq_->copyFrom(y_c);
   temp_ineq_->copyFrom(y_d);
 
@@ -1125,29 +1155,29 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
   unscale_duals(z_L, z_U, y_c, y_d);
   unscale_cons(c, d);
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  // x in the user's space (includes the variables that were removed internally)
+  hiopVector* x_user = nlp_transformations_.apply_inv_to_x(const_cast<hiopVector&>(x), true);
+  const size_type n_user = nlp_transformations_.n_pre();
   if(options->GetString("callback_mem_space")=="host" && options->GetString("mem_space")=="device") {
     
 #if !defined(HIOP_USE_MPI)
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
     hiopVectorPar cons_lambdas_host(n_cons_);
 
-    x.copy_to_vectorpar(x_host);
+    x_user->copy_to_vectorpar(x_host);
     temp_zl_->copy_to_vectorpar(zl_host);
     temp_zu_->copy_to_vectorpar(zu_host);
     cons_body_->copy_to_vectorpar(cons_body_host);
     cons_lambdas_->copy_to_vectorpar(cons_lambdas_host);
 
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
+                                    (int)n_user,
                                     x_host.local_data_const(),
                                     zl_host.local_data_const(),
                                     zu_host.local_data_const(),
@@ -1157,8 +1187,8 @@ void hiopNlpFormulation::user_callback_solution(hiopSolveStatus status,
                                     obj_value/obj_scale_ext_to_hiop); 
   } else {
     interface_base.solution_callback(status,
-                                    (int)n_vars_,
-                                    x.local_data_const(),
+                                    (int)n_user,
+                                    x_user->local_data_const(),
                                     temp_zl_->local_data_const(),
                                     temp_zu_->local_data_const(),
                                     (int)n_cons_,
@@ -1202,9 +1232,9 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     nlp_scaling_->apply_inv_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
   }
 
-  //! todo -> test this when fixed variables are removed -> the internal
-  //! zl and zu may have different sizes than what user expects since HiOp removes
-  //! variables internally
+  // x in the user's space (includes the variables that were removed internally)
+  hiopVector* x_user = nlp_transformations_.apply_inv_to_x(const_cast<hiopVector&>(x), true);
+  const size_type n_user = nlp_transformations_.n_pre();
 
   bool bret{false};
 
@@ -1214,16 +1244,16 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     int* vec_distrib_ = nullptr;
     MPI_Comm comm_ = MPI_COMM_SELF;
 #endif  
-    hiopVectorPar x_host(n_vars_, vec_distrib_, comm_);
-    x.copy_to_vectorpar(x_host);
+    hiopVectorPar x_host(n_user, vec_distrib_, comm_);
+    x_user->copy_to_vectorpar(x_host);
 
     hiopVectorPar s_host(n_cons_ineq_, vec_distrib_, comm_);
     temp_ineq_->copy_to_vectorpar(s_host);
     
-    hiopVectorPar zl_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar zl_host(n_user, vec_distrib_, comm_);
     temp_zl_->copy_to_vectorpar(zl_host);
     
-    hiopVectorPar zu_host(n_vars_, vec_distrib_, comm_);
+    hiopVectorPar zu_host(n_user, vec_distrib_, comm_);
     temp_zu_->copy_to_vectorpar(zu_host);
     
     hiopVectorPar cons_body_host(n_cons_, vec_distrib_, comm_);
@@ -1235,7 +1265,7 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
+                                           (int)n_user,
                                            x_host.local_data_const(),
                                            zl_host.local_data_const(),
                                            zu_host.local_data_const(),
@@ -1255,8 +1285,8 @@ bool hiopNlpFormulation::user_callback_iterate(int iter,
     bret = interface_base.iterate_callback(iter,
                                            obj_value/this->get_obj_scale(),
                                            logbar_obj_value,
-                                           (int)n_vars_,
-                                           x.local_data_const(),
+                                           (int)n_user,
+                                           x_user->local_data_const(),
                                            temp_zl_->local_data_const(),
                                            temp_zu_->local_data_const(),
                                            (int)n_cons_ineq_,
@@ -1877,6 +1907,11 @@ bool hiopNlpMDS::finalizeInitialization()
     return false;
   }
   assert(0==nnz_sparse_Hess_Lagr_SD);
+  if(options->GetString("fixed_var") == "remove") {
+    log->printf(hovWarning,
+                "option fixed_var=remove was changed to 'relax' since mixed dense-sparse problems support only 'relax'.\n");
+    options->SetStringValue("fixed_var", "relax");
+  }
   return hiopNlpFormulation::finalizeInitialization();
 }
 
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index a5f19c4..3da066b 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -260,7 +260,7 @@ public:
     //double *hiop_xa = hiop_x.local_data();
     hiopVector *x = nlp_transformations_.apply_inv_to_x(hiop_x,/*new_x=*/true); 
     //memcpy(user_x, user_xa, hiop_x.get_local_size()*sizeof(double));
-    memcpy(user_x, x->local_data(), nlp_transformations_.n_post_local()*sizeof(double));
+    memcpy(user_x, x->local_data(), nlp_transformations_.n_pre_local()*sizeof(double));
   }
 
   /* copies/unpacks duals of the bounds and of constraints from 'it' to the three arrays */
diff --git a/src/Optimization/hiopNlpTransforms.hpp b/src/Optimization/hiopNlpTransforms.hpp
index 0548f5e..0aab9c9 100644
--- a/src/Optimization/hiopNlpTransforms.hpp
+++ b/src/Optimization/hiopNlpTransforms.hpp
@@ -100,6 +100,9 @@ public:
     assert(x_in.local_data() == x_out.local_data());
   }
 
+  /* returns the duals of the bounds for the original variables (no scaling is involved) */
+  virtual inline const hiopVector* apply_inv_to_bound_duals(const hiopVector& z) { return &z; }
+
   virtual inline double apply_inv_to_obj          (double& f_in) { return f_in;} 
   virtual inline double apply_to_obj              (double& f_in) { return f_in;} 
 
@@ -197,6 +200,13 @@ public:
     apply_to_vector(&x_in, &xv_out);
   }
   
+  /* from rs to fs: the duals of the bounds of the variables removed are zero */
+  inline const hiopVector* apply_inv_to_bound_duals(const hiopVector& z)
+  {
+    applyToMatrix(z.local_data_const(), 1, grad_fs->local_data());
+    return grad_fs;
+  }
+
   /* from rs to fs and return the fs*/
   inline hiopVector* apply_inv_to_grad_obj(hiopVector& grad_in)
   {
@@ -661,6 +671,15 @@ public:
     }
   }
 
+  const hiopVector* apply_inv_to_bound_duals(const hiopVector& z)
+  {
+    const hiopVector* ret = &z;
+    for(std::list<hiopNlpTransformation*>::reverse_iterator it=list_trans_.rbegin(); it!=list_trans_.rend(); ++it) {
+      ret = (*it)->apply_inv_to_bound_duals(*ret);
+    }
+    return ret;
+  }
+
   double apply_inv_to_obj(double& f_in) 
   {
     double ret = f_in;
-- 
2.43.0


From e57bbce33079f7d96b9171fff242efd059959ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 14/83] fix: feasibility restoration evaluates the original
 objective at the iterate, not at its distance from the reference point

---
 src/Optimization/hiopFRProb.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index d9039cc..ce8c779 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -253,6 +253,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -260,9 +263,6 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -902,6 +902,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   // rho*sum(p+n)
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -909,8 +912,6 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_); 
-
   return true;
 }
 
@@ -1613,6 +1614,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
   obj_value = obj_global;
 #endif
 
+  // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
+  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
   wrk_x_->componentMult(*DR_);
@@ -1620,9 +1624,6 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 
   obj_value += 0.5 * zeta_ * wrk_db * wrk_db;
 
-  // keep a copy of the original objective value
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
-
   return true;
 }
 
-- 
2.43.0


From 10c77c0702a489095f8c3565f309d0a43a7af2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 15/83] fix: adding to the diagonal of an empty matrix is
 allowed

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 478ac89..36a2e78 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -744,7 +744,7 @@ void hiopMatrixDenseRowMajor::addSubDiagonal(int start_on_dest_diag,
   assert(n_local_ == n_global_ && "method supported only for non-distributed matrices");
   assert(n_local_ == m_local_  && "method supported only for symmetric matrices");
 
-  assert(start_on_dest_diag>=0 && start_on_dest_diag<m_local_);
+  assert(start_on_dest_diag>=0 && start_on_dest_diag<=m_local_);
   num_elems = std::min(num_elems, m_local_-start_on_dest_diag);
 
   const double* dd=d.local_data_const();
-- 
2.43.0


From c1884483acf21f94d8dd0b717da0dfdeae7cdcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 16/83] fix: constraint scaling factors are finite and the same
 in the user's constraint order

---
 src/Optimization/hiopNlpTransforms.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/Optimization/hiopNlpTransforms.cpp b/src/Optimization/hiopNlpTransforms.cpp
index d97696b..6decaff 100644
--- a/src/Optimization/hiopNlpTransforms.cpp
+++ b/src/Optimization/hiopNlpTransforms.cpp
@@ -458,18 +458,6 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
   scale_factor_cd = LinearAlgebraFactory::create_vector(nlp_->options->GetString("mem_space"),
                                                         n_eq + n_ineq);
 
-  Jac_c.row_max_abs_value(*scale_factor_c);
-  scale_factor_c->scale(1./max_grad);
-  scale_factor_c->component_max(1.0);
-  scale_factor_c->invert();
-
-  Jac_d.row_max_abs_value(*scale_factor_d);
-  scale_factor_d->scale(1./max_grad);
-  scale_factor_d->component_max(1.0);
-  scale_factor_d->invert();
-
-  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
-
   Jac_c.row_max_abs_value(*scale_factor_c);
   Jac_d.row_max_abs_value(*scale_factor_d);
   if(max_con_grad == 0.) {
@@ -489,13 +477,19 @@ hiopNLPObjGradScaling::hiopNLPObjGradScaling(hiopNlpFormulation* nlp,
       scale_factor_d->setToConstant(1.0);
     }
   } else {
-    scale_factor_c->setToConstant(max_con_grad / scale_factor_c->infnorm());
-    scale_factor_d->setToConstant(max_con_grad / scale_factor_d->infnorm());
+    const double jac_c_norm = scale_factor_c->infnorm();
+    const double jac_d_norm = scale_factor_d->infnorm();
+    //no scaling for constraints with zero gradients
+    scale_factor_c->setToConstant(jac_c_norm > 0. ? max_con_grad / jac_c_norm : 1.);
+    scale_factor_d->setToConstant(jac_d_norm > 0. ? max_con_grad / jac_d_norm : 1.);
   }
   if(min_grad > 0.0) {
     scale_factor_c->component_max(min_grad);
     scale_factor_d->component_max(min_grad);
   }
+
+  //same factors, in the order of the user's constraints
+  scale_factor_cd->copy_from_two_vec_w_pattern(*scale_factor_c, cons_eq_mapping, *scale_factor_d, cons_ineq_mapping);
 }
 
 hiopNLPObjGradScaling::~hiopNLPObjGradScaling()
-- 
2.43.0


From b63b58b67888545e32938293a81b8f54e1454277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 17/83] fix: the Hessian of mixed dense-sparse problems
 receives multipliers scaled in their own order

---
 src/Optimization/hiopNlpFormulation.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index c57fa9a..e81eccb 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1867,12 +1867,22 @@ bool hiopNlpMDS::eval_Hess_Lagr(const hiopVector& x,
       buf_lambda_ = this->alloc_dual_vec();
     }
     assert(buf_lambda_);
-    buf_lambda_->copyFromStarting(0,         lambda_eq.local_data_const(),   n_cons_eq_);
-    buf_lambda_->copyFromStarting(n_cons_eq_, lambda_ineq.local_data_const(), n_cons_ineq_);
-
     // scale lambda before passing it to user interface to compute Hess
-    int n_cons_eq_ineq = n_cons_eq_ + n_cons_ineq_;
-    buf_lambda_ = nlp_transformations_.apply_to_cons(*buf_lambda_, n_cons_eq_ineq);
+    if(temp_eq_ == nullptr) {
+      temp_eq_ = this->alloc_dual_eq_vec();
+    }
+    if(temp_ineq_ == nullptr) {
+      temp_ineq_ = this->alloc_dual_ineq_vec();
+    }
+    temp_eq_->copyFrom(lambda_eq);
+    temp_ineq_->copyFrom(lambda_ineq);
+    if(nlp_scaling_) {
+      nlp_scaling_->apply_to_cons_eq(*temp_eq_, n_cons_eq_);
+      nlp_scaling_->apply_to_cons_ineq(*temp_ineq_, n_cons_ineq_);
+    }
+    // the order of the multipliers passed to the user is [lambda_eq, lambda_ineq]
+    buf_lambda_->copyFromStarting(0,          temp_eq_->local_data_const(),   n_cons_eq_);
+    buf_lambda_->copyFromStarting(n_cons_eq_, temp_ineq_->local_data_const(), n_cons_ineq_);
 
     double obj_factor_with_scale = obj_factor*get_obj_scale();
 
-- 
2.43.0


From 68262a158c225edcd9043fcb10d349297350093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 18/83] fix: feasibility restoration problem sets the types of
 all variables and constraints

---
 src/Optimization/hiopFRProb.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index ce8c779..ea3f163 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -174,6 +174,7 @@ bool hiopFRProbSparse::get_prob_sizes(size_type& n, size_type& m)
 bool hiopFRProbSparse::get_prob_info(NonlinearityType& type)
 {
   // the objective of FR problem is quadratic. constraint c(x) depends on the origianl problem
+  type = hiopNonlinear;
   if(nlp_base_->get_prob_type() != hiopNonlinear) {
     type = hiopQuadratic;
   }
@@ -815,6 +816,7 @@ bool hiopFRProbMDS::get_prob_sizes(size_type& n, size_type& m)
 bool hiopFRProbMDS::get_prob_info(NonlinearityType& type)
 {
   // the objective of FR problem is quadratic. constraint c(x) depends on the origianl problem
+  type = hiopNonlinear;
   if(nlp_base_->get_prob_type() != hiopNonlinear) {
     type = hiopQuadratic;
   }
@@ -1535,6 +1537,7 @@ bool hiopFRProbDense::get_prob_sizes(size_type& n, size_type& m)
 bool hiopFRProbDense::get_prob_info(NonlinearityType& type)
 {
   // the objective of FR problem is quadratic. constraint c(x) depends on the origianl problem
+  type = hiopNonlinear;
   if(nlp_base_->get_prob_type() != hiopNonlinear) {
     type = hiopQuadratic;
   }
@@ -1561,7 +1564,7 @@ bool hiopFRProbDense::get_vars_info(const size_type& n, double *xlow, double* xu
   xu.copyToStarting(*wrk_primal_,0);
   wrk_primal_->copyTo(xupp);
 
-  for(index_type i_local = 0; i_local < xl.get_local_size(); ++i_local) {
+  for(index_type i_local = 0; i_local < wrk_primal_->get_local_size(); ++i_local) {
     type[i_local] = hiopNonlinear;
   }
   
@@ -1589,8 +1592,8 @@ bool hiopFRProbDense::get_cons_info(const size_type& m, double* clow, double* cu
   du.copyToStarting(*wrk_dual_, (int)m_eq_);
   wrk_dual_->copyTo(cupp);
 
-  for(index_type i_local = 0; i_local < dl.get_local_size(); ++i_local) {
-    type[i_local] = hiopInterfaceBase::hiopLinear;
+  for(index_type i_local = 0; i_local < wrk_dual_->get_local_size(); ++i_local) {
+    type[i_local] = hiopInterfaceBase::hiopNonlinear;
   }
   return true;
 }
-- 
2.43.0


From 6a29df3609cfa2b7720e16b3d05ccbfd5055e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 19/83] fix: running a solver object again starts from the
 user's problem and without the state of the previous run

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 11 +++++++----
 src/Optimization/hiopNlpFormulation.cpp | 25 +++++++++++++++++++++++++
 src/Optimization/hiopNlpFormulation.hpp |  4 ++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 826037c..bcbc6c2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -966,8 +966,10 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize 'this'
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
+  //if nlp changed internally, or if a previous run left its state behind (for example, the quasi-Newton
+  //secant pairs), we need to reinitialize 'this'
+  const bool is_rerun = solver_status_ != NlpSolve_IncompleteInit && !load_state_api_called_;
+  if(is_rerun || it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
      _Jac_c->n()!=nlpdc->n()) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
@@ -2132,8 +2134,9 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
   //also reload options
   reload_options();
 
-  //if nlp changed internally, we need to reinitialize `this`
-  if(it_curr->get_x()->get_size()!=nlp->n() ||
+  //if nlp changed internally, or if a previous run left its state behind, we need to reinitialize `this`
+  const bool is_rerun = solver_status_ != NlpSolve_IncompleteInit;
+  if(is_rerun || it_curr->get_x()->get_size()!=nlp->n() ||
      //Jac_c->get_local_size_n()!=nlpdc->n_local()) { <- this is prone to racing conditions
      _Jac_c->n()!=nlp->n()) {
     //size of the nlp changed internally ->  reInitializeNlpObjects();
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index e81eccb..bb33843 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -81,6 +81,8 @@ hiopNlpFormulation::hiopNlpFormulation(hiopInterfaceBase& interface_, const char
 {
   strFixedVars_ = ""; //uninitialized
   dFixedVarsTol_ = -1.; //uninitialized
+  bnd_relax_[0] = bnd_relax_[1] = bnd_relax_[2] = -1.; //uninitialized
+  prob_data_altered_ = false;
   bool bret;
 #ifdef HIOP_USE_MPI
   bret = interface_base.get_MPI_comm(comm_); assert(bret);
@@ -196,6 +198,23 @@ bool hiopNlpFormulation::finalizeInitialization()
     doinit=true;
   }
 
+  //bounds and constraints were scaled or had their bounds changed by a previous run
+  if(prob_data_altered_) {
+    doinit = true;
+  }
+
+  //change in how the bounds are relaxed
+  const bool elastic = options->GetString("elastic_mode") != "none";
+  const double bnd_relax[3] = {options->GetNumeric("bound_relax_perturb"),
+                               elastic ? options->GetNumeric("elastic_mode_bound_relax_initial") : 0.,
+                               options->GetNumeric("fixed_var_perturb")};
+  for(int i=0; i<3; ++i) {
+    if(bnd_relax[i] != bnd_relax_[i]) {
+      doinit = true;
+    }
+    bnd_relax_[i] = bnd_relax[i];
+  }
+
   //more checks whether we should reinitialize go here (for example change in the rescaling option)
   
   if(!doinit) {
@@ -211,6 +230,9 @@ bool hiopNlpFormulation::finalizeInitialization()
   ////////////////////////////////////////////////////////////////////////////
   bool bret = interface_base.get_prob_sizes(n_vars_, n_cons_); assert(bret);
   nlp_transformations_.clear();
+  nlp_scaling_ = nullptr;
+  relax_bounds_ = nullptr;
+  prob_data_altered_ = false;
   nlp_transformations_.setUserNlpNumVars(n_vars_);
 
   delete xl_;
@@ -719,6 +741,7 @@ bool hiopNlpFormulation::apply_scaling(hiopVector& c, hiopVector& d, hiopVector&
   du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
 
   nlp_transformations_.append(nlp_scaling_);
+  prob_data_altered_ = true;
   
   return true;
 }
@@ -1436,6 +1459,7 @@ double hiopNlpFormulation::get_obj_scale() const
 
 void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 {  
+  prob_data_altered_ = true;
   xl_->copy_from_w_pattern(*it.get_x(), *ixl_);
   xl_->axpy_w_pattern(-1.0, *it.get_sxl(), *ixl_);
 
@@ -1451,6 +1475,7 @@ void hiopNlpFormulation::adjust_bounds(const hiopIterate& it)
 
 void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
+  prob_data_altered_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
 }
 
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 3da066b..99ab580 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -363,6 +363,10 @@ protected:
   //options for which this class was setup
   std::string strFixedVars_; //"none", "fixed", "relax"
   double dFixedVarsTol_;
+  double bnd_relax_[3]; //"bound_relax_perturb", initial relaxation of elastic mode, and "fixed_var_perturb"
+
+  /// Indicates that a solve scaled the problem or modified the bounds after they were obtained from the user
+  bool prob_data_altered_;
 
   /**
    * @brief Internal NLP transformations that supports fixing and relaxing variables as well as
-- 
2.43.0


From 58152859981c5089b41136afd388fdcdc65effc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 20/83] fix: a failed inertia-free refactorization is retried
 in safe mode instead of using its direction

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++++++++-
 src/Optimization/hiopKKTLinSys.cpp    |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index bcbc6c2..25697a5 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3503,9 +3503,19 @@ bool hiopAlgFilterIPMBase::compute_search_direction_inertia_free(hiopKKTLinSys*
         nlp->log->printf(hovError,
                          "Reached max number (%lu) of refactorization within an outer iteration.\n",
                          max_refactorization);
+        // repeat the linear solve in safe mode (no effect under 'forcequick' or if already in safe mode: failure)
+        if(!linsol_forcequick) {
+          linsol_safe_mode_on = true;
+        }
+        return false;
+      }
+      if(!kkt->factorize_inertia_free()) {
+        nlp->log->printf(hovError, "Refactorization with additional regularization failed.\n");
+        if(!linsol_forcequick) {
+          linsol_safe_mode_on = true;
+        }
         return false;
       }
-      kkt->factorize_inertia_free();
       num_refact++;
       nlp->runStats.kkt.nUpdateICCorr++;
     }
diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index d91a3d6..4b61931 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -443,7 +443,7 @@ bool hiopKKTLinSysCurvCheck::factorize_inertia_free()
 
   nlp_->runStats.kkt.tmUpdateInnerFact.stop();
 
-  return true;
+  return solver_flag >= 0;
 }
 
 
-- 
2.43.0


From 78bf65fd190ba84f15b08aa1bba15d9154de5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 21/83] fix: a failing least-squares update of the multipliers
 falls back to the linear update instead of aborting

---
 src/Optimization/hiopDualsUpdater.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopDualsUpdater.cpp b/src/Optimization/hiopDualsUpdater.cpp
index 510fae0..0d6823b 100644
--- a/src/Optimization/hiopDualsUpdater.cpp
+++ b/src/Optimization/hiopDualsUpdater.cpp
@@ -146,7 +146,11 @@ bool hiopDualsLsqUpdate::go(const hiopIterate& iter,
     return true;
   }
 
-  return do_lsq_update(iter_plus, grad_f, jac_c, jac_d);
+  if(!do_lsq_update(iter_plus, grad_f, jac_c, jac_d)) {
+    // for example, rank-deficient Jacobian; the multipliers of the step above are used instead
+    nlp_->log->printf(hovWarning, "dual lsq update failed; will use the linear update of the duals.\n");
+  }
+  return true;
 }
 
 hiopDualsLsqUpdateLinsysRedDense::hiopDualsLsqUpdateLinsysRedDense(hiopNlpFormulation* nlp)
-- 
2.43.0


From 49cd4290933440b7b6c2f73ebc0a338c038ce2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 22/83] fix: dense matrix products with empty dimensions

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 36a2e78..1afe8fd 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -546,7 +546,7 @@ void hiopMatrixDenseRowMajor::timesMat(double beta, hiopMatrix& W_, double alpha
   assert(X.m()==this->n());
   assert(W.n()==X.n());
 
-  if(W.m()==0 || X.m()==0 || W.n()==0) return;
+  if(W.m()==0 || W.n()==0) return;
 #ifdef HIOP_DEEPCHECKS  
   assert(W.isfinite());
   assert(X.isfinite());
@@ -587,6 +587,14 @@ void hiopMatrixDenseRowMajor::timesMat_local(double beta, hiopMatrix& W_, double
   assert(X.isfinite());
 #endif
   assert(W.n_local_==W.n_global_ && "requested multiplication is not supported, see timesMat");
+
+  if(W.m()==0 || W.n()==0) return;
+  if(X.m()==0) {
+    //the product is zero and BLAS does not accept zero leading dimensions
+    int one=1; int mn=W.m()*W.n();
+    DSCAL(&mn, &beta, W.M_[0], &one);
+    return;
+  }
   
   /* C = alpha*op(A)*op(B) + beta*C in our case is
      Wt= alpha* Xt  *Mt    + beta*Wt */
@@ -625,7 +633,7 @@ void hiopMatrixDenseRowMajor::transTimesMat(double beta, hiopMatrix& W_, double
   assert(W.isfinite());
   assert(X.isfinite());
 #endif
-  if(W.m()==0) return;
+  if(W.m()==0 || W.n()==0) return;
 
   assert(this->n_global_==this->n_local_ && "requested parallel multiplication is not supported");
   
-- 
2.43.0


From 875a0d7850403847911393f15e3a350864e07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 23/83] fix: position of the extra diagonal entries after
 sorting the CSR rows

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index 6b81c4f..f378759 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1302,7 +1302,7 @@ void hiopMatrixSparseTriplet::convert_to_csr_arrays(int &csr_nnz,
       
       int old_nnz_idx = index_convert_extra_Diag2CSR_temp[i];
       if(old_nnz_idx!=-1){
-        int old_nnz_in_row = ind_temp[old_nnz_idx - csr_kRowPtr[i]];
+        int old_nnz_in_row = old_nnz_idx - csr_kRowPtr[i];
         std::vector<int>::iterator p = std::find(ind_temp.begin(),ind_temp.end(),old_nnz_in_row);
         assert(p != ind_temp.end());        
         int new_nnz_idx = (int) std::distance (ind_temp.begin(), p) + csr_kRowPtr[i];
-- 
2.43.0


From 503acd3c6201921ba5898ce4debae356b78a8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 24/83] fix: no variable length array on the stack in reorder

---
 src/Utils/hiopCppStdUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopCppStdUtils.hpp b/src/Utils/hiopCppStdUtils.hpp
index 4147cc6..cda46f3 100644
--- a/src/Utils/hiopCppStdUtils.hpp
+++ b/src/Utils/hiopCppStdUtils.hpp
@@ -77,7 +77,7 @@ namespace hiop {
   // Function to reorder elements of arr[] according to index[]
   template<class T> inline void reorder(T *arr, std::vector<int> index, int n)
   {
-    T temp[n];
+    std::vector<T> temp(n);
 
     // arr[i] should be present at index[i] index
     for (int i=0; i<n; i++)
-- 
2.43.0


From c1d6af55df9aa83c57a934d682077a7ddbd3c7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 25/83] fix: offsets in startingAtAddSubDiagonalToStartingAt of
 the symmetric triplet matrix

---
 src/LinAlg/hiopMatrixSparseTriplet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseTriplet.cpp b/src/LinAlg/hiopMatrixSparseTriplet.cpp
index f378759..1f4bfda 100644
--- a/src/LinAlg/hiopMatrixSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixSparseTriplet.cpp
@@ -1022,7 +1022,7 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
                                                                       int num_elems/*=-1*/) const
 {
   hiopVectorPar& vd = dynamic_cast<hiopVectorPar&>(vec_dest);
-  if(num_elems<0) num_elems = vd.get_size();
+  if(num_elems<0) num_elems = vd.get_size() - vec_start;
   assert(num_elems<=vd.get_size());
 
   assert(diag_src_start>=0 && diag_src_start+num_elems<=this->nrows_);
@@ -1032,8 +1032,8 @@ void hiopMatrixSymSparseTriplet::startingAtAddSubDiagonalToStartingAt(int diag_s
     const int row = iRow_[itnz];
     if(row==jCol_[itnz]) {
       if(row>=diag_src_start && row<diag_src_start+num_elems) {
-        assert(row+vec_start<vd.get_size());
-        v[vec_start+row] += alpha * this->values_[itnz];
+        assert(row-diag_src_start+vec_start<vd.get_size());
+        v[vec_start+row-diag_src_start] += alpha * this->values_[itnz];
       }
     }
   }
-- 
2.43.0


From ec1292b2ff69efdf6ef11101b29efb5ccdfc33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 26/83] fix: CSR transpose can be formed repeatedly and for
 matrices without nonzeros

---
 src/LinAlg/hiopMatrixSparseCSRSeq.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
index e9d4373..bb7465c 100644
--- a/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
+++ b/src/LinAlg/hiopMatrixSparseCSRSeq.cpp
@@ -86,9 +86,8 @@ hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq(size_type rows, size_type cols, s
   if(rows==0 || cols==0) {
     assert(nnz_==0 && "number of nonzeros must be zero when any of the dimensions are 0");
     nnz_ = 0;
-  } else {
-    alloc();
   }
+  alloc();
 }
 
 hiopMatrixSparseCSRSeq::hiopMatrixSparseCSRSeq()
@@ -113,7 +112,8 @@ void hiopMatrixSparseCSRSeq::alloc()
   assert(jcolind_ == nullptr);
   assert(values_ == nullptr);
 
-  irowptr_ = new index_type[nrows_+1];
+  //zero row pointers make matrices without nonzeros valid
+  irowptr_ = new index_type[nrows_+1]{};
   jcolind_ = new index_type[nnz_];
   values_ = new double[nnz_];
 
@@ -898,7 +898,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
+  delete[] row_starts_;
   row_starts_ = new index_type[nrows_];
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
@@ -963,10 +963,14 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
 
 void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseTriplet& M)
 {
-  assert(irowptr_ && jcolind_ && values_ && row_starts_);
+  assert(irowptr_ && jcolind_ && values_ && (row_starts_ || nnz_==0));
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+
+  if(nnz_==0) {
+    return;
+  }
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
@@ -1029,7 +1033,7 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
   const index_type* Mirow = M.i_row();
   const index_type* Mjcol = M.j_col();
 
-  assert(nullptr == row_starts_);
+  delete[] row_starts_;
   row_starts_ = new index_type[nrows_];
 
   //in this method we use the row_starts_ as working buffer to count nz on each row of `this`
@@ -1097,10 +1101,14 @@ void hiopMatrixSparseCSRSeq::form_transpose_from_symbolic(const hiopMatrixSparse
 void hiopMatrixSparseCSRSeq::form_transpose_from_numeric(const hiopMatrixSparseCSR& M_in)
 {
   auto& M = dynamic_cast<const hiopMatrixSparseCSRSeq&>(M_in);
-  assert(irowptr_ && jcolind_ && values_ && row_starts_);
+  assert(irowptr_ && jcolind_ && values_ && (row_starts_ || nnz_==0));
   assert(nrows_ == M.n());
   assert(ncols_ == M.m());
   assert(nnz_ == M.numberOfNonzeros());
+
+  if(nnz_==0) {
+    return;
+  }
   
 #ifndef NDEBUG
   for(int i=0; i<nrows_; i++) {
-- 
2.43.0


From 5fe5126867dd4afa18e2d61448b05b4b51c51c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 27/83] fix: hiopMatrixMDS::timesMatTrans uses alpha

---
 src/LinAlg/hiopMatrixMDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopMatrixMDS.hpp b/src/LinAlg/hiopMatrixMDS.hpp
index 9998bc8..f8c42b4 100644
--- a/src/LinAlg/hiopMatrixMDS.hpp
+++ b/src/LinAlg/hiopMatrixMDS.hpp
@@ -95,8 +95,8 @@ public:
   {
     const hiopMatrixMDS &X_mds = dynamic_cast<const hiopMatrixMDS&>(X);
     
-    mDe->timesMatTrans(beta, W, 1.0, *X_mds.de_mat());
-    mSp->timesMatTrans(1.0, W, 1.0, *X_mds.sp_mat());
+    mDe->timesMatTrans(beta, W, alpha, *X_mds.de_mat());
+    mSp->timesMatTrans(1.0, W, alpha, *X_mds.sp_mat());
   }
 
 
-- 
2.43.0


From 6ff5f3fb32515879b73966dfb0f672ce7b193ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 28/83] fix: the dense matrix copy constructor copies the
 communicator size

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index 1afe8fd..e809c28 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -112,7 +112,7 @@ hiopMatrixDenseRowMajor::hiopMatrixDenseRowMajor(const hiopMatrixDenseRowMajor&
 {
   n_local_=dm.n_local_; m_local_=dm.m_local_; n_global_=dm.n_global_;
   glob_jl_=dm.glob_jl_; glob_ju_=dm.glob_ju_;
-  comm_=dm.comm_; myrank_=dm.myrank_;
+  comm_=dm.comm_; myrank_=dm.myrank_; comm_size_=dm.comm_size_;
 
   //M=new double*[m_local_==0?1:m_local_];
   max_rows_ = dm.max_rows_;
-- 
2.43.0


From 0d31e1e76e41eefe2b77015f810b143011c3551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 29/83] fix: dense transTimesMat on ranks without columns

---
 src/LinAlg/hiopMatrixDenseRowMajor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixDenseRowMajor.cpp b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
index e809c28..2ce5038 100644
--- a/src/LinAlg/hiopMatrixDenseRowMajor.cpp
+++ b/src/LinAlg/hiopMatrixDenseRowMajor.cpp
@@ -633,7 +633,7 @@ void hiopMatrixDenseRowMajor::transTimesMat(double beta, hiopMatrix& W_, double
   assert(W.isfinite());
   assert(X.isfinite());
 #endif
-  if(W.m()==0 || W.n()==0) return;
+  if(W.m()==0 || W.n_local_==0) return;
 
   assert(this->n_global_==this->n_local_ && "requested parallel multiplication is not supported");
   
-- 
2.43.0


From 5cc607712d79146b5b3ba92f556680a1c84c7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 30/83] fix: new_sliceFromSym misses entries when row and
 column index sets differ

---
 src/LinAlg/hiopMatrixComplexSparseTriplet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
index ec322a3..0c828d3 100644
--- a/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
+++ b/src/LinAlg/hiopMatrixComplexSparseTriplet.cpp
@@ -330,7 +330,7 @@ namespace hiop
       while(src_itnz<src_nnz && src_i[src_itnz]<row) 
 	src_itnz++;
 
-      for(int kj=ki; kj<ncols; kj++) {
+      for(int kj=0; kj<ncols; kj++) {
 	const int& col= col_idxs[kj];
 
 	if(col<row) continue;
-- 
2.43.0


From 93dc78528cda712ea223afc7b6804a59ff85703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 31/83] fix: complex timesVec scales y when the matrix has no
 columns

---
 src/LinAlg/hiopMatrixComplexDense.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopMatrixComplexDense.cpp b/src/LinAlg/hiopMatrixComplexDense.cpp
index ec3dbea..d51d148 100644
--- a/src/LinAlg/hiopMatrixComplexDense.cpp
+++ b/src/LinAlg/hiopMatrixComplexDense.cpp
@@ -161,7 +161,7 @@ namespace hiop
     } else {
       if( MM != 0 ) {
         int one=1; 
-        ZSCAL(&NN, &beta, ya, &one);
+        ZSCAL(&MM, &beta, ya, &one);
       } else {
         assert(MM==0);
         return;
-- 
2.43.0


From 716d10b743abe7fe7e9a2bc229ed989e9c56d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 32/83] fix: hiopLinSolverUMFPACKZ releases the previous
 factorization

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index 8ef8c94..fae5276 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -60,6 +60,16 @@ namespace hiop
     //UMFPACK does not handle zero-dimensioned arrays
     if(n==0) return 0;
     int status;
+
+    //release the previous factorization, if any
+    if(m_symbolic) {
+      umfpack_zi_free_symbolic(&m_symbolic);
+      m_symbolic = NULL;
+    }
+    if(m_numeric) {
+      umfpack_zi_free_numeric(&m_numeric);
+      m_numeric = NULL;
+    }
     
     //
     // copy from sys_mat triplets to UMFPACK's column form sparse format
-- 
2.43.0


From 6428db898de4226eb8d5eab43b36dca1983cf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 33/83] fix: hiopLinSolverUMFPACKZ reports singular matrices

---
 src/LinAlg/hiopLinSolverUMFPACKZ.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
index fae5276..ad6fac5 100644
--- a/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
+++ b/src/LinAlg/hiopLinSolverUMFPACKZ.cpp
@@ -130,7 +130,7 @@ namespace hiop
 
     status = umfpack_zi_numeric(m_colptr, m_rowidx, m_vals, (double*) NULL,
 				m_symbolic, &m_numeric, m_control, m_info);
-    if(status<0) {
+    if(status<0 || status==UMFPACK_WARNING_singular_matrix) {
       umfpack_zi_report_info (m_control, m_info) ;
       umfpack_zi_report_status (m_control, status) ;
       printf("[%d] UMFPACK: error in the numeric factorization: status=%d\n",
-- 
2.43.0


From f6b9d711092e62efd2c6487aada1286ab48c11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 34/83] fix: a hiopKronReduction object can be used more than
 once

---
 src/Utils/hiopKronReduction.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utils/hiopKronReduction.cpp b/src/Utils/hiopKronReduction.cpp
index 05e6a46..8116c95 100644
--- a/src/Utils/hiopKronReduction.cpp
+++ b/src/Utils/hiopKronReduction.cpp
@@ -61,7 +61,6 @@ namespace hiop
 
       //Ybb\Yba
       //hiopMatrixComplexDense Ybbinv_Yba(Yba_->m(), Yba_->n());
-      assert(map_nonaux_to_aux_==NULL);
       delete map_nonaux_to_aux_;
       map_nonaux_to_aux_ = new hiopMatrixComplexDense(Yba->m(), Yba->n());
       linsolver_->solve(*Yba, *map_nonaux_to_aux_);
-- 
2.43.0


From 41e5c4034e6102a615188399466751c951d28ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 35/83] fix: BiCGStab passes aliased vectors to the right
 preconditioner

---
 src/LinAlg/hiopKrylovSolver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 25f8fe2..f24ca99 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -506,7 +506,9 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*pk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      // operators do not support aliased input and output
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*v_, *ph_);
@@ -586,7 +588,9 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
       ph_->copyFrom(*sk_);
     }
     if(MR_opr_) {
-      MR_opr_->times_vec(*ph_, *ph_);
+      // operators do not support aliased input and output
+      t_->copyFrom(*ph_);
+      MR_opr_->times_vec(*ph_, *t_);
     }
 
     A_opr_->times_vec(*t_, *ph_);
-- 
2.43.0


From 6aced3d9740ad9cd8adcf9994aa29a7906f20b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 36/83] fix: BiCGStab overwrites the rhs before computing the
 final residual

---
 src/LinAlg/hiopKrylovSolver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index f24ca99..00dd9d9 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -563,7 +563,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1 - 0.5;
           break;
@@ -644,7 +643,6 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
         moresteps++;
         if(moresteps >= maxmsteps) {
           // tol is too small
-          b->copyFrom(*xk_);
           flag_ = 3;
           iter_ = ii + 1;
           break;
-- 
2.43.0


From 2ec497cfe9cf8ea633ce27ac3432f8e3ab8f3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 37/83] fix: PCG reports stale residuals and messages when a
 solver object is reused

---
 src/LinAlg/hiopKrylovSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index 00dd9d9..d007b35 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -149,11 +149,14 @@ bool hiopPCGSolver::solve(hiopIterate* xsol, const hiopResidual* bresid)
 
 bool hiopPCGSolver::solve(hiopVector* b)
 {
+  std::stringstream().swap(ss_info_);
   // rhs = 0 --> solution = 0
   double n2b = b->twonorm();
   if(n2b == 0.0) {
     flag_ = 0;
     iter_ = 0.;
+    rel_resid_ = 0;
+    abs_resid_ = 0;
     return true;
   }
 
-- 
2.43.0


From 1e572e75d70eb5bf6714cf84204bd2d1424bcee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:57 +0000
Subject: [PATCH 38/83] fix: Krylov solvers report the iteration of the
 returned vector on failure

---
 src/LinAlg/hiopKrylovSolver.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/LinAlg/hiopKrylovSolver.cpp b/src/LinAlg/hiopKrylovSolver.cpp
index d007b35..80a8a37 100644
--- a/src/LinAlg/hiopKrylovSolver.cpp
+++ b/src/LinAlg/hiopKrylovSolver.cpp
@@ -313,7 +313,7 @@ bool hiopPCGSolver::solve(hiopVector* b)
     if(abs_resid_ < normrmin) {
       normrmin = abs_resid_;
       xmin_->copyFrom(*xk_);
-      imin = ii;
+      imin = ii + 1;
     }
     if(stagsteps >= maxstagsteps) {
       flag_ = 3;
@@ -337,12 +337,15 @@ bool hiopPCGSolver::solve(hiopVector* b)
     
     if(normr_comp <= abs_resid_) {
       b->copyFrom(*xmin_);
-      iter_ = imin + 1;
+      iter_ = imin;
       abs_resid_ = normr_comp;
       rel_resid_ = normr_comp / n2b;
     } else {
       b->copyFrom(*xk_);
-      iter_ = ii + 1;
+      if(ii == maxit_) {
+        // all iterations were done
+        iter_ = maxit_;
+      }
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
@@ -683,12 +686,15 @@ bool hiopBiCGStabSolver::solve(hiopVector* b)
     
     if(normr_comp <= abs_resid_) {
       b->copyFrom(*xmin_);
-      iter_ = imin + 1;
+      iter_ = imin;
       abs_resid_ = normr_comp;
       rel_resid_ = normr_comp / n2b;
     } else {
       b->copyFrom(*xk_);
-      iter_ = ii + 1;
+      if(ii == maxit_) {
+        // all iterations were done
+        iter_ = maxit_;
+      }
       imin = iter_;
       rel_resid_ = abs_resid_ / n2b;
     }
-- 
2.43.0


From 7cd127e4832df9e740969add9fc09957b3cd3d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 39/83] fix: initial primal regularization for degenerate
 Hessians

---
 src/Optimization/hiopPDPerturbation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e73125a..e5be553 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -355,6 +355,8 @@ namespace hiop
       return false;
     }
 
+    delta_wx = delta_wx_curr_db_;
+    delta_wd = delta_wd_curr_db_;
     return true;
   }
 
-- 
2.43.0


From 8b0800fab724b55d01d877ece71f57ee864397d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 40/83] fix: assertions failing for some sequences of wrong
 inertia and singularity

---
 src/Optimization/hiopPDPerturbation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index e5be553..d916798 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -275,7 +275,8 @@ namespace hiop
         }
         break;
       case dttDeltacposDeltaw0:
-        assert(delta_wx_curr_db_ == 0. && delta_cc_curr_db_ > 0.);
+        // (delta_wx may be nonzero here, if the inertia was corrected after the first singularity)
+        assert(delta_cc_curr_db_ > 0.);
         assert(jac_degenerate_ == dtNotEstablished);
         delta_cd_curr_db_ = delta_cc_curr_db_ = 0.;
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
@@ -294,12 +295,12 @@ namespace hiop
         deltas_test_type_ = dttDeltacposDeltawpos;
         break;
       case dttDeltacposDeltawpos:
+      case dttNoTest:
+        // no test is carried out (anymore): the dual regularization is on, increase the primal one
         if(!guts_of_compute_perturb_wrong_inertia(delta_wx_temp, delta_wd_temp)) {
           bret = false;
         }
         break;
-      case dttNoTest:
-        assert(false && "something went wrong - should not get here");
       }
     } else {
       if(delta_cc_curr_db_ > 0.) { 
-- 
2.43.0


From 9fbc695e31498c11fb37c52efe8f3711a8a7ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 41/83] fix: dual-first regularization reports primal changes
 as a dual update only

---
 src/Optimization/hiopPDPerturbation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopPDPerturbation.cpp b/src/Optimization/hiopPDPerturbation.cpp
index d916798..c45663e 100644
--- a/src/Optimization/hiopPDPerturbation.cpp
+++ b/src/Optimization/hiopPDPerturbation.cpp
@@ -539,10 +539,10 @@ namespace hiop
       }
       ret = compute_dual_perturb_impl(mu_);
 
-      set_delta_curr_vec(PrimalUpdate);
+      set_delta_curr_vec(PDUpdate);
+    } else {
+      set_delta_curr_vec(DualUpdate);
     }
-    
-    set_delta_curr_vec(DualUpdate);
 
     nlp_->log->printf(hovScalars, 
                       "primal regularization (mean): %12.5e, dual regularization (mean): %12.5e \n", 
-- 
2.43.0


From 1e17f8eafd95c3849acd4277e9e6adbefaadf7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 42/83] fix: low-rank Hessian products wrong for pairs from
 short steps

---
 src/Optimization/hiopHessianLowRank.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index cba17d0..4b2700a 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1007,10 +1007,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
     sk->copyFrom(St_->local_data() + k*n_local);
     double skTyk=yk->dotProductWith(*sk);
     
-    if(skTyk < std::numeric_limits<double>::epsilon()) {
+    // the curvature of the stored pairs was checked relatively to the norms of the pairs, hence small
+    // values occur for short steps and are to be used as they are
+    if(skTyk < std::numeric_limits<double>::min()) {
       nlp->log->printf(hovLinAlgScalars, "hiopHessianLowRank: ||s_k^T*y_k||=%12.6e too small..."
-                       " set it to machine precision = %12.6e \n", skTyk, std::numeric_limits<double>::epsilon());
-      skTyk = std::numeric_limits<double>::epsilon();
+                       " set it to smallest positive number = %12.6e \n", skTyk, std::numeric_limits<double>::min());
+      skTyk = std::numeric_limits<double>::min();
     }
 
     if(a[k] == nullptr && b[k] == nullptr) {
-- 
2.43.0


From 4faacc247fd9674358ea0cd7b82cd8caae2b4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 43/83] fix: feasible problems reported infeasible after a
 failed line search

---
 src/Optimization/hiopAlgFilterIPM.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 25697a5..307e370 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3214,7 +3214,12 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // FR succeeds
     return true;
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
-    solver_status_ = Infeasible_Problem;
+    if(theta_ref <= nlp->options->GetNumeric("tolerance")) {
+      // the current point is feasible, there is no evidence of infeasibility
+      solver_status_ = Steplength_Too_Small;
+    } else {
+      solver_status_ = Infeasible_Problem;
+    }
     return false;
   } else if(FR_status == Error_In_User_Function) {
     solver_status_ = Error_In_User_Function;
-- 
2.43.0


From 9e14133539c0a20ec00c3ccf72f9dc4f8b17e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 44/83] fix: iterative refinement of the quasi-Newton KKT solve
 discarded, uninitialized solution used

---
 src/Optimization/hiopKKTLinSys.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopKKTLinSys.cpp b/src/Optimization/hiopKKTLinSys.cpp
index 4b61931..0829892 100644
--- a/src/Optimization/hiopKKTLinSys.cpp
+++ b/src/Optimization/hiopKKTLinSys.cpp
@@ -1245,8 +1245,13 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
   int nIterRefin=0;double nrmResid;
   int info;
   const int MAX_ITER_REFIN=3;
-  while(true) {
+  if(INFO>0 && INFO<=N) {
+    //the matrix is not numerically positive definite and X was not computed
+    x->setToZero();
+  } else {
     x->copyFrom(X);
+  }
+  while(true) {
     resid->copyFrom(*rhsref);
     Aref->timesVec(1.0, *resid, -1.0, *x);
 
@@ -1286,6 +1291,10 @@ int hiopKKTLinSysLowRank::solveWithRefin(hiopMatrixDense& M, hiopVector& rhs)
 	if(info<0)
 	  nlp_->log->printf(hovError, "hiopKKTLinSysLowRank::factorizeMat: dpotrf returned "
 			    "error %d\n", info);
+      if(info!=0) {
+        //no factors to refine with
+        break;
+      }
 
       DPOTRS(&UPLO,&N, &NRHS, M.local_data(), &LDA, resid->local_data(), &LDA, &info);
       if(info<0)
-- 
2.43.0


From 5f4f2ab02e24e21fc325c155583bba0acb137002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 45/83] fix: option values were interpreted as printf formats
 in messages

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 7ce51f9..9e35991 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -480,9 +480,9 @@ void hiopOptions::log_printf(hiopOutVerbosity v, const char* format, ...)
   va_start (args, format);
   vsnprintf(buff,1024,format, args);
   if(log_) {
-    log_->printf(v,buff);
+    log_->printf(v, "%s", buff);
   } else {
-    hiopLogger::printf_error(v,buff);
+    hiopLogger::printf_error(v, "%s", buff);
   }
   //fprintf(stderr,buff);
   va_end (args);
-- 
2.43.0


From 0ed482638e8fdf65eecf993a8d6df8dfc9c19e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 46/83] fix: file names given as option values were converted
 to lower case

---
 src/Utils/hiopOptions.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 9e35991..05cc063 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -394,7 +394,9 @@ bool hiopOptions::set_val(const char* name, const char* value_in)
       assert(false && "mismatch between name and type happened in internal 'set_val'");
     } else {
       string value(value_in);
-      transform(value.begin(), value.end(), value.begin(), ::tolower);
+      if(!option->range.empty()) {
+        transform(value.begin(), value.end(), value.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
@@ -439,7 +441,10 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
         option->specifiedInFile = true;
       }
       string strValue(value);
-      transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      //values of options that can take any value (e.g., file names) are case sensitive
+      if(!option->range.empty()) {
+        transform(strValue.begin(), strValue.end(), strValue.begin(), ::tolower);
+      }
       //see if it is in the range (of supported values)
       bool inrange=false;
       for(int it=0; it<static_cast<int>(option->range.size()) && !inrange; it++) {
-- 
2.43.0


From 12c17e32ec4a85360ae1efd688dba461430c4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 47/83] fix: integer and string options set at runtime were not
 marked as user defined

---
 src/Utils/hiopOptions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 05cc063..a0009d7 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -363,7 +363,10 @@ bool hiopOptions::SetIntegerValue(const char* name, const int& value, const bool
       
       if(setFromFile) {
         option->specifiedInFile=true;
+      } else {
+        option->specifiedAtRuntime=true;
       }
+
       if(value<option->lb || value>option->ub) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%d, %d]. Default value %d will be used.\n",
@@ -439,6 +442,8 @@ bool hiopOptions::SetStringValue (const char* name,  const char* value, const bo
       
       if(setFromFile) {
         option->specifiedInFile = true;
+      } else {
+        option->specifiedAtRuntime = true;
       }
       string strValue(value);
       //values of options that can take any value (e.g., file names) are case sensitive
-- 
2.43.0


From 67aaee124a2f0384dda107a0acfedd8dd67256d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 48/83] fix: NaN was accepted as the value of a numeric option

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index a0009d7..5144d83 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -296,7 +296,7 @@ bool hiopOptions::SetNumericValue (const char* name, const double& value, const
         option->specifiedAtRuntime=true;
       }
       
-      if(value<option->lb || value>option->ub) {
+      if(!(value>=option->lb && value<=option->ub)) {
         log_printf(hovWarning,
                    "Hiop: option '%s' must be in [%g,%g]. Default value %g will be used.\n",
                    name, option->lb,
-- 
2.43.0


From 51ed46e5842a8118d995da9160c8d85e57041b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 49/83] fix: inconsistent elastic mode relaxation options were
 used instead of the documented defaults

---
 src/Optimization/hiopNlpFormulation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index bb33843..d2537b8 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -205,6 +205,13 @@ bool hiopNlpFormulation::finalizeInitialization()
 
   //change in how the bounds are relaxed
   const bool elastic = options->GetString("elastic_mode") != "none";
+  if(elastic && options->GetNumeric("elastic_mode_bound_relax_final") > options->GetNumeric("elastic_mode_bound_relax_initial")) {
+    log->printf(hovWarning,
+                "Option 'elastic_mode_bound_relax_final' is larger than 'elastic_mode_bound_relax_initial'. "
+                "Default values will be used for both options.\n");
+    options->set_val("elastic_mode_bound_relax_initial", 1e-2);
+    options->set_val("elastic_mode_bound_relax_final", 1e-12);
+  }
   const double bnd_relax[3] = {options->GetNumeric("bound_relax_perturb"),
                                elastic ? options->GetNumeric("elastic_mode_bound_relax_initial") : 0.,
                                options->GetNumeric("fixed_var_perturb")};
-- 
2.43.0


From acccb40d05e1e4a7796395b4d009fa902c3f5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 50/83] fix: malformed numbers in the options file were
 accepted in part

---
 src/Utils/hiopOptions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 5144d83..46ed31a 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -194,7 +194,7 @@ void hiopOptions::load_from_file(const char* filename)
       if(on!=NULL) {
         stringstream ss(value);
         double val;
-        if(ss>>val) {
+        if((ss>>val) && ss.eof()) {
           SetNumericValue(name.c_str(), val, true);
         } else {
           log_printf(hovWarning,
@@ -212,7 +212,7 @@ void hiopOptions::load_from_file(const char* filename)
           oi = dynamic_cast<OptionInt*>(option);
           if(oi!=NULL) {
             stringstream ss(value); int val;
-            if(ss>>val) { SetIntegerValue(name.c_str(), val, true); }
+            if((ss>>val) && ss.eof()) { SetIntegerValue(name.c_str(), val, true); }
             else {
               log_printf(hovWarning,
                          "Hiop could not parse value '%s' as int for option '%s' specified in "
-- 
2.43.0


From 618f9f15b382b7e69b887c16c313978269ed4819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 51/83] fix: KKTLinsys=condensed was not reset for quasi-Newton
 Hessians

---
 src/Utils/hiopOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils/hiopOptions.cpp b/src/Utils/hiopOptions.cpp
index 46ed31a..670be4f 100644
--- a/src/Utils/hiopOptions.cpp
+++ b/src/Utils/hiopOptions.cpp
@@ -1365,7 +1365,7 @@ void hiopOptionsNLP::ensure_consistence()
 
   if(GetString("Hessian")=="quasinewton_approx") {
     string strKKT = GetString("KKTLinsys");
-    if(strKKT=="xycyd" || strKKT=="xdycyd" || strKKT=="full" || strKKT=="normaleqn") {
+    if(strKKT=="xycyd" || strKKT=="xdycyd" || strKKT=="full" || strKKT=="condensed" || strKKT=="normaleqn") {
       if(is_user_defined("Hessian")) {
         log_printf(hovWarning,
                    "The option 'KKTLinsys=%s' is not valid with 'Hessian=quasiNewtonApprox'. "
-- 
2.43.0


From bf485634c618643643e1c86d4cf51671e4726581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 52/83] fix: feasibility restoration ignored failures of the
 user's evaluation callbacks

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 +++++++
 src/Optimization/hiopFRProb.cpp       | 47 ++++++++++++++++++++-------
 src/Optimization/hiopFRProb.hpp       | 12 +++++++
 3 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 307e370..2cba312 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3119,6 +3119,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         hiopFRProbDense nlp_fr_interface(*this);
         nlpFR = new hiopNlpDenseConstraints(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(nlp_fr_interface.user_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
@@ -3131,6 +3135,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
         hiopFRProbSparse nlp_fr_interface(*this);
         nlpFR = new hiopNlpSparse(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
         fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+        if(nlp_fr_interface.user_eval_failed()) {
+          solver_status_ = Error_In_User_Function;
+          fr_solved = false;
+        }
         if(fr_solved) {
           nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
           // FR succeeds, update it_trial->x and it_trial->d to the next search point
@@ -3144,6 +3152,10 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
       hiopFRProbMDS nlp_fr_interface(*this);
       nlpFR = new hiopNlpMDS(nlp_fr_interface, nlp->options->GetString("options_file_fr_prob").c_str());
       fr_solved = solve_feasibility_restoration(kkt, *nlpFR);
+      if(nlp_fr_interface.user_eval_failed()) {
+        solver_status_ = Error_In_User_Function;
+        fr_solved = false;
+      }
       if(fr_solved) {
         nlp->log->printf(hovScalars, "FR problem provides sufficient reduction in primal feasibility!\n");
         // FR succeeds, update it_trial->x and it_trial->d to the next search point
diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index ea3f163..40c4d92 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -309,7 +309,9 @@ bool hiopFRProbSparse::eval_cons(const size_type& n,
 
   // evaluate c and d
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -369,7 +371,9 @@ bool hiopFRProbSparse::eval_Jac_cons(const size_type& n,
     wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, Jac_c, Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(Jac_c, Jac_d, iJacS, jJacS, MJacS);
@@ -404,7 +408,9 @@ bool hiopFRProbSparse::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -572,7 +578,10 @@ bool hiopFRProbSparse::iterate_callback(int iter,
   // evaluate c_body and d_body in base problem
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    user_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -966,7 +975,9 @@ bool hiopFRProbMDS::eval_cons(const size_type& n,
   wrk_primal_->copy_from_starting_at(x, 0, n_); // [xsp pe ne pi ni xde]
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
   // compute FR equality constratint body c-pe+ne
   wrk_eq_->copy_from_starting_at(x, pe_st_, m_eq_);     //pe
@@ -1037,7 +1048,9 @@ bool hiopFRProbMDS::eval_Jac_cons(const size_type& n,
      wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
 
     // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-    nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+    if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+      return false;
+    }
   }
 
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d, iJacS, jJacS, MJacS, JacD);
@@ -1206,7 +1219,10 @@ bool hiopFRProbMDS::iterate_callback(int iter,
   wrk_primal_->startingAtCopyToStartingAt(x_sp_st_, *wrk_x_, 0, n_x_sp_);       // x = [xsp xde]
   wrk_primal_->startingAtCopyToStartingAt(x_de_st_, *wrk_x_, n_x_sp_, n_x_de_); // x = [xsp xde]
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    user_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
@@ -1367,7 +1383,9 @@ bool hiopFRProbMDS::eval_Hess_Lagr(const size_type& n,
 
     double obj_factor = 0.0;
     // get Hess for the x part --- use original Hess as buffers
-    nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess);
+    if(!nlp_base_->eval_Hess_Lagr(*wrk_x_, new_x, obj_factor, *wrk_eq_, *wrk_ineq_, new_lambda, *Hess)) {
+      return false;
+    }
     
     // additional diag Hess for x:  zeta*DR^2
     wrk_x_->setToConstant(zeta_);
@@ -1667,7 +1685,9 @@ bool hiopFRProbDense::eval_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // evaluate base case c and d
-  nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, new_x, *wrk_c_, *wrk_d_)) {
+    return false;
+  }
 
 #ifdef HIOP_USE_MPI
   // p and n are only located in the last rank
@@ -1743,7 +1763,9 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
 
   // get Jac_c and Jac_d for the x part --- use original Jac_c/Jac_d as buffers
-  nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d); 
+  if(!nlp_base_->eval_Jac_c_d(*wrk_x_, new_x, *Jac_c, *Jac_d)) {
+    return false;
+  }
   
   // FIXME add set_Jac_FR in hiopMatrixDense
   Jac_cd_->set_Jac_FR(*Jac_c, *Jac_d);
@@ -1911,7 +1933,10 @@ bool hiopFRProbDense::iterate_callback(int iter,
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
   wrk_d_->copy_from_starting_at(s, 0, m_ineq_);
-  nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_);
+  if(!nlp_base_->eval_c_d(*wrk_x_, true, *wrk_cbody_, *wrk_dbody_)) {
+    user_eval_failed_ = true;
+    return false;
+  }
 
   // compute theta for base problem
   wrk_cbody_->axpy(-1.0, crhs);           // wrk_cbody_ = (c-crhs)
diff --git a/src/Optimization/hiopFRProb.hpp b/src/Optimization/hiopFRProb.hpp
index 50e51e2..c047536 100644
--- a/src/Optimization/hiopFRProb.hpp
+++ b/src/Optimization/hiopFRProb.hpp
@@ -179,6 +179,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if the evaluation of the base problem's constraints failed in the iterate callback
+  bool user_eval_failed() const { return user_eval_failed_; }
+
 private:
   size_type n_;
   size_type m_;
@@ -218,6 +221,7 @@ private:
   double mu_;
   double rho_;
   double obj_base_;
+  bool user_eval_failed_ = false;
 
   int pe_st_; // the 1st index of pe in the full primal space
   int ne_st_; // the 1st index of ne in the full primal space
@@ -349,6 +353,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if the evaluation of the base problem's constraints failed in the iterate callback
+  bool user_eval_failed() const { return user_eval_failed_; }
+
 private:
   size_type n_;
   size_type n_sp_;
@@ -396,6 +403,7 @@ private:
   double mu_;
   double rho_;
   double obj_base_;
+  bool user_eval_failed_ = false;
 
   int x_sp_st_; // the 1st index of x_sp in the full primal space
   int pe_st_; // the 1st index of pe in the full primal space
@@ -496,6 +504,9 @@ public:
   virtual const hiopVector& get_fr_sol_x ()  const { return *last_x_; }
   virtual const hiopVector& get_fr_sol_d ()  const { return *last_d_; }
 
+  /// true if the evaluation of the base problem's constraints failed in the iterate callback
+  bool user_eval_failed() const { return user_eval_failed_; }
+
 private:
   size_type n_;
   size_type m_;
@@ -530,6 +541,7 @@ private:
   double mu_;
   double rho_;
   double obj_base_;
+  bool user_eval_failed_ = false;
 
   index_type* col_partition_;
   MPI_Comm comm_;
-- 
2.43.0


From f3e9e89fdc53c44eb73798e3a375d3afd951b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 53/83] fix: a failing one-call Jacobian evaluation aborted
 instead of being reported

---
 src/Optimization/hiopNlpFormulation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index d2537b8..d56d712 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1855,6 +1855,12 @@ bool hiopNlpMDS::eval_Jac_c_d_interface_impl(hiopVector& x,
                                         pJac_d->n_sp(), pJac_d->n_de(), 
                                         nnz, cons_Jac->sp_irow(), cons_Jac->sp_jcol(), cons_Jac->sp_M(),
                                         cons_Jac->de_local_data());
+    if(!bret) {
+      // the buffer may not have been (completely) filled in
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
+
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
@@ -2084,6 +2090,12 @@ bool hiopNlpSparse::eval_Jac_c_d_interface_impl(hiopVector& x,
                                    nullptr, 
                                    cons_Jac->M());
 
+    if(!bret) {
+      // the buffer may not have been (completely) filled in
+      runStats.tmEvalJac_con.stop();
+      return false;
+    }
+
     //copy back to Jac_c and Jac_d
     pJac_c->copyRowsFrom(*cons_Jac, cons_eq_mapping_->local_data_const(), n_cons_eq_);
     pJac_d->copyRowsFrom(*cons_Jac, cons_ineq_mapping_->local_data_const(), n_cons_ineq_);
-- 
2.43.0


From a25f70387659718ed9629f6fa5682240a18e9377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 54/83] fix: a failed forced restoration was ignored by the
 Newton solver

---
 src/Optimization/hiopAlgFilterIPM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 2cba312..3035d6f 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2653,9 +2653,10 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         if(use_fr) {
           // continue iterations if FR is accepted
           solver_status_ = NlpSolve_Pending;
-          nlp->runStats.tmSolverInternal.stop();
-          break;
         }
+        // exit the linear solve (compute_search_direction) loop
+        nlp->runStats.tmSolverInternal.stop();
+        break;
       } else if(lsStatus==1) {
 
         //need to check switching cond and Armijo to decide if filter is augmented
-- 
2.43.0


From 257fd4c99232e8a871852391ee03305626183990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 55/83] fix: feasibility restoration ignored failures of the
 user's objective

---
 src/Optimization/hiopFRProb.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index 40c4d92..ff99a25 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -255,7 +255,9 @@ bool hiopFRProbSparse::eval_f(const size_type& n, const double* x, bool new_x, d
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
@@ -914,7 +916,9 @@ bool hiopFRProbMDS::eval_f(const size_type& n, const double* x, bool new_x, doub
   obj_value += rho_ * (wrk_primal_->sum_local() - wrk_x_->sum_local());
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
@@ -1636,7 +1640,9 @@ bool hiopFRProbDense::eval_f(const size_type& n, const double* x, bool new_x, do
 #endif
 
   // keep a copy of the original objective value at x (wrk_x_ is overwritten below)
-  nlp_base_->eval_f(*wrk_x_, new_x, obj_base_);
+  if(!nlp_base_->eval_f(*wrk_x_, new_x, obj_base_)) {
+    return false;
+  }
 
   // zeta/2*[DR*(x-x_ref)]^2
   wrk_x_->axpy(-1.0, *x_ref_);
-- 
2.43.0


From 65e2dd51d0607a4d3cfe7073defb5e763abde8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 56/83] fix: assertion in the restoration of problems without
 constraints

---
 src/Optimization/hiopFRProb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopFRProb.cpp b/src/Optimization/hiopFRProb.cpp
index ff99a25..3d721e0 100644
--- a/src/Optimization/hiopFRProb.cpp
+++ b/src/Optimization/hiopFRProb.cpp
@@ -1763,7 +1763,7 @@ bool hiopFRProbDense::eval_Jac_cons(const size_type& n,
   assert(Jac_c && Jac_d);
 
   // extend Jac to the p and n parts
-  assert(Jac != nullptr);
+  assert(Jac != nullptr || 0 == m);
   // get x for the original problem
   // FIXME; add global methed. now we only have local method
   wrk_x_->copy_from_starting_at(x, 0, n_x_);
-- 
2.43.0


From 346608d54003319c5a779144aafbc51850a81d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 57/83] fix: a failing first constraint evaluation left the
 problem in one-call mode

---
 src/Optimization/hiopNlpFormulation.cpp | 33 +++++++++++++++++++------
 src/Optimization/hiopNlpFormulation.hpp |  3 +++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index d56d712..7e30e60 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -443,13 +443,7 @@ bool hiopNlpFormulation::finalizeInitialization()
   }
 
   //reset/release info and data related to one-call constraints evaluation
-  cons_eval_type_ = -1;
-  
-  delete cons_body_;
-  cons_body_ = nullptr;
-  
-  delete cons_Jac_;
-  cons_Jac_ = NULL;
+  reset_cons_eval_type();
 
   delete cons_lambdas_;
   cons_lambdas_ = nullptr;
@@ -985,6 +979,7 @@ bool hiopNlpFormulation::eval_d(hiopVector& x, bool new_x, hiopVector& d)
 bool hiopNlpFormulation::eval_c_d(hiopVector& x, bool new_x, hiopVector& c, hiopVector& d)
 {
   bool do_eval_c = true;
+  const bool first_eval = -1 == cons_eval_type_;
   if(-1 == cons_eval_type_) {
     assert(cons_body_ == nullptr);
     assert(NULL == cons_Jac_);
@@ -1039,11 +1034,27 @@ bool hiopNlpFormulation::eval_c_d(hiopVector& x, bool new_x, hiopVector& c, hiop
     runStats.tmEvalCons.stop();
     runStats.nEvalCons_eq++;
     runStats.nEvalCons_ineq++;
+
+    if(!bret && first_eval) {
+      // none of the two ways of evaluating the constraints worked: decide at the next evaluation
+      this->reset_cons_eval_type();
+    }
     
     return bret;
   }
 }
 
+void hiopNlpFormulation::reset_cons_eval_type()
+{
+  cons_eval_type_ = -1;
+
+  delete cons_body_;
+  cons_body_ = nullptr;
+
+  delete cons_Jac_;
+  cons_Jac_ = nullptr;
+}
+
 bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac_c, hiopMatrix& Jac_d)
 {
   if((prob_type_==hiopInterfaceBase::hiopLinear || prob_type_==hiopInterfaceBase::hiopQuadratic)
@@ -1052,6 +1063,7 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
   }
 
   bool do_eval_Jac_c = true;
+  const bool first_eval = -1 == cons_eval_type_;
 
   if(-1 == cons_eval_type_) {
     assert(cons_body_ == nullptr);
@@ -1087,7 +1099,12 @@ bool hiopNlpFormulation::eval_Jac_c_d(hiopVector& x, bool new_x, hiopMatrix& Jac
     assert(cons_body_);
     assert(cons_Jac_);
     
-    return eval_Jac_c_d_interface_impl(x, new_x, Jac_c, Jac_d);
+    const bool bret = eval_Jac_c_d_interface_impl(x, new_x, Jac_c, Jac_d);
+    if(!bret && first_eval) {
+      // none of the two ways of evaluating the Jacobian worked: decide at the next evaluation
+      this->reset_cons_eval_type();
+    }
+    return bret;
   }
   return true;
 }
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 99ab580..1725251 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -397,6 +397,9 @@ protected:
    *  1 : at once
    */
   int cons_eval_type_;
+
+  /// Makes the way of evaluating the constraints undecided and releases the associated buffers
+  void reset_cons_eval_type();
   
   /** 
    * Internal buffer for constraints. Used only when constraints and Jacobian are evaluated at 
-- 
2.43.0


From ed380670db14304c949e6639584b6e54d6d4391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 58/83] fix: starting multipliers and slacks given by the user
 were not scaled

---
 src/Optimization/hiopAlgFilterIPM.cpp   | 14 ++++++++++-
 src/Optimization/hiopNlpFormulation.cpp | 32 +++++++++++++++++++++++++
 src/Optimization/hiopNlpFormulation.hpp |  8 +++++++
 3 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 3035d6f..1052a1e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -347,7 +347,19 @@ int hiopAlgFilterIPMBase::startingProcedure(hiopIterate& it_ini,
     return false;
   }
 
-  [[maybe_unused]] const bool do_nlp_scaling = nlp->apply_scaling(c, d, gradf, Jac_c, Jac_d);
+  const bool do_nlp_scaling = nlp->apply_scaling(c, d, gradf, Jac_c, Jac_d);
+  if(do_nlp_scaling) {
+    // the user provides multipliers and slacks of his/her problem
+    if(duals_avail) {
+      nlp->scale_user_duals(*it_ini.get_zl(), *it_ini.get_zu(), *it_ini.get_yc(), *it_ini.get_yd());
+    }
+    if(slacks_avail) {
+      nlp->scale_user_slacks(*it_ini.get_d());
+    }
+    if(warmstart_avail) {
+      nlp->scale_user_slack_duals(*it_ini.get_vl(), *it_ini.get_vu());
+    }
+  }
   
   nlp->runStats.tmSolverInternal.start();
   nlp->runStats.tmStartingPoint.start();
diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 7e30e60..f28110d 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1152,6 +1152,38 @@ void hiopNlpFormulation::unscale_duals(const hiopVector& z_L,
   cons_lambdas_->copy_from_two_vec_w_pattern(*temp_eq_, *cons_eq_mapping_, *temp_ineq_, *cons_ineq_mapping_);
 }
 
+void hiopNlpFormulation::scale_user_duals(hiopVector& z_L, hiopVector& z_U, hiopVector& y_c, hiopVector& y_d) const
+{
+  if(nlp_scaling_) {
+    // inverse of the transformations done in unscale_duals
+    const double obj_scale = this->get_obj_scale();
+    nlp_scaling_->apply_inv_to_cons_eq(y_c, n_cons_eq_);
+    nlp_scaling_->apply_inv_to_cons_ineq(y_d, n_cons_ineq_);
+    y_c.scale(obj_scale);
+    y_d.scale(obj_scale);
+    z_L.scale(obj_scale);
+    z_U.scale(obj_scale);
+  }
+}
+
+void hiopNlpFormulation::scale_user_slacks(hiopVector& d) const
+{
+  if(nlp_scaling_) {
+    nlp_scaling_->apply_to_cons_ineq(d, n_cons_ineq_);
+  }
+}
+
+void hiopNlpFormulation::scale_user_slack_duals(hiopVector& v_L, hiopVector& v_U) const
+{
+  if(nlp_scaling_) {
+    const double obj_scale = this->get_obj_scale();
+    nlp_scaling_->apply_inv_to_cons_ineq(v_L, n_cons_ineq_);
+    nlp_scaling_->apply_inv_to_cons_ineq(v_U, n_cons_ineq_);
+    v_L.scale(obj_scale);
+    v_U.scale(obj_scale);
+  }
+}
+
 void hiopNlpFormulation::unscale_cons(const hiopVector& c, const hiopVector& d)
 {
   if(temp_eq_ == nullptr) {
diff --git a/src/Optimization/hiopNlpFormulation.hpp b/src/Optimization/hiopNlpFormulation.hpp
index 1725251..3c5ae48 100644
--- a/src/Optimization/hiopNlpFormulation.hpp
+++ b/src/Optimization/hiopNlpFormulation.hpp
@@ -272,6 +272,14 @@ public:
   /// @brief return the scaling fact for objective
   double get_obj_scale() const;
 
+  /**
+   * Puts multipliers and slacks provided by the user (in the user's units) into the units of the scaled
+   * problem. These have no effect when no scaling is applied.
+   */
+  void scale_user_duals(hiopVector& z_L, hiopVector& z_U, hiopVector& y_c, hiopVector& y_d) const;
+  void scale_user_slacks(hiopVector& d) const;
+  void scale_user_slack_duals(hiopVector& v_L, hiopVector& v_U) const;
+
   /// @brief adjust variable/constraint bounds according to the given iteration.
   void adjust_bounds(const hiopIterate& it);
 
-- 
2.43.0


From 0696da352c6e1284446f28246a5395f5bdc80606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 59/83] fix: the elastic mode dropped the scaling of the
 inequality bounds

---
 src/Optimization/hiopNlpFormulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index f28110d..6d42b00 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -1533,6 +1533,11 @@ void hiopNlpFormulation::reset_bounds(double bound_relax_perturb)
 {
   prob_data_altered_ = true;
   relax_bounds_->relax_from_ori(bound_relax_perturb, *xl_, *xu_, *dl_, *du_);
+  // the original bounds of the inequalities are those of the user; the bounds in use are scaled
+  if(nlp_scaling_) {
+    dl_ = nlp_scaling_->apply_to_cons_ineq(*dl_, n_cons_ineq_);
+    du_ = nlp_scaling_->apply_to_cons_ineq(*du_, n_cons_ineq_);
+  }
 }
 
 /* ***********************************************************************************
-- 
2.43.0


From 50ad5ebb59c776167e0d0c69906ceb05e16bfee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 60/83] fix: the restoration problem printed option warnings
 before it was made silent

---
 src/Optimization/hiopAlgFilterIPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 1052a1e..dd04e19 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3207,13 +3207,13 @@ bool hiopAlgFilterIPMBase::apply_feasibility_restoration(hiopKKTLinSys* kkt)
 
 bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hiopNlpFormulation& nlpFR)
 {
+  nlpFR.options->SetIntegerValue("verbosity_level", 0);
   nlpFR.options->SetStringValue("Hessian", nlp->options->GetString("Hessian").c_str());
   nlpFR.options->SetStringValue("duals_update_type", "linear");
   nlpFR.options->SetStringValue("duals_init", "zero");
   nlpFR.options->SetStringValue("compute_mode", nlp->options->GetString("compute_mode").c_str());
   nlpFR.options->SetStringValue("mem_space", nlp->options->GetString("mem_space").c_str());
   nlpFR.options->SetStringValue("KKTLinsys", "xdycyd");
-  nlpFR.options->SetIntegerValue("verbosity_level", 0);
   nlpFR.options->SetStringValue("warm_start", "yes");
   nlpFR.options->SetNumericValue("bound_relax_perturb", 0.0);
   nlpFR.options->SetStringValue("scaling_type", "none");
-- 
2.43.0


From 2c6bc0e083642df1bc8970a6f1c3997b960e6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 61/83] fix: elastic mode with bound_relax_perturb=0
 dereferences a null bounds relaxer

---
 src/Optimization/hiopNlpFormulation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopNlpFormulation.cpp b/src/Optimization/hiopNlpFormulation.cpp
index 6d42b00..5510a16 100644
--- a/src/Optimization/hiopNlpFormulation.cpp
+++ b/src/Optimization/hiopNlpFormulation.cpp
@@ -431,7 +431,8 @@ bool hiopNlpFormulation::finalizeInitialization()
   //
   // relax bounds for simple bounds and constraints)
   //
-  if(options->GetNumeric("bound_relax_perturb") > 0.0) {
+  // (the elastic mode adjusts the relaxed bounds during the optimization, hence always needs the relaxer)
+  if(options->GetNumeric("bound_relax_perturb") > 0.0 || options->GetString("elastic_mode") != "none") {
     relax_bounds_ = new hiopBoundsRelaxer(this, *xl_, *xu_, *dl_, *du_);
     relax_bounds_->setup();
     if(options->GetString("elastic_mode") == "none") {
-- 
2.43.0


From 6e52959b672dd7080bbba578196a66e6e78af91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 62/83] fix: the C interface passes new_x to the objective and
 gradient callbacks

---
 src/Interface/chiopInterface.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Interface/chiopInterface.hpp b/src/Interface/chiopInterface.hpp
index d75dd56..5637dd3 100644
--- a/src/Interface/chiopInterface.hpp
+++ b/src/Interface/chiopInterface.hpp
@@ -144,13 +144,13 @@ public:
     };
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
@@ -331,13 +331,13 @@ class cppUserProblemSparse : public hiopInterfaceSparse
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob_->eval_f_(n, (double *) x, 0, &obj_value, cprob_->user_data_);
+      cprob_->eval_f_(n, (double *) x, new_x, &obj_value, cprob_->user_data_);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob_->eval_grad_f_(n, (double *) x, 0, gradf, cprob_->user_data_);
+      cprob_->eval_grad_f_(n, (double *) x, new_x, gradf, cprob_->user_data_);
 
       return true;
     };
@@ -516,13 +516,13 @@ public:
 
     bool eval_f(const size_type& n, const double* x, bool new_x, double& obj_value)
     {
-      cprob->eval_f(n, (double *) x, 0, &obj_value, cprob->user_data);
+      cprob->eval_f(n, (double *) x, new_x, &obj_value, cprob->user_data);
       return true;
     };
 
     bool eval_grad_f(const size_type& n, const double* x, bool new_x, double* gradf)
     {
-      cprob->eval_grad_f(n, (double *) x, 0, gradf, cprob->user_data);
+      cprob->eval_grad_f(n, (double *) x, new_x, gradf, cprob->user_data);
 
       return true;
     };
-- 
2.43.0


From 62aa9746b853794f21e1540876cafe7dbd1eafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 63/83] fix: the Fortran interface releases the starting point

---
 src/Interface/hiopFortranInterface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interface/hiopFortranInterface.c b/src/Interface/hiopFortranInterface.c
index c1953e2..68348d8 100644
--- a/src/Interface/hiopFortranInterface.c
+++ b/src/Interface/hiopFortranInterface.c
@@ -340,6 +340,7 @@ void FC_GLOBAL(deletehiopsparseprob, DELETEHIOPSPARSEPROB) (void** f_prob_in)
   free(f_prob->xupp_);
   free(f_prob->clow_);
   free(f_prob->cupp_);
+  free(f_prob->x0_);
   free(f_prob->c_prob_->solution_);
   free(f_prob->c_prob_);
   free(f_prob);
@@ -526,6 +527,7 @@ void FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB) (void** f_prob_in)
   free(f_prob->xupp);
   free(f_prob->clow);
   free(f_prob->cupp);
+  free(f_prob->x0);
   free(f_prob->c_prob->solution);
   free(f_prob->c_prob);
   free(f_prob);
-- 
2.43.0


From b61de894e2e63336a95059f2942e1f987cea0dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 64/83] fix: PriDec end signals are communicated from storage
 that outlives the request

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 9b3eea8..ade5aaa 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -104,16 +104,14 @@ namespace hiop
     void post_recv_end_signal(int tag, int rank_from, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int recv_sign = 0;
-      int ierr = MPI_Irecv(&recv_sign, 1, MPI_INT, rank_from, tag, comm, &request_);
+      int ierr = MPI_Irecv(&end_signal_, 1, MPI_INT, rank_from, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
     // only sende signal (that computation is finished), no actual functional information
     void post_send_end_signal(int tag, int rank_to, MPI_Comm comm)
     {
       assert(request_ == MPI_REQUEST_NULL);
-      int send_sign = 0;
-      int ierr = MPI_Isend(&send_sign, 1, MPI_INT, rank_to, tag, comm, &request_);
+      int ierr = MPI_Isend(&end_signal_, 1, MPI_INT, rank_to, tag, comm, &request_);
       assert(MPI_SUCCESS == ierr);
     }
 
@@ -143,6 +141,8 @@ namespace hiop
   private:
     int n_;
     hiopVector* buffer;
+    /// buffer of the end signal, which needs to outlive the nonblocking communication
+    int end_signal_ = 0;
   };
 
   /** This struct is used to post receive and request for contingency
-- 
2.43.0


From 0473e7debec975a22cd7f1485d4fa4c728f8af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 65/83] fix: hiopAlgPrimalDecomposition::getSolveStatus can be
 called by users

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 src/Optimization/hiopAlgPrimalDecomp.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index ade5aaa..f31d189 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -691,7 +691,7 @@ void hiopAlgPrimalDecomposition::getDualSolutions(double* zl, double* zu, double
   assert(false && "not implemented");
 }
 
-inline hiopSolveStatus hiopAlgPrimalDecomposition::getSolveStatus() const
+hiopSolveStatus hiopAlgPrimalDecomposition::getSolveStatus() const
 {
   return solver_status_;
 }
diff --git a/src/Optimization/hiopAlgPrimalDecomp.hpp b/src/Optimization/hiopAlgPrimalDecomp.hpp
index fee5bcd..6b7fe16 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.hpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.hpp
@@ -140,7 +140,7 @@ public:
   void getDualSolutions(double* zl, double* zu, double* lambda);
   
   /** returns the status of the solver */
-  inline hiopSolveStatus getSolveStatus() const;
+  hiopSolveStatus getSolveStatus() const;
   
   /** returns the number of iterations, meaning how many times the master was solved */
   int getNumIterations() const;
-- 
2.43.0


From f9b5ab9757063dc75459b9059476cb05b969bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 66/83] fix: PriDec HessianApprox uses the solver's
 communicator and does not leak its logger

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index f31d189..6b1e88a 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -199,8 +199,6 @@ HessianApprox(hiopInterfacePriDecProblem* priDecProb,
               MPI_Comm comm_world)
   : HessianApprox(-1, priDecProb, options_pridec, comm_world)
 {
-  comm_world_ = comm_world;
-  log_ = new hiopLogger(options_, stdout, 0, comm_world);
 }
 
 hiopAlgPrimalDecomposition::HessianApprox::
@@ -835,7 +833,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     double* grad_acc_vec = grad_acc->local_data();
 
     //hess_appx_2 is declared by all ranks while only rank 0 uses it
-    HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_);
+    HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_, comm_world_);
     hess_appx_2->set_alpha_min(alpha_min_);
     hess_appx_2->set_alpha_max(alpha_max_);
 
@@ -1320,7 +1318,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     //double* grad_acc_vec = grad_acc->local_data();
 
     //hess_appx_2 is declared by all ranks while only rank 0 uses it
-    HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_);
+    HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_, comm_world_);
     hess_appx_2->set_alpha_min(alpha_min_);
     hess_appx_2->set_alpha_max(alpha_max_);
 
@@ -1823,7 +1821,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   grad_r->setToZero();
 
   // hess_appx_2 has to be declared by all ranks while only rank 0 uses it
-  HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_);
+  HessianApprox* hess_appx_2 = new HessianApprox(nc_, alpha_ratio_, master_prob_, options_, comm_world_);
   hess_appx_2->set_alpha_min(alpha_min_);
   hess_appx_2->set_alpha_max(alpha_max_);
   
-- 
2.43.0


From 1649e96913725f279f4f0f3f0f30893a4afe83a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 67/83] fix: PriDec message on the acceptable tolerance has its
 arguments swapped

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 6b1e88a..5827de7 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -714,8 +714,8 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
   }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
-    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_count_);
-    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_tol_);
+    log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
+    log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
   return false;
-- 
2.43.0


From 9fd4eb3966af45b7a0eed70eb005aaa9d0eb1658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 68/83] fix: PriDec honours the order of the coupling indexes
 when all variables are coupled

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 50 ++++--------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 5827de7..e45d7eb 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1022,12 +1022,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         grad_acc->setToZero();
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1074,12 +1069,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1139,12 +1129,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1514,12 +1499,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         double aux=0.;
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
         for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
           aux = 0.;
           int idx_temp = cont_idx[ri];
@@ -1575,12 +1555,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             //grad_acc->setToZero();
 
             double aux=0.;
-            if(nc_<n_) {
-              x0->copy_from_indexes(*x_, *xc_idx_);
-            } else {
-              assert(nc_==n_);
-              x0->copyFromStarting(0, *x_);
-            }
+            x0->copy_from_indexes(*x_, *xc_idx_);
             for(int ri=0; ri<static_cast<int>(cont_idx.size()); ri++) {
               aux = 0.;
               int idx_temp = cont_idx[ri];
@@ -1662,12 +1637,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         
         hess_appx->setToConstant(1.0);
 
-        if(nc_<n_) {
-          x0->copy_from_indexes(*x_, *xc_idx_);
-        } else {
-          assert(nc_==n_);
-          x0->copyFromStarting(0, *x_);
-        }
+        x0->copy_from_indexes(*x_, *xc_idx_);
 
         if(it==0) {
           hess_appx_2->initialize(rval, *x0, *grad_r);
@@ -1865,13 +1835,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
     }
     // The number of contigencies should be larger than the number of processors, which is 1
     // idx is the next contingency to be sent out from the master
-    if(nc_<n_) {
-      //printf("xc_idx %d ",xc_idx_[0]);
-      x0->copy_from_indexes(*x_, *xc_idx_);
-    } else {
-      assert(nc_==n_);
-      x0->copyFromStarting(0, *x_);
-    }
+    x0->copy_from_indexes(*x_, *xc_idx_);
     for(int i=0; i< static_cast<int>(S_);i++) {
       int idx_temp = cont_idx[i];
       double aux=0.;
-- 
2.43.0


From 051b4968652e9bf9aff32781b3ae497a52caa747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:31 +0000
Subject: [PATCH 69/83] fix: PriDec with local accumulation reports the
 objective with its recourse part

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index e45d7eb..c933962 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1633,6 +1633,8 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         rval /= S_;
         grad_r->scale(1.0/S_);
 
+        recourse_val = rval;
+
         log_->printf(hovSummary, "real rval %18.12e\n", rval);
         
         hess_appx->setToConstant(1.0);
-- 
2.43.0


From 9157ee2382848866d1113d8b4cf133e2c51ab074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 70/83] fix: PriDec workers complete their last send before
 releasing its buffer

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index c933962..7d6b7cc 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1105,6 +1105,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
             // ierr = MPI_Irecv(&cont_idx[0], 1, MPI_INT, rank_master, 1, comm_world_, &request_[0]);
           }
         }
+        rec_prob[my_rank_]->wait(); // complete the last send before its buffer is released
       }
 
       if(my_rank_==0) {
@@ -1595,6 +1596,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           }
         }
+        rec_prob[my_rank_]->wait(); // complete the last send before its buffer is released
         //rval = rec_val;
         //grad_r->copyFrom(grad_acc_vec);
       }
-- 
2.43.0


From 793c0d172940361b8a947b49d03878a7162d6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 71/83] fix: PriDec returns its true status, the same on every
 rank

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 42 +++++++++++++-----------
 src/Optimization/hiopAlgPrimalDecomp.hpp |  2 +-
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 7d6b7cc..e43ff69 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -706,18 +706,22 @@ bool hiopAlgPrimalDecomposition::stopping_criteria(const int it, const double co
     log_->printf(hovSummary,"reaching error tolerance, successfully found solution\n"); 
     return true;
   }
-  // stopping criteria based on the change in objective function
-  if(it == max_iter_-1) {
-    log_->printf(hovSummary, "reached maximum iterations, optimization stops.\n");
-
-    return true;
-  }
   // stopping criteria based on acceptable tolerance and consecutive count
   if(accp_count == accp_count_) {
     log_->printf(hovSummary, "reached acceptable tolerance of %18.12e", accp_tol_);
     log_->printf(hovSummary, " for %d iterations, optimization stops.\n", accp_count_);
     return true;
   }
+  // stopping criteria based on the number of iterations
+  if(it == max_iter_-1) {
+    log_->printf(hovSummary, "reached maximum iterations, optimization stops.\n");
+    // the status of the last master solve does not tell whether the algorithm converged
+    if(solver_status_ == Solve_Success || solver_status_ == Solve_Success_RelTol ||
+       solver_status_ == Solve_Acceptable_Level) {
+      solver_status_ = Max_Iter_Exceeded;
+    }
+    return true;
+  }
   return false;
 }
   
@@ -1214,8 +1218,12 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       if(stopping_criteria(it, convg, accp_count)) {
         end_signal = 1; 
       }
-      ierr = MPI_Bcast(&end_signal, 1, MPI_INT, rank_master, comm_world_);
+      // the master rank decides when to stop and with what status
+      int signal_and_status[2] = {end_signal, static_cast<int>(solver_status_)};
+      ierr = MPI_Bcast(signal_and_status, 2, MPI_INT, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
+      end_signal = signal_and_status[0];
+      solver_status_ = static_cast<hiopSolveStatus>(signal_and_status[1]);
       
       for(auto it : rec_prob) {
         delete it;
@@ -1238,11 +1246,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     delete hess_appx_2;
     delete evaluator;
     
-    if(my_rank_==0) {
-      return solver_status_;
-    } else {
-      return Solve_Success;    
-    }
+    return solver_status_;
   }
 
   /**
@@ -1725,8 +1729,12 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
       if(stopping_criteria(it, convg, accp_count)) {
         end_signal = 1; 
       }
-      ierr = MPI_Bcast(&end_signal, 1, MPI_INT, rank_master, comm_world_);
+      // the master rank decides when to stop and with what status
+      int signal_and_status[2] = {end_signal, static_cast<int>(solver_status_)};
+      ierr = MPI_Bcast(signal_and_status, 2, MPI_INT, rank_master, comm_world_);
       assert(ierr == MPI_SUCCESS);
+      end_signal = signal_and_status[0];
+      solver_status_ = static_cast<hiopSolveStatus>(signal_and_status[1]);
       
       for(auto it : rec_prob) {
         delete it;
@@ -1750,11 +1758,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     delete hess_appx_2;
     delete evaluator;
     
-    if(my_rank_==0) {
-      return solver_status_;
-    } else {
-      return Solve_Success;    
-    }
+    return solver_status_;
   }
 
 #else
@@ -1953,7 +1957,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   delete x0;
   delete hess_appx_2;
   delete evaluator;
-  return Solve_Success;    
+  return solver_status_;
 }
 
 }//end namespace
diff --git a/src/Optimization/hiopAlgPrimalDecomp.hpp b/src/Optimization/hiopAlgPrimalDecomp.hpp
index 6b7fe16..f958c73 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.hpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.hpp
@@ -404,7 +404,7 @@ private:
 
   /// pointer to the master problem to be solved (passed as argument)
   hiopInterfacePriDecProblem* master_prob_;
-  hiopSolveStatus solver_status_;
+  hiopSolveStatus solver_status_ = SolveInitializationError;
   
   /// current primal iterate
   hiopVector* x_;
-- 
2.43.0


From 9b2aacc838bb11d14708b66455bb8a906ba7f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 72/83] fix: PriDec on one rank honours verbosity_level

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index e43ff69..5ee5332 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1779,7 +1779,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run()
  */
 hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
 {
-  printf("total number of recourse problems  %lu\n", S_);
+  log_->printf(hovSummary, "total number of recourse problems  %lu\n", S_);
   // initial point for now set to all zero
   x_->setToZero();
       
-- 
2.43.0


From 6c0a8a2336968bd5491ee0987fd43d2043be9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 73/83] fix: PriDec reports recourse terms that cannot be
 evaluated instead of using their values

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 65 ++++++++++++++++++++----
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index 5ee5332..dfbc570 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -855,6 +855,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     double convg_f = 1e20;
     int accp_count = 0;
 
+    int rterm_failed = 0; // whether the user failed to evaluate a recourse term on this rank
     int end_signal = 0;
     double t1 = 0;
     double t2 = 0; 
@@ -1033,7 +1034,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); // solving the recourse problem
           if(!bret) {
-              //TODO
+            rterm_failed = 1;
           }
           rec_val += aux;
         }
@@ -1045,7 +1046,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           int idx_temp = cont_idx[ri];
           bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
           if(!bret) {
-            //TODO
+            rterm_failed = 1;
           }
           grad_acc->axpy(1.0, *grad_aux);
         }
@@ -1080,7 +1081,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               
               bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
               if(!bret) {
-              //TODO
+                rterm_failed = 1;
               }
               rec_val += aux;
             }
@@ -1091,7 +1092,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               int idx_temp = cont_idx[ri];
               bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
               if(!bret) {
-                //TODO
+                rterm_failed = 1;
               }
               grad_acc->axpy(1.0, *grad_aux);
             }
@@ -1112,6 +1113,24 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         rec_prob[my_rank_]->wait(); // complete the last send before its buffer is released
       }
 
+      // a failure of the user to evaluate a recourse term ends the optimization on all the ranks
+      int any_rterm_failed = 0;
+      ierr = MPI_Allreduce(&rterm_failed, &any_rterm_failed, 1, MPI_INT, MPI_MAX, comm_world_);
+      assert(ierr == MPI_SUCCESS);
+      if(any_rterm_failed) {
+        log_->printf(hovError, "error in evaluating the recourse terms, optimization stops.\n");
+        solver_status_ = Error_In_User_Function;
+        for(auto it : rec_prob) {
+          it->wait();
+          delete it;
+        }
+        for(auto it : req_cont_idx) {
+          it->wait();
+          delete it;
+        }
+        break;
+      }
+
       if(my_rank_==0) {
         for(int r=1; r<comm_size_;r++) {
           rec_prob[r]->wait();
@@ -1326,6 +1345,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
     double convg_f = 1e20;
     int accp_count = 0;
 
+    int rterm_failed = 0; // whether the user failed to evaluate a recourse term on this rank
     int end_signal = 0;
     double t1 = 0;
     double t2 = 0; 
@@ -1511,7 +1531,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); // solving the recourse problem
           if(!bret) {
-              //TODO
+            rterm_failed = 1;
           }
           //rec_val += aux;
           rval += aux;
@@ -1524,7 +1544,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
           int idx_temp = cont_idx[ri];
           bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
           if(!bret) {
-            //TODO
+            rterm_failed = 1;
           }
           //grad_acc->axpy(1.0, *grad_aux);
           grad_r->axpy(1.0, *grad_aux);
@@ -1567,7 +1587,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               
               bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
               if(!bret) {
-              //TODO
+                rterm_failed = 1;
               }
               //rec_val += aux;
               rval += aux;
@@ -1579,7 +1599,7 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
               int idx_temp = cont_idx[ri];
               bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
               if(!bret) {
-                //TODO
+                rterm_failed = 1;
               }
               //grad_acc->axpy(1.0, *grad_aux);
               grad_r->axpy(1.0, *grad_aux);
@@ -1605,6 +1625,24 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
         //grad_r->copyFrom(grad_acc_vec);
       }
 
+      // a failure of the user to evaluate a recourse term ends the optimization on all the ranks
+      int any_rterm_failed = 0;
+      ierr = MPI_Allreduce(&rterm_failed, &any_rterm_failed, 1, MPI_INT, MPI_MAX, comm_world_);
+      assert(ierr == MPI_SUCCESS);
+      if(any_rterm_failed) {
+        log_->printf(hovError, "error in evaluating the recourse terms, optimization stops.\n");
+        solver_status_ = Error_In_User_Function;
+        for(auto it : rec_prob) {
+          it->wait();
+          delete it;
+        }
+        for(auto it : req_cont_idx) {
+          it->wait();
+          delete it;
+        }
+        break;
+      }
+
       if(my_rank_==0) {
         assert(rval == 0);
         for(int i=0; i<static_cast<int>(nc_); i++ ) {
@@ -1814,6 +1852,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
   double convg_f = 1e20;
   double convg_g = 1e20;
   int accp_count = 0;
+  int rterm_failed = 0; // whether the user failed to evaluate a recourse term
 
   std::string options_file_master_prob;
 
@@ -1849,7 +1888,7 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       double aux=0.;
       bret = master_prob_->eval_f_rterm(idx_temp, nc_, x0_vec, aux); //need to add extra time here
       if(!bret) {
-        //TODO
+        rterm_failed = 1;
       }
       rval += aux;
       // assert("for debugging" && false); //for debugging purpose
@@ -1860,12 +1899,18 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       // double grad_aux[nc_];
       bret = master_prob_->eval_grad_rterm(idx_temp, nc_, x0_vec, *grad_aux);
       if(!bret) {
-          //TODO
+        rterm_failed = 1;
       }
       grad_r->axpy(1.0,*grad_aux);
       delete grad_aux;
     }     
 
+    if(rterm_failed) {
+      log_->printf(hovError, "error in evaluating the recourse terms, optimization stops.\n");
+      solver_status_ = Error_In_User_Function;
+      break;
+    }
+
     rval /= S_;
     grad_r->scale(1.0/S_);
 
-- 
2.43.0


From adb30796dd2f00d17571e3cdcec7d355117c302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 74/83] fix: PriDec measures convergence with the model that
 was solved

---
 src/Optimization/hiopAlgPrimalDecomp.cpp | 39 +++++++++++++-----------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/Optimization/hiopAlgPrimalDecomp.cpp b/src/Optimization/hiopAlgPrimalDecomp.cpp
index dfbc570..092f609 100644
--- a/src/Optimization/hiopAlgPrimalDecomp.cpp
+++ b/src/Optimization/hiopAlgPrimalDecomp.cpp
@@ -1170,18 +1170,20 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           //hess_appx_2->update_ratio();
           hess_appx_2->update_ratio(base_val, base_valm1);
-          
+
+          // the convergence measures are those of the model just solved, hence computed before alpha changes
+          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
+          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
+          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
+          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
+          convg = std::min(convg_f,convg_g);
+
           double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
           //double alp_temp = hess_appx_2->get_alpha_tr();
           
           //double alp_temp2 = hess_appx_2->get_alpha_BB();
           log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
           // log_->printf(hovSummary, "alpd BB %18.12e\n", alp_temp2);
-          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
-          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
-          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
-          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
-          convg = std::min(convg_f,convg_g);
           hess_appx->setToConstant(alp_temp);
 
         }
@@ -1700,18 +1702,20 @@ void hiopAlgPrimalDecomposition::set_local_accum(const std::string local_accum)
 
           //hess_appx_2->update_ratio();
           hess_appx_2->update_ratio(base_val, base_valm1);
-          
+
+          // the convergence measures are those of the model just solved, hence computed before alpha changes
+          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
+          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
+          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
+          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
+          convg = std::min(convg_f,convg_g);
+
           double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
           //double alp_temp = hess_appx_2->get_alpha_tr();
           
           //double alp_temp2 = hess_appx_2->get_alpha_BB();
           log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
           // log_->printf(hovSummary, "alpd BB %18.12e\n", alp_temp2);
-          convg_g = hess_appx_2->check_convergence_grad(*grad_r);
-          log_->printf(hovSummary,"gradient convergence measure %18.12e\n", convg_g);
-          convg_f = hess_appx_2->check_convergence_fcn(base_val, base_valm1);
-          log_->printf(hovSummary,"function val convergence measure %18.12e\n", convg_f);
-          convg = std::min(convg_f,convg_g);
           hess_appx->setToConstant(alp_temp); 
 
         }
@@ -1935,11 +1939,8 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       
       // hess_appx_2->update_ratio();
       hess_appx_2->update_ratio(base_val, base_valm1);
-      
-      double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
-      // double alp_temp = hess_appx_2->get_alpha_tr();
-      log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
-      
+
+      // the convergence measures are those of the model just solved, hence computed before alpha changes
       convg_g = hess_appx_2->check_convergence_grad(*grad_r);
 
       log_->printf(hovSummary, "convergence measure %18.12e\n", convg_g);
@@ -1949,6 +1950,10 @@ hiopSolveStatus hiopAlgPrimalDecomposition::run_single()
       log_->printf(hovSummary, "function val convergence measure %18.12e\n", convg_f);
      
       convg = std::min(convg_f,convg_g);
+
+      double alp_temp = hess_appx_2->get_alpha_f(*grad_r);
+      // double alp_temp = hess_appx_2->get_alpha_tr();
+      log_->printf(hovSummary, "alpd %18.12e\n", alp_temp);
       hess_appx->setToConstant(alp_temp);
     }
 
-- 
2.43.0


From c1d4634fd7fb46ba970092c47908fa82235b78ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 75/83] fix: the MDS KKT system does not compute the slack
 diagonal used by the inertia-free curvature test

---
 src/Optimization/hiopKKTLinSysMDS.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Optimization/hiopKKTLinSysMDS.cpp b/src/Optimization/hiopKKTLinSysMDS.cpp
index 40830c1..f5fb218 100644
--- a/src/Optimization/hiopKKTLinSysMDS.cpp
+++ b/src/Optimization/hiopKKTLinSysMDS.cpp
@@ -157,6 +157,11 @@ namespace hiop
     Dx_->axdzpy_w_pattern(1.0, *iter->zu, *iter->sxu, nlp_->get_ixu());
     nlp_->log->write("Dx in KKT", *Dx_, hovMatrices);
 
+    //Dd=(Sdl)^{-1}Vu + (Sdu)^{-1}Vu (used by the curvature test of the inertia-free acceptor)
+    Dd_->setToZero();
+    Dd_->axdzpy_w_pattern(1.0, *iter->vl, *iter->sdl, nlp_->get_idl());
+    Dd_->axdzpy_w_pattern(1.0, *iter->vu, *iter->sdu, nlp_->get_idu());
+
     nlp_->runStats.kkt.tmUpdateInit.stop();
 
     //
-- 
2.43.0


From e54b908c84e30dd8d11d0f679901992a5de7f817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 76/83] fix: quasi-Newton normal matrix is left unsymmetric
 when V is ill-conditioned

---
 src/Optimization/hiopHessianLowRank.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index 4b2700a..e5066b3 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -617,6 +617,10 @@ symMatTimesInverseTimesMatTrans(double beta,
   Y2.copyFromMatrixBlock(S2Y2, 0, l);
   Y1.timesMatTrans_local(1.0, W, alpha, Y2);
 
+  //the result is symmetric, but the products above are not computed symmetrically and their rounding errors
+  //are amplified by the condition number of V
+  W.symmetrize();
+
   //nlp->log->write("symMatTimesInverseTimesMatTrans: Y1 is : ", Y1, hovMatrices);
   //nlp->log->write("symMatTimesInverseTimesMatTrans: Y2 is : ", Y2, hovMatrices);
   //nlp->log->write("symMatTimesInverseTimesMatTrans: W is : ", W, hovMatrices);
-- 
2.43.0


From 3049d4493867e86027e2dc2d8c1f24b7d098b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:08 +0000
Subject: [PATCH 77/83] fix: quasi-Newton product is NaN when rounding makes
 s'Bs nonpositive

---
 src/Optimization/hiopHessianLowRank.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopHessianLowRank.cpp b/src/Optimization/hiopHessianLowRank.cpp
index e5066b3..07f19d9 100644
--- a/src/Optimization/hiopHessianLowRank.cpp
+++ b/src/Optimization/hiopHessianLowRank.cpp
@@ -1038,7 +1038,12 @@ timesVecCmn(double beta, hiopVector& y, double alpha, const hiopVector& x, bool
       a[k]->axpy(-aiTsk, *a[i]);
     }
     double skTak = a[k]->dotProductWith(*sk);
-    a[k]->scale(1/sqrt(skTak));
+    // positive, except for rounding errors, in which case there is no curvature along sk to be removed
+    if(skTak > std::numeric_limits<double>::min()) {
+      a[k]->scale(1/sqrt(skTak));
+    } else {
+      a[k]->setToZero();
+    }
   }
 
   //now we have B= B_0 + sum{ bk bk' - ak ak' : k=0,1,...,l_curr-1} 
-- 
2.43.0


From 4100e8ac16eca2fec25f11dd2c7d2f31267b08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 78/83] fix: soft restoration divides by zero slacks

---
 src/Optimization/hiopAlgFilterIPM.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index dd04e19..3883c65 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3360,6 +3360,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
 
   bool bret = false;
   bool trial_in_filter = true;
+  int num_adjusted_slacks = 0;
 
   while(num_soft_fr < max_soft_fr_iter) {
     // solve for search directions
@@ -3393,7 +3394,7 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     // Compute trial point
     bret = it_trial->takeStep_primals(*it_curr, *soft_dir, alpha_primal_soft, alpha_dual_soft); 
     assert(bret);
-    it_trial->determineSlacks(); // TODO: adjust small slacks in soft FR?
+    num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
     
     //evaluate the problem at the trial iterate (functions only)
     if(!this->evalNlp_funcOnly(*it_trial, _f_nlp_trial, *_c_trial, *_d_trial)) {
@@ -3436,6 +3437,12 @@ bool hiopAlgFilterIPMBase::solve_soft_feasibility_restoration(hiopKKTLinSys* kkt
     _alpha_primal = alpha_primal_soft;
     _alpha_dual = alpha_dual_soft;
 
+    // adjust bounds if necessary
+    if(num_adjusted_slacks > 0) {
+      nlp->log->printf(hovWarning, "%d slacks are too small. Adjust corresponding variable slacks!\n", num_adjusted_slacks);
+      nlp->adjust_bounds(*it_trial);
+    }
+
     // the derivatives are needed at the new point
     if(!this->evalNlp_derivOnly(*it_trial, *_grad_f, *_Jac_c, *_Jac_d, *_Hess_Lagr)) {
       solver_status_ = Error_In_User_Function;
-- 
2.43.0


From fc459b4f7a0d29afbb1c01f5b3ee4dcf1044c8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:42 +0000
Subject: [PATCH 79/83] fix: linsol_mode=forcequick: take the step of the step
 length reported when the smallest one is reached

---
 src/Optimization/hiopAlgFilterIPM.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 3883c65..29cd5cd 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -2544,6 +2544,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
       //
       // linesearch loop
       //
+      bool last_trial = false;
       double min_ls_step_size = nlp->options->GetNumeric("min_step_size");
       while(true) {
         nlp->runStats.tmSolverInternal.start(); //---
@@ -2552,17 +2553,20 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         // fractionToTheBdry since these may occur for tight bounds at the first iteration(s)
         if(!iniStep && _alpha_primal<min_ls_step_size) {
 
-          if(linsol_safe_mode_on) {
-            nlp->log->write("Minimum step size reached. The problem may be locally infeasible or the "
-                            "gradient inaccurate. Will try to restore feasibility.",
-                            hovError);
-            solver_status_ = Steplength_Too_Small;
+          lsStatus = 0;
+          if(linsol_forcequick && !linsol_safe_mode_on) {
+            // (silently) take the (small) step: the trial point needs to be the one of this step
+            last_trial = true;
           } else {
-            // (silently) take the step if not under safe mode
-            lsStatus = 0;
+            if(linsol_safe_mode_on) {
+              nlp->log->write("Minimum step size reached. The problem may be locally infeasible or the "
+                              "gradient inaccurate. Will try to restore feasibility.",
+                              hovError);
+              solver_status_ = Steplength_Too_Small;
+            }
+            nlp->runStats.tmSolverInternal.stop();
+            break;
           }
-          nlp->runStats.tmSolverInternal.stop();
-          break;
         }
         bret = it_trial->takeStep_primals(*it_curr, *dir, _alpha_primal, _alpha_dual); assert(bret);
         num_adjusted_slacks = it_trial->compute_safe_slacks(*it_curr, _mu);
@@ -2589,7 +2593,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                          "theta:(%22.16e)>%22.16e\n",
                          lsNum, _alpha_primal, logbar->f_logbar, logbar->f_logbar_trial, theta, theta_trial);
 
-        if(disableLS) {
+        if(disableLS || last_trial) {
           nlp->runStats.tmSolverInternal.stop();
           break;
         }
-- 
2.43.0


From 341ae51327520e2833e9699bf347a589e094a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:13 +0000
Subject: [PATCH 80/83] fix: an accepted second-order correction no longer
 overwrites the residual of the current iterate

---
 src/Optimization/hiopAlgFilterIPM.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 29cd5cd..88702bd 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3099,7 +3099,6 @@ int hiopAlgFilterIPMBase::apply_second_order_correction(hiopKKTLinSys* kkt,
       _alpha_primal = alpha_primal_soc;
       _alpha_dual = alpha_dual_soc;
       dir->copyFrom(*soc_dir);
-      resid->copyFrom(*resid_trial);
       break;
     } else {
       num_soc++;
-- 
2.43.0


From 5709381ee62e344e682ee6760dc8ec7ce15b3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 81/83] fix: the bounds are not adjusted to the slacks of a
 trial point that the line search abandons

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 88702bd..4b1208e 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1320,6 +1320,8 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                         hovError);
         solver_status_ = Steplength_Too_Small;
 
+        //the trial point is abandoned: the bounds should not follow its slacks
+        num_adjusted_slacks = 0;
         nlp->runStats.tmSolverInternal.stop();
         break;
       }
@@ -2564,6 +2566,8 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                               hovError);
               solver_status_ = Steplength_Too_Small;
             }
+            //the trial point is abandoned: the bounds should not follow its slacks
+            num_adjusted_slacks = 0;
             nlp->runStats.tmSolverInternal.stop();
             break;
           }
-- 
2.43.0


From 8a64b619945d2cc07e9f61ce2b2117b1506c6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 82/83] fix: the line search no longer overwrites the residual
 of the current iterate with that of the trial point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 4b1208e..1cec3a2 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -1342,7 +1342,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
       nlp->runStats.tmSolverInternal.start(); //---
 
       //compute infeasibility theta at trial point.
-      infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+      infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 
       lsNum++;
 
@@ -1384,7 +1384,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
         if(lsStatus>0) {
           num_adjusted_slacks = num_adjusted_slacks_soc;
           //the trial point is now the corrected one
-          infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+          infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
           grad_phi_dx_computed = grad_phi_dx_soc_computed;
           grad_phi_dx = grad_phi_dx_soc;
           use_soc = 1;
@@ -1415,7 +1415,7 @@ hiopSolveStatus hiopAlgFilterIPMQuasiNewton::run()
                        num_adjusted_slacks);
       nlp->adjust_bounds(*it_trial);
       //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
-      [[maybe_unused]] const double theta_temp = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+      [[maybe_unused]] const double theta_temp = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 #ifndef NDEBUG
         if(0==use_soc) {
           // TODO: check why this assertion fails
@@ -2589,7 +2589,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
         nlp->runStats.tmSolverInternal.start(); //---
 
         //compute infeasibility theta at trial point.
-        infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+        infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 
         lsNum++;
 
@@ -2626,7 +2626,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
           if(lsStatus>0) {
             num_adjusted_slacks = num_adjusted_slacks_soc;
             //the trial point is now the corrected one
-            infeas_nrm_trial = theta_trial = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+            infeas_nrm_trial = theta_trial = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
             grad_phi_dx_computed = grad_phi_dx_soc_computed;
             grad_phi_dx = grad_phi_dx_soc;
             use_soc = 1;
@@ -2657,7 +2657,7 @@ hiopSolveStatus hiopAlgFilterIPMNewton::run()
                          num_adjusted_slacks);
         nlp->adjust_bounds(*it_trial);
         //compute infeasibility theta at trial point, since bounds changed --- note that the returned value won't change
-        [[maybe_unused]] const double theta_temp = resid->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
+        [[maybe_unused]] const double theta_temp = resid_trial->compute_nlp_infeasib_onenorm(*it_trial, *_c_trial, *_d_trial);
 #ifndef NDEBUG
         if(0==use_soc) {
           // TODO: check why this assertion fails
-- 
2.43.0


From ea2c708bea0e44612c5dbc0c745b88b20d09bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 83/83] fix: no verdict of infeasibility from a restoration
 that started at an almost feasible point

---
 src/Optimization/hiopAlgFilterIPM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Optimization/hiopAlgFilterIPM.cpp b/src/Optimization/hiopAlgFilterIPM.cpp
index 1cec3a2..7d6facd 100644
--- a/src/Optimization/hiopAlgFilterIPM.cpp
+++ b/src/Optimization/hiopAlgFilterIPM.cpp
@@ -3246,8 +3246,8 @@ bool hiopAlgFilterIPMBase::solve_feasibility_restoration(hiopKKTLinSys* kkt, hio
     // FR succeeds
     return true;
   } else if(FR_status == Solve_Success || FR_status == Solve_Acceptable_Level) {
-    if(theta_ref <= nlp->options->GetNumeric("tolerance")) {
-      // the current point is feasible, there is no evidence of infeasibility
+    if(theta_ref <= 1e2*nlp->options->GetNumeric("tolerance")) {
+      // the current point is (almost) feasible, there is no evidence of infeasibility
       solver_status_ = Steplength_Too_Small;
     } else {
       solver_status_ = Infeasible_Problem;
-- 
2.43.0

