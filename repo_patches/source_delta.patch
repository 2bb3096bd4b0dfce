From 14ceae38eff7013331f7811533055eaf19e47f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 01/66] fix: elitist re-injection could overwrite a candidate
 better than the reference

---
 src/esostrategy.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..2fa78b6 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -136,7 +136,14 @@ namespace libcmaes
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // the reference replaces the worst candidate, so that no improving candidate is lost.
+	    int worst = 0;
+	    for (int r=1;r<candidates.cols();r++)
+	      {
+		if (_solutions._candidates.at(r).get_fvalue() > _solutions._candidates.at(worst).get_fvalue())
+		  worst = r;
+	      }
+	    _solutions._candidates.at(worst) = ref_candidate;
 	  }
       }
     
-- 
2.43.0


From 7562c642c597965754e2881186a5755a32733c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 02/66] fix: set_elitism(0) did not deactivate elitism

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..9180b94 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From 43ef60304ea2413f3b55e80f355df6db70e18dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 03/66] fix: set_stopping_criteria ignored later calls for the
 same criterion

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 9180b94..52ad309 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From 388a8c09250b78ab45a2c9c4a393d62f78e89dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 04/66] fix: set_fixed_p ignored a new value for an already
 fixed parameter

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..8603a1d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From 9651d8856058c8fa1d1d196fb323b891ad681c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 05/66] fix: set_seed tested the previous seed instead of its
 argument

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index 8603a1d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 09074be86820e1b636aba4220eaa6f98923fa7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 06/66] fix: uncertainty handling compared rank sums with a
 wrong term

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 2fa78b6..41824ad 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -305,7 +305,7 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
 		    if (c1._delta == c2._delta)
-- 
2.43.0


From f269509d515e438daf48eb08c4b6f4978023f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:47 +0000
Subject: [PATCH 07/66] fix: geno() of unbounded linear scaling returned
 uninitialized values

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3f8c9b6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -311,7 +311,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 4581284843e6552e20924436e995307174fa5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:58 +0000
Subject: [PATCH 08/66] fix: algorithm names sepaipop and sepabipop were
 unknown

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 52ad309..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From 4f4573b5dceb2ab1140eb847e743bd9c1aa22cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:59 +0000
Subject: [PATCH 09/66] fix: numerical gradient stepped outside the bounds when
 parameters are scaled

---
 include/libcmaes/genopheno.h | 2 +-
 src/esostrategy.cc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3f8c9b6..ca99c2d 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -358,7 +358,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 41824ad..317761e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -182,7 +182,7 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
+	ei1(i,0) = std::min(ei1(i,0),_parameters._gp.get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-- 
2.43.0


From 057ba5116bea383a82c70515c97667a77347cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:17 +0000
Subject: [PATCH 10/66] fix: uncertainty handling re-evaluated points outside
 the bounds

---
 src/esostrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 317761e..96b7306 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -355,13 +355,13 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	if (phenocandidates.size()) // mutation applies to the genotype, so that bounds and scaling hold for the mutated points.
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From ad74ebf62d78899a453942c6c16252b409398b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 11/66] fix: bound transform returned infeasible points for
 points far outside the bounds

---
 src/pwq_bound_strategy.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..6faf8f6 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,6 +27,8 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <algorithm>
+#include <cmath>
 #include <limits>
 #include <iostream>
 
@@ -97,14 +99,17 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] += _r[i] * (1.0 + std::floor((_xlow[i]-x_s[i])/_r[i])); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] -= _r[i] * (1.0 + std::floor((x_s[i]-_xup[i])/_r[i])); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
 	  x_s[i] -= 2.0 * (x_s[i] - _ubounds[i] - _au[i]);
 
+	// points very far from the bounds may still be off, due to the limited precision of the shift.
+	x_s[i] = std::min(std::max(x_s[i],_lbounds[i] - _al[i]),_ubounds[i] + _au[i]);
+
 	if ((x_s[i] < _lbounds[i] - _al[i] - 1e-15) || (x_s[i] > _ubounds[i] + _au[i] + 1e-15))
 	  {
 	    LOG(FATAL) << "error in shifting pwq bounds in dimension " << i << ": lb=" << _lbounds[i] << " / ub=" << _ubounds[i] << " / al=" << _al[i] << " / au=" << _au[i] << " / x_s=" << x_s[i] << " / x=" << x[i] << " / xlow=" << _xlow[i] << " / xup=" << _xup[i] << " / r=" << _r[i] << std::endl;
-- 
2.43.0


From 79a891534b3c4fc30898cfd818aeca335c6725bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:36 +0000
Subject: [PATCH 12/66] fix: remove_dimensions removed the wrong dimensions
 when given several

---
 include/libcmaes/scaling.h | 7 ++++++-
 src/pwq_bound_strategy.cc  | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..75fca01 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -28,7 +28,9 @@
 #define LSCALING_H
 
 #include <libcmaes/eo_matrix.h>
+#include <functional>
 #include <limits>
+#include <vector>
 #include <iostream>
 
 namespace libcmaes
@@ -136,7 +138,10 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      // highest dimensions first, so that the remaining indices stay valid.
+      std::vector<int> sk(k);
+      std::sort(sk.begin(),sk.end(),std::greater<int>());
+      for (const int i: sk)
 	{
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 6faf8f6..98e742e 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -29,6 +29,7 @@
 #include <libcmaes/llogging.h>
 #include <algorithm>
 #include <cmath>
+#include <functional>
 #include <limits>
 #include <iostream>
 
@@ -131,7 +132,10 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    // highest dimensions first, so that the remaining indices stay valid.
+    std::vector<int> sk(k);
+    std::sort(sk.begin(),sk.end(),std::greater<int>());
+    for (const int i: sk)
       {
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
-- 
2.43.0


From 571bc3cdaf31d583a7953cef574f1522ab387dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 13/66] fix: maximization was ignored when starting from an
 existing solution

---
 src/esostrategy.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 96b7306..25bd787 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -64,6 +64,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From 7399687ebcf6e867c855987feeac91fd4f3eff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 14/66] fix: stopping criteria settings were ignored when
 starting from an existing solution

---
 src/cmastrategy.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..533f20b 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -133,7 +133,16 @@ namespace libcmaes
     _esolver = Eigen::EigenMultivariateNormal<double>(false,eostrat<TGenoPheno>::_parameters._seed); // seeding the multivariate normal generator.
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
-      _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+      {
+	_fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+	_fplotstream->precision(std::numeric_limits<double>::digits10);
+      }
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From 13ba896efe4c8956596497d96bdb46012da27f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 15/66] fix: BIPOP from an existing solution used uninitialized
 budget and step-size

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..35d05d6 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -57,6 +57,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From d2d3852176b663d21f1f88ad557963d269813532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 16/66] fix: resetting solutions emptied the search state of
 sep and vd variants

---
 src/cmasolutions.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..2e3112b 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -209,13 +209,15 @@ namespace libcmaes
     //_leigenvalues.setZero(); // beware.
     //_leigenvectors.setZero();
     //_cov /= 1e-3;//_sigma;
-    _cov = dMat::Identity(_csqinv.rows(),_csqinv.cols());
+    if (_cov.size())
+      _cov = dMat::Identity(_xmean.size(),_xmean.size());
+    else _sepcov = dMat::Constant(_xmean.size(),1,1.0);
     //std::cout << "cov: " << _cov << std::endl;
     _niter = 0;
     _nevals = 0;
     //_sigma = 1.0/static_cast<double>(_csqinv.rows());
-    _psigma = dVec::Zero(_cov.rows());
-    _pc = dVec::Zero(_cov.rows());
+    _psigma = dVec::Zero(_xmean.size());
+    _pc = dVec::Zero(_xmean.size());
     _k_best_candidates_hist.clear();
     _bfvalues.clear();
     _median_fvalues.clear();
-- 
2.43.0


From c7004d27a60e76e667fc7395696095a9db0d6add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 17/66] fix: BIPOP restarts were not reproducible from the seed

---
 src/bipopcmastrategy.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 35d05d6..da3dba4 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -33,9 +33,7 @@ namespace libcmaes
 								   CMAParameters<TGenoPheno> &parameters)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(static_cast<uint32_t>(parameters._seed));
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
@@ -50,9 +48,7 @@ namespace libcmaes
 								   const CMASolutions &solutions)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters,solutions),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(static_cast<uint32_t>(parameters._seed));
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
-- 
2.43.0


From 6b158f6b8bc11cdaa08875cd14b1aa1f61bc7a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:28 +0000
Subject: [PATCH 18/66] fix: uncertainty handling was not reproducible from the
 seed

---
 src/esostrategy.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 25bd787..170de1d 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -52,8 +52,7 @@ namespace libcmaes
     _solutions = TSolutions(_parameters);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(static_cast<uint32_t>(parameters._seed));
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
@@ -73,8 +72,7 @@ namespace libcmaes
     start_from_solution(solutions);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(static_cast<uint32_t>(parameters._seed));
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
-- 
2.43.0


From e991be46f50784a72584a0c3e17372d95eaa6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 19/66] fix: lazy update sampled around an outdated mean

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 533f20b..585c715 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -163,11 +163,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From 78a471eee6b3bfd2d823df184b6fb256d8016834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 20/66] fix: elitist restart ignored custom ask, eval and tell
 functions

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 585c715..4d12c70 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -388,7 +388,7 @@ namespace libcmaes
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    optimize(evalf,askf,tellf);
 	  }
       }
     
-- 
2.43.0


From 61961243470a940e78652f5b2c94461059e0a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:45 +0000
Subject: [PATCH 21/66] fix: iteration of the best seen candidate was
 uninitialized when it is the initial one

---
 include/libcmaes/cmasolutions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..c026655 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,7 +526,7 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0;
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
-- 
2.43.0


From 990222b83e9370b20d2e46828b8a83e2f8516cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:06 +0000
Subject: [PATCH 22/66] fix: elitist restart scaled its starting point twice

---
 src/cmastrategy.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 4d12c70..557facc 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -384,7 +384,10 @@ namespace libcmaes
 	    this->set_initial_elitist(true);
 
 	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    dVec nx0 = eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec();
+	    if (!eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().is_id()) // x0 is scaled again when solutions are initialized.
+	      eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_f(nx0,nx0);
+	    eostrat<TGenoPheno>::_parameters.set_x0(nx0);
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-- 
2.43.0


From 98717d8aae2136ccbf683345482d2e49a5676494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 23/66] fix: termination requested by the progress function did
 not end restarts

---
 include/libcmaes/cmastrategy.h | 1 +
 src/bipopcmastrategy.cc        | 5 ++++-
 src/cmastrategy.cc             | 8 ++++++--
 src/ipopcmastrategy.cc         | 4 ++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/cmastrategy.h b/include/libcmaes/cmastrategy.h
index c8dc1f6..868a142 100644
--- a/include/libcmaes/cmastrategy.h
+++ b/include/libcmaes/cmastrategy.h
@@ -123,6 +123,7 @@ namespace libcmaes
     protected:
       Eigen::EigenMultivariateNormal<double> _esolver;  /**< multivariate normal distribution sampler, and eigendecomposition solver. */
       CMAStopCriteria<TGenoPheno> _stopcriteria; /**< holds the set of termination criteria, see reference paper. */
+      bool _aborted = false; /**< whether the progress function has requested termination. */
       std::ofstream *_fplotstream = nullptr; /**< plotting file stream, not in parameters because of copy-constructor hell. */
     
     public:
diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index da3dba4..c5b9eca 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -74,10 +74,11 @@ namespace libcmaes
 							       const TellFunc &tellf)
   {
     std::array<int,2> budgets = {{0,0}}; // 0: r1, 1: r2
+    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_aborted = false;
     CMASolutions best_run;
     for (int r=0;r<CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._nrestarts;r++)
       {
-	while(budgets[0]>budgets[1])
+	while(budgets[0]>budgets[1] && !CMAStrategy<TCovarianceUpdate,TGenoPheno>::_aborted)
 	  {
 	    r2();
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters.set_max_fevals(0.5*budgets[0]);
@@ -86,6 +87,8 @@ namespace libcmaes
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
 	  }
+	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_aborted) // progress function has requested termination.
+	  break;
 	if (r > 0) // use lambda_def on first call.
 	  {
 	    r1();
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 557facc..b9457e2 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -327,7 +327,10 @@ namespace libcmaes
       return true;
     
     if (eostrat<TGenoPheno>::_pfunc(eostrat<TGenoPheno>::_parameters,eostrat<TGenoPheno>::_solutions)) // progress function.
-      return true; // end on progress function internal termination, possibly custom.
+      {
+	_aborted = true;
+	return true; // end on progress function internal termination, possibly custom.
+      }
     
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
       plot();
@@ -358,6 +361,7 @@ namespace libcmaes
 	this->update_fevals(1);
       }
     
+    _aborted = false;
     std::chrono::time_point<std::chrono::system_clock> tstart = std::chrono::system_clock::now();
     while(!stop())
       {
@@ -375,7 +379,7 @@ namespace libcmaes
     // test on final value wrt. to best candidate value and number of iterations in between.
     if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart)
       {
-	if (eostrat<TGenoPheno>::_parameters._initial_elitist_on_restart
+	if (!_aborted
 	    && eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue()
 	    < eostrat<TGenoPheno>::_solutions.best_candidate().get_fvalue()
 	    && eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._best_seen_iter >= 3) // elitist
diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index b6faf8b..bc07eb3 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -65,6 +65,10 @@ namespace libcmaes
 		
 	// capture best solution.
 	capture_best_solution(best_run);
+
+	// do not restart if the progress function has requested termination.
+	if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_aborted)
+	  break;
 	
 	// reset parameters and solutions.
 	lambda_inc();
-- 
2.43.0


From 76d5e50ee96cdf7ac0318a86547d462d31f3df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 24/66] fix: setting sep or vd twice compounded the learning
 rates

---
 src/cmaparameters.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..daa97b8 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -151,6 +151,8 @@ namespace libcmaes
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_sep()
   {
+    if (_sep) // learning rates are already those of sep-CMA-ES.
+      return;
     _sep = true;
     _c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
@@ -166,6 +168,8 @@ namespace libcmaes
 	std::cerr << "[Warning]: set_vd on non VD algorithm " << this->_algo << ". Not activating VD update\n";
 	return;
       }
+    if (_vd) // learning rates are already those of VD-CMA.
+      return;
     _vd = true;
     _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
     _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
-- 
2.43.0


From 80d278e342d2e38dd63847c347392d7fd54bda53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 25/66] fix: restarts dropped the settings of sep, vd, tpa and
 fixed parameters

---
 src/cmaparameters.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index daa97b8..1c5408b 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -115,6 +115,26 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // settings that modify the default values, as needed when re-initializing, e.g. on restarts.
+    if (_sep)
+      {
+	_sep = false;
+	set_sep();
+      }
+    if (_vd)
+      {
+	_vd = false;
+	set_vd();
+      }
+    if (this->_tpa == 2)
+      set_tpa(2);
+    if (!Parameters<TGenoPheno>::_fixed_p.empty())
+      {
+	double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+	_chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
+	_lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+      }
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From c638750fdb8736ac675213a0e92f36900d996179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:38 +0000
Subject: [PATCH 26/66] fix: tolX criterion ignored negative components of the
 evolution path

---
 src/cmastopcriteria.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..f5e8dcb 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -169,7 +169,7 @@ namespace libcmaes
 	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])>=tfactor)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
-- 
2.43.0


From 53861ddc83ac695607372f13f6842e5e3a98c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:53 +0000
Subject: [PATCH 27/66] fix: edm aborted the process with VD-CMA or before the
 first iteration

---
 src/esostrategy.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 170de1d..8fc18e9 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -209,8 +209,17 @@ namespace libcmaes
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
     dMat gradmn;
-    if (!_parameters._sep)
-      gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
+    if (_parameters._vd) // C = D (I + v v^T) D
+      {
+	dVec dgradff = _solutions._sepcov.cwiseProduct(gradff);
+	gradmn = dVec::Constant(1,std::sqrt(dgradff.squaredNorm()+std::pow(_solutions._v.dot(dgradff),2)));
+      }
+    else if (!_parameters._sep)
+      {
+	if (_solutions._leigenvectors.size())
+	  gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
+	else gradmn = gradff; // no iteration yet, covariance is identity.
+      }
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
     double gradn = _solutions._sigma * gradmn.norm();
     edm *= gradn;
-- 
2.43.0


From 0299824a2692c0e8796b4e37298600b7f36e2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:10 +0000
Subject: [PATCH 28/66] fix: initial mean of a fixed parameter was scaled,
 unlike its value in the candidates

---
 src/cmasolutions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 2e3112b..f646fae 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -53,6 +53,9 @@ namespace libcmaes
 	_xmean = 0.5*(dVec::Random(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
+    // if scaling, need to apply to xmean.
+    if (!p._gp._scalingstrategy._id)
+      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
     if (!p._fixed_p.empty())
       {
 	auto fpmit = p._fixed_p.begin();
@@ -62,9 +65,6 @@ namespace libcmaes
 	    ++fpmit;
 	  }
       }
-    // if scaling, need to apply to xmean.
-    if (!p._gp._scalingstrategy._id)
-      p._gp._scalingstrategy.scale_to_internal(_xmean,_xmean);
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init > 0.0)
       _sigma = static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init;
     else static_cast<CMAParameters<TGenoPheno>&>(p)._sigma_init = _sigma = 1.0/static_cast<double>(p._dim); // XXX: sqrt(trace(cov)/dim)
-- 
2.43.0


From 12fbecbcfbe85f3195a3687178a87d76c4ff02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:28 +0000
Subject: [PATCH 29/66] fix: an unknown algorithm name could switch to a
 diagonal covariance

---
 include/libcmaes/cmaparameters.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..949da71 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -140,9 +140,12 @@ namespace libcmaes
       void set_str_algo(const std::string &algo)
       {
 	std::map<std::string,int>::const_iterator mit;
-	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))!=Parameters<TGenoPheno>::_algos.end())
-	  Parameters<TGenoPheno>::_algo = (*mit).second;
-	else LOG(ERROR) << "unknown algorithm " << algo << std::endl;
+	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))==Parameters<TGenoPheno>::_algos.end())
+	  {
+	    LOG(ERROR) << "unknown algorithm " << algo << std::endl;
+	    return;
+	  }
+	Parameters<TGenoPheno>::_algo = (*mit).second;
 	if (algo.find("sep")!=std::string::npos)
 	  set_sep();
 	if (algo.find("vd")!=std::string::npos)
-- 
2.43.0


From 716232cd1b3eea05fbe1320060b51667f11bc736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 30/66] fix: two-point adaptation default set after VD changed
 the step-size damping

---
 src/cmaparameters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 1c5408b..083fd40 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -194,7 +194,7 @@ namespace libcmaes
     _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
     _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
     _cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
-    if (this->_tpa == 0)
+    if (this->_tpa != 2)
       _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
     _fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
   }
-- 
2.43.0


From 7b26e967e9d978a717ce1446829cc62e570dcec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 31/66] fix: a second profile likelihood of a parameter was not
 recorded

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..678cdd0 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -52,7 +52,7 @@ namespace libcmaes
     errstats<TGenoPheno>::profile_likelihood_search(func,parameters,le,cmasol,k,true,samplesize,fup,delta,maxiters,curve);  // negative direction
     
     le.setErrMinMax();
-    cmasol._pls.insert(std::pair<int,pli>(k,le));
+    cmasol._pls[k] = le;
     return le;
   }
 
-- 
2.43.0


From d5815c907d1d154c5f2bc614e29ed474c1753288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 32/66] fix: profile likelihood did not end for a parameter
 whose best value is zero

---
 src/errstats.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/errstats.cc b/src/errstats.cc
index 678cdd0..d9386b9 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -78,6 +78,8 @@ namespace libcmaes
     int i = 0;
     int n = 10;
     double d = sign * xk * 0.1; // adhoc.
+    if (d == 0.0) // a null step never moves.
+      d = sign * 0.1;
     bool linit = true;
     while(true)
       {
-- 
2.43.0


From 70ae2fab64e67ae548e4a5d8c89dd71d006a1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 33/66] fix: profile likelihood ending on its maximum number of
 steps left null points

---
 src/errstats.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index d9386b9..9b654bc 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -153,7 +153,16 @@ namespace libcmaes
 	if (curve && i == samplesize)
 	  break;
 	if (i == maxiters)
-	  break;
+	  {
+	    // pad with the last point, as the level has not been reached.
+	    for (int j=(curve?i:0);j<samplesize;j++)
+	      {
+		le._fvaluem[samplesize+sign*(1+j)] = ncitsol.best_candidate().get_fvalue();
+		le._xm.row(samplesize+sign*(1+j)) = phenobx.transpose();
+		le._err[samplesize+sign*(1+j)] = ncitsol._run_status;
+	      }
+	    break;
+	  }
       }
   }
 
-- 
2.43.0


From 62554b2243b8ca45c164897fc3a2d2fd1e16488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:49 +0000
Subject: [PATCH 34/66] fix: profile likelihood read out of bounds with sep and
 vd variants

---
 src/errstats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 9b654bc..17b1f22 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -81,10 +81,13 @@ namespace libcmaes
     if (d == 0.0) // a null step never moves.
       d = sign * 0.1;
     bool linit = true;
+    dMat eigenve = cmasol.eigenvectors();
+    if (eigenve.rows() != x.size() || eigenve.cols() != x.size()) // no eigenvectors with a diagonal covariance.
+      eigenve = dMat::Identity(x.size(),x.size());
     while(true)
       {
 	// get a new xk point.
-	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,cmasol.eigenvectors(),d,x);
+	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,eigenve,d,x);
 	linit = false;
 	
 	//debug
-- 
2.43.0


From 10c59bb506a8cdb505e3b950edad2dce2299d5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:04 +0000
Subject: [PATCH 35/66] fix: optimization of the other parameters mixed up
 fixed dimensions given in any order

---
 src/errstats.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 17b1f22..30cc8f0 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -19,6 +19,7 @@
  * along with libcmaes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
 #include <libcmaes/errstats.h>
 #include <libcmaes/llogging.h>
 #include <iostream>
@@ -247,12 +248,24 @@ namespace libcmaes
   CMASolutions errstats<TGenoPheno>::optimize_vpk(FitFunc &func,
 						  const CMAParameters<TGenoPheno> &parameters,
 						  const CMASolutions &cmasol,
-						  const std::vector<int> &k,
-						  const std::vector<double> &vk,
+						  const std::vector<int> &uk,
+						  const std::vector<double> &uvk,
 						  const dVec &x0,
 						  const bool &pheno_x0,
 						  const bool &pheno_vk)
   {
+    // parameters are removed and added back in the order of their dimensions.
+    std::vector<std::pair<int,double> > kvk;
+    for (size_t i=0;i<uk.size();i++)
+      kvk.emplace_back(uk.at(i),uvk.at(i));
+    std::sort(kvk.begin(),kvk.end());
+    std::vector<int> k;
+    std::vector<double> vk;
+    for (auto &kv : kvk)
+      {
+	k.push_back(kv.first);
+	vk.push_back(kv.second);
+      }
     dVec rx0;
     if (!pheno_x0)
       rx0 = parameters.get_gp().pheno(x0);
-- 
2.43.0


From 85b3154d296755973ab2e04df2a54af7b4464e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:04 +0000
Subject: [PATCH 36/66] fix: fixing every parameter returned the original
 solution instead of the point

---
 src/errstats.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 30cc8f0..532e561 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -290,8 +290,10 @@ namespace libcmaes
       {
 	double fval = func(pvk.data(),pvk.size());
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	if (!pheno_vk)
+	  rcmasol._candidates.emplace_back(fval,Eigen::Map<const dVec>(vk.data(),vk.size()));
+	else rcmasol._candidates.emplace_back(fval,parameters.get_gp().geno(pvk)); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 1895381ffd2f5bfb9884745e0d0b9c7d2118f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:14 +0000
Subject: [PATCH 37/66] fix: maximization ignored the sign of the user's
 gradient function

---
 src/esostrategy.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 8fc18e9..7d610f5 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -176,7 +176,12 @@ namespace libcmaes
   dVec ESOStrategy<TParameters,TSolutions,TStopCriteria>::gradf(const dVec &x)
   {
     if (_gfunc != nullptr)
-      return _gfunc(x.data(),_parameters._dim);
+      {
+	dVec ugradf = _gfunc(x.data(),_parameters._dim);
+	if (_parameters._maximize) // the gradient follows the objective function's sign.
+	  ugradf *= -1.0;
+	return ugradf;
+      }
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
-- 
2.43.0


From 727605d828a8d75ac59591226b5f1c9eea6f9b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:05 +0000
Subject: [PATCH 38/66] fix: custom plot function was ignored when sep variants
 start from an existing solution

---
 include/libcmaes/cmaes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..41180e6 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
-- 
2.43.0


From 6a9ee43eb019e1beabfd8faaeb9e9fc0d91088da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:05 +0000
Subject: [PATCH 39/66] fix: sep variants ignored the existing solution to
 start from

---
 include/libcmaes/cmaes.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index 41180e6..800b468 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -259,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.sepcov().size()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -284,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size() == 0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -309,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.sepcov().size() == 0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
-- 
2.43.0


From 49f8b3345bbd9fc15d8458ea6770efb2d594a4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:22 +0000
Subject: [PATCH 40/66] fix: starting from an existing solution kept its
 population and history sizes

---
 include/libcmaes/esostrategy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..2bcd261 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -156,6 +156,10 @@ namespace libcmaes
       _parameters.set_x0(sol.best_candidate().get_x_dvec());
       _solutions = sol;
       _solutions.reset();
+      // population and history sizes are those of the current parameters.
+      _solutions._candidates.resize(_parameters._lambda);
+      _solutions._kcand = std::min(_parameters._lambda-1,static_cast<int>(1.0+ceil(0.1+_parameters._lambda/4.0)));
+      _solutions._max_hist = (_parameters._max_hist > 0) ? _parameters._max_hist : static_cast<int>(10+ceil(30*_parameters._dim/_parameters._lambda));
     }
 
     /**
-- 
2.43.0


From 7e243fc3c22ca0c626604a76d07109497a266b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:48 +0000
Subject: [PATCH 41/66] fix: restarts from an existing solution scaled their
 starting point twice

---
 include/libcmaes/esostrategy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 2bcd261..a82eda0 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -153,7 +153,10 @@ namespace libcmaes
      */
     void start_from_solution(const TSolutions &sol)
     {
-      _parameters.set_x0(sol.best_candidate().get_x_dvec());
+      dVec nx0 = sol.best_candidate().get_x_dvec();
+      if (!_parameters._gp.get_scalingstrategy().is_id()) // x0 is scaled again when solutions are initialized.
+	_parameters._gp.get_scalingstrategy().scale_to_f(nx0,nx0);
+      _parameters.set_x0(nx0);
       _solutions = sol;
       _solutions.reset();
       // population and history sizes are those of the current parameters.
-- 
2.43.0


From 119067d486721d1d21bb111062232cfdcb0621a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:42 +0000
Subject: [PATCH 42/66] fix: sep variants normalized the evolution path with
 the learning rate of full covariance

---
 src/cmaparameters.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 083fd40..7b0466c 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -178,6 +178,7 @@ namespace libcmaes
     _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
     _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
     _cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+    _fact_pc = sqrt(_cc * (2.0 - _cc) * _muw);
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From e4e54fb24233c223746c51c3b1059df176d5adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:52 +0000
Subject: [PATCH 43/66] fix: tolX criterion compared with the inverse of the
 step-size ratio

---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index f5e8dcb..0251536 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (fabs(cmas._pc[i])>=tfactor)
+	  if (fabs(cmas._pc[i])*factor>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))*factor>=tolx)
+	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))*factor>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From a8eaea4fc26be05af5c2abf9bb89064459465168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:24 +0000
Subject: [PATCH 44/66] fix: correlation of two parameters lost its precision
 far from the origin

---
 src/cmasolutions.cc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index f646fae..d8ddf30 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -167,17 +167,9 @@ namespace libcmaes
     if (i == j)
       return 1.0;
     if (_cov.size() > 0) //  ful cov
-      {
-	CMAParameters<> cp; // fake parameter with identity gp, since correlation is independent from unit
-	dVec st = stds(cp);
-	return _cov(i,j)/(st(i)*st(j));
-      }
+      return _cov(i,j)/(std::sqrt(_cov(i,i))*std::sqrt(_cov(j,j)));
     else if (_v.size() > 0) // vd
       {
-	CMAParameters<> cp(std::vector<double>(_v.size()),1.0);
-	cp.set_str_algo("vdcma");
-	cp.set_vd();
-	dVec st = stds(cp);
 	dVec sc(2);
 	dVec v(2);
 	sc(0) = _sepcov(i,0);
@@ -185,7 +177,7 @@ namespace libcmaes
 	v(0) = _v(i);
 	v(1) = _v(j);
 	dMat c = sc.asDiagonal()*(dMat::Identity(2,2)+v*v.transpose())*(sc.asDiagonal()); // compute cov matrix for i & j
-	return c(0,1)/(st(i)*st(j));
+	return c(0,1)/(std::sqrt(c(0,0))*std::sqrt(c(1,1)));
       }
     else // sep 
       {
-- 
2.43.0


From e53b49505c723232decb3de8e26294a7c691e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 45/66] fix: operator<< of contours is inline, as the header
 may be included in several places

---
 include/libcmaes/contour.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/contour.h b/include/libcmaes/contour.h
index 19f4753..caea115 100644
--- a/include/libcmaes/contour.h
+++ b/include/libcmaes/contour.h
@@ -85,7 +85,7 @@ namespace libcmaes
     std::vector<std::pair<double,double>> _points;
   };
 
-  std::ostream& operator<<(std::ostream &out, const contour &c)
+  inline std::ostream& operator<<(std::ostream &out, const contour &c)
     {
       c.print(out);
       return out;
-- 
2.43.0


From 8ba20017617dfebcc6561e078ae88f0bd8586e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 46/66] fix: the default linear scaling is the identity in any
 dimension

---
 include/libcmaes/scaling.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 75fca01..13ad9fd 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -124,14 +124,21 @@ namespace libcmaes
     void scale_to_internal(dVec &x,
 			   const dVec &y) const
     {
-      x = y.cwiseProduct(_scaling) + _shift;
+      if (_id)
+	x = y;
+      else x = y.cwiseProduct(_scaling) + _shift;
     }
 
     void scale_to_f(const dVec &x,
 		    dVec &y) const
     {
-      y = x - _shift;
-      y = y.cwiseQuotient(_scaling);
+      if (_id)
+	y = x;
+      else
+	{
+	  y = x - _shift;
+	  y = y.cwiseQuotient(_scaling);
+	}
     }
 
     bool is_id() const { return _id; }
-- 
2.43.0


From 45697d3e174ebb509c087e263e727daa588041a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 47/66] fix: without bounds the piecewise quadratic strategy is
 the identity

---
 include/libcmaes/pwq_bound_strategy.h |  9 +++++----
 src/pwq_bound_strategy.cc             | 10 ++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/pwq_bound_strategy.h b/include/libcmaes/pwq_bound_strategy.h
index dc5d555..2f76d6e 100644
--- a/include/libcmaes/pwq_bound_strategy.h
+++ b/include/libcmaes/pwq_bound_strategy.h
@@ -24,6 +24,7 @@
 
 #include <libcmaes/eo_matrix.h>
 #include <libcmaes/cmaes_export.h>
+#include <limits>
 #include <vector>
 
 namespace libcmaes
@@ -45,10 +46,10 @@ namespace libcmaes
 
     void shift_into_feasible(const dVec &x, dVec &x_s) const;
 
-    double getLBound(const int &k) const { return _lbounds[k]; }
-    double getUBound(const int &k) const { return _ubounds[k]; }
-    double getPhenoLBound(const int &k) const { return _phenolbounds[k]; }
-    double getPhenoUBound(const int &k) const { return _phenoubounds[k]; }
+    double getLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _lbounds[k]; }
+    double getUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _ubounds[k]; }
+    double getPhenoLBound(const int &k) const { return _id ? -std::numeric_limits<double>::max() : _phenolbounds[k]; }
+    double getPhenoUBound(const int &k) const { return _id ? std::numeric_limits<double>::max() : _phenoubounds[k]; }
 
     double getAL(const int &k) const { return _al[k]; }
     double getAU(const int &k) const { return _au[k]; }
diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 98e742e..15a4a48 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -36,6 +36,7 @@
 namespace libcmaes
 {
   pwqBoundStrategy::pwqBoundStrategy()
+    :_id(true)
   {
   }
   
@@ -84,6 +85,11 @@ namespace libcmaes
 
   void pwqBoundStrategy::to_f_representation(const dVec &x, dVec &y) const
   {
+    if (_id) // no bounds.
+      {
+	y = x;
+	return;
+      }
     shift_into_feasible(x,y);
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
@@ -97,6 +103,8 @@ namespace libcmaes
   void pwqBoundStrategy::shift_into_feasible(const dVec &x, dVec &x_s) const
   {
     x_s = x;
+    if (_id) // no bounds.
+      return;
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
@@ -121,6 +129,8 @@ namespace libcmaes
   void pwqBoundStrategy::to_internal_representation(dVec &x, const dVec &y) const
   {
     x = y;
+    if (_id) // no bounds.
+      return;
     for (int i=0;i<y.rows();i++)
       {
 	if (x[i] < _lbounds[i] + _al[i])
-- 
2.43.0


From a96f1488a141c9723423f48285db1aeb35a980b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 48/66] fix: reset_as_fixed on parameters removes the dimension
 and not a rank weight

---
 src/cmaparameters.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 7b0466c..c12c1a5 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -165,7 +165,13 @@ namespace libcmaes
     Parameters<TGenoPheno>::_dim--;
     removeElement(Parameters<TGenoPheno>::_x0min,k); // XXX: could go into parameters.cc
     removeElement(Parameters<TGenoPheno>::_x0max,k);
-    removeElement(_weights,k);
+    Parameters<TGenoPheno>::_gp.remove_dimensions(std::vector<int>(1,k));
+    std::unordered_map<int,double> fixed_p;
+    for (auto &fp : Parameters<TGenoPheno>::_fixed_p)
+      if (fp.first != k)
+	fixed_p[fp.first > k ? fp.first-1 : fp.first] = fp.second;
+    Parameters<TGenoPheno>::_fixed_p = fixed_p;
+    initialize_parameters(); // weights and learning rates are those of the remaining dimensions.
   }
 
   template <class TGenoPheno>
-- 
2.43.0


From dcce07e41f58e8722c2f582de3e8e28fa6904ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:17 +0000
Subject: [PATCH 49/66] fix: profile likelihood took every point for a new
 minimum when the objective is negative

---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 532e561..eb30197 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -109,7 +109,7 @@ namespace libcmaes
 	      }
 	      return;
 	  }
-	else if (ncitsol.best_candidate().get_fvalue() < 1e-1*minfvalue)
+	else if (ncitsol.best_candidate().get_fvalue() < minfvalue - 0.9*fabs(minfvalue))
 	  {
 	    LOG(ERROR) << "profile likelihood finds new minimum: " << ncitsol.best_candidate().get_fvalue() << std::endl;
 	    // pad and return.
-- 
2.43.0


From 57a3a7e7241b159bf2c2f8c86babe1e929a19631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:12 +0000
Subject: [PATCH 50/66] fix: profile likelihood with bounds stepped to infinity
 when the level is out of reach

---
 src/errstats.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index eb30197..d40be29 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -88,7 +88,9 @@ namespace libcmaes
     while(true)
       {
 	// get a new xk point.
+	double pxk = x[k];
 	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,eigenve,d,x);
+	bool stuck = (!linit && x[k] == pxk); // no further step can be taken.
 	linit = false;
 	
 	//debug
@@ -156,7 +158,7 @@ namespace libcmaes
 	++i;
 	if (curve && i == samplesize)
 	  break;
-	if (i == maxiters)
+	if (i == maxiters || (!curve && stuck))
 	  {
 	    // pad with the last point, as the level has not been reached.
 	    for (int j=(curve?i:0);j<samplesize;j++)
@@ -186,6 +188,8 @@ namespace libcmaes
     double fdelta = delta * fup;
     dVec xtmp = x;
     dVec phenoxtmp = parameters._gp.pheno(xtmp);
+    dVec phenox = phenoxtmp;
+    double range = 0.5*parameters._gp.get_boundstrategy().getUBound(k) - 0.5*parameters._gp.get_boundstrategy().getLBound(k); // half of it, as the whole may overflow.
     double fvalue = func(phenoxtmp.data(),xtmp.size());
     double fdiff = fabs(fvalue - minfvalue);
     
@@ -226,10 +230,14 @@ namespace libcmaes
 	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
 	       && phenoxtmp[k] <= parameters._gp.get_boundstrategy().getPhenoUBound(k))
 	  {
+	    dv[k] = 2.0 * d;
+	    dVec nxtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    dVec phenonxtmp = parameters._gp.pheno(nxtmp);
+	    if (!(fabs(nxtmp[k]-x[k]) <= 2.0*range) || fabs(phenonxtmp[k]-phenox[k]) < fabs(phenoxtmp[k]-phenox[k]))
+	      break; // past the bounds, the threshold is out of reach.
 	    d *= 2.0;
-	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
-	    phenoxtmp = parameters._gp.pheno(xtmp);
+	    xtmp = nxtmp;
+	    phenoxtmp = phenonxtmp;
 	    fvalue = func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
 
-- 
2.43.0


From 72f826a75abc4b62a9d8a249aeaa2da122e870af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 51/66] fix: profile likelihood of a maximized objective
 compared values of opposite signs

---
 src/errstats.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index d40be29..0be6ca2 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -186,11 +186,12 @@ namespace libcmaes
 					      dVec &x)
   {
     double fdelta = delta * fup;
+    double fsign = parameters.get_maximize() ? -1.0 : 1.0; // candidates hold -f when maximizing.
     dVec xtmp = x;
     dVec phenoxtmp = parameters._gp.pheno(xtmp);
     dVec phenox = phenoxtmp;
     double range = 0.5*parameters._gp.get_boundstrategy().getUBound(k) - 0.5*parameters._gp.get_boundstrategy().getLBound(k); // half of it, as the whole may overflow.
-    double fvalue = func(phenoxtmp.data(),xtmp.size());
+    double fvalue = fsign * func(phenoxtmp.data(),xtmp.size());
     double fdiff = fabs(fvalue - minfvalue);
     
     //debug
@@ -212,7 +213,7 @@ namespace libcmaes
 	    dv[k] = d;
 	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
-	    fvalue = func(phenoxtmp.data(),xtmp.size());
+	    fvalue = fsign * func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
 
 	    //debug
@@ -238,7 +239,7 @@ namespace libcmaes
 	    d *= 2.0;
 	    xtmp = nxtmp;
 	    phenoxtmp = phenonxtmp;
-	    fvalue = func(phenoxtmp.data(),xtmp.size());
+	    fvalue = fsign * func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
 
 	    //debug
@@ -297,6 +298,8 @@ namespace libcmaes
     if (rx0.size() == 0) // if all variables are fixed, simply return value for this point
       {
 	double fval = func(pvk.data(),pvk.size());
+	if (parameters.get_maximize())
+	  fval = -fval;
 	CMASolutions rcmasol;
 	if (!pheno_vk)
 	  rcmasol._candidates.emplace_back(fval,Eigen::Map<const dVec>(vk.data(),vk.size()));
@@ -309,6 +312,7 @@ namespace libcmaes
 					  parameters.get_seed(),ngp);
     nparameters.set_initial_fvalue(true);
     nparameters.set_ftarget(parameters.get_ftarget());
+    nparameters.set_maximize(parameters.get_maximize());
     //nparameters.set_quiet(false);
     
     FitFunc rfunc = [func,k,pvk](const double *x, const int N)
-- 
2.43.0


From cf94a9b83d848995d6c2cf13c17047092dd980e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 52/66] fix: the ACM surrogate strategy did not rank the
 population that fills up the training set

---
 include/libcmaes/surrogatestrategy.h | 1 +
 src/surrogatestrategy.cc             | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..c7f3bae 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -419,6 +419,7 @@ namespace libcmaes
     double _theta_sel0 = 0.4;  /**< standard deviation of selection sampling step 0. */
     double _theta_sel1 = 0.8;  /**< standard deviation of selection sampling step 1. */
     int _lambdaprime; /**< true objective function calls per iteration. */
+    bool _preselected = false; /**< whether the last evaluated population was pre-selected by the surrogate. */
 
     private:
     // random numbers for selection sampling
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..2a74034 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -248,7 +248,8 @@ namespace libcmaes
 									  const dMat &phenocandidates)
   {
     // use pre selection eval only if surrogate is ready.
-    if (this->_exploit && (int)this->_tset.size() >= this->_l)
+    _preselected = this->_exploit && (int)this->_tset.size() >= this->_l;
+    if (_preselected)
       {
 	pre_selection_eval(candidates);
       }
@@ -274,7 +275,7 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
-    if (!this->_exploit || (int)this->_tset.size() < this->_l)
+    if (!_preselected) // the evaluation of pre-selected candidates has ranked them already.
       eostrat<TGenoPheno>::_solutions.sort_candidates();
     
     // update function value history, as needed.
-- 
2.43.0


From e3d930356e6c1e91d41b25b4a85d13dd0484981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 53/66] fix: surrogate error over a single point was not a
 number

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 2a74034..1a6d54e 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -78,6 +78,8 @@ namespace libcmaes
   double SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::compute_error(const std::vector<Candidate> &test_set,
 									const dMat &cov)
   {
+    if (test_set.size() < 2)
+      return 0.0; // no pair to be ordered.
     double test_set_size = test_set.size();
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
-- 
2.43.0


From 3496be15ea180efa1a268cf853d3cacec131273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 54/66] fix: the simple surrogate strategy trained separable
 models with an empty matrix

---
 src/surrogatestrategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 1a6d54e..dc40044 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -178,8 +178,11 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,
+		      eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,
+			 eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From f3f221c456063f39b5333c367fc73deca70a5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 55/66] fix: the simple surrogate strategy could exploit a
 surrogate that was never trained

---
 include/libcmaes/surrogatestrategy.h | 7 ++++---
 src/surrogatestrategy.cc             | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c7f3bae..113e4a7 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -267,11 +267,12 @@ namespace libcmaes
      */
     inline bool do_train() const
     {
-      if (!SurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::_exploit && (int)this->_tset.size() >= this->_l)
-	return true;
-      return ((this->_niter == 0 || this->_niter % this->_nsteps == 0) && (int)this->_tset.size() >= this->_l);
+      return _real_eval && (int)this->_tset.size() >= this->_l;
     }
 
+    protected:
+    bool _real_eval = true; /**< whether the last population was evaluated with the original objective function. */
+
     public:
     double _terr = 0.45; /**< error threshold for estimating optimal nsteps */
     int _nmax = 20;
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index dc40044..b7b07df 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -130,7 +130,8 @@ namespace libcmaes
   void SimpleSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::eval(const dMat &candidates,
 								   const dMat &phenocandidates)
   {
-    if (!this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
+    _real_eval = !this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l;
+    if (_real_eval)
       {
 	// reactivate fvalue-based stopping criteria
 	this->_stopcriteria.set_criteria_active(FTARGET,true);
-- 
2.43.0


From 5f374c4c68965ba8cfc78dc8967f3e2716ae8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 56/66] fix: surrogate test error was not computed on the newly
 evaluated points

---
 src/surrogatestrategy.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index b7b07df..e8f7594 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -136,7 +136,10 @@ namespace libcmaes
 	// reactivate fvalue-based stopping criteria
 	this->_stopcriteria.set_criteria_active(FTARGET,true);
 	
-	// compute test error if needed.
+	// use original objective function.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
+	// compute test error on the new points, if needed.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -148,8 +151,7 @@ namespace libcmaes
 	      this->_nsteps = compute_lifelength();
 	  }
 	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	// collect points.
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
       }
@@ -261,7 +263,10 @@ namespace libcmaes
       }
     else
       {
-	// compute test error if needed.
+	// use original objective function.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+
+	// compute test error on the new points, if needed.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -271,8 +276,7 @@ namespace libcmaes
 							  eostrat<TGenoPheno>::_solutions._sepcsqinv));
 	  }
 	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	// collect points.
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
       }
-- 
2.43.0


From dffac5ebc8271cea77f5ba89e29e969a5c242901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 57/66] fix: the ACM surrogate strategy's selection ignored the
 seed

---
 include/libcmaes/surrogatestrategy.h | 3 +--
 src/surrogatestrategy.cc             | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index 113e4a7..d5b1b33 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -364,7 +364,7 @@ namespace libcmaes
     }
 
     private:
-    void init_rd(); // initialize random device.
+    void init_rd(); // initialize random generators.
 
     public:
     /**
@@ -424,7 +424,6 @@ namespace libcmaes
 
     private:
     // random numbers for selection sampling
-    std::random_device _rd;
     std::normal_distribution<double> _norm_sel0;
     std::normal_distribution<double> _norm_sel1;
     std::mt19937 _gen0;
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index e8f7594..c1beee0 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -223,8 +223,8 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::init_rd()
   {
-    _gen0 = std::mt19937(_rd());
-    _gen1 = std::mt19937(_rd());
+    _gen0 = std::mt19937(static_cast<uint32_t>(eostrat<TGenoPheno>::_parameters._seed));
+    _gen1 = std::mt19937(static_cast<uint32_t>(eostrat<TGenoPheno>::_parameters._seed)+1);
     _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
     _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
   }
-- 
2.43.0


From cd3a5b6d6b94367637684c04142fe1cab5b2489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 58/66] fix: the simple surrogate strategy re-enabled a
 disabled target criterion

---
 include/libcmaes/cmaparameters.h | 1 +
 src/surrogatestrategy.cc         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 949da71..bcf30b4 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -45,6 +45,7 @@ namespace libcmaes
       friend class ACovarianceUpdate;
       template <class U> friend class errstats;
       friend class VDCMAUpdate;
+      template <template <class X,class Y> class U, class V, class W> friend class SimpleSurrogateStrategy;
       
     public:
       CMAParameters() {} //TODO: var init even if this constructor is not supposed to be used for now.
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index c1beee0..df72f22 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -133,8 +133,9 @@ namespace libcmaes
     _real_eval = !this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l;
     if (_real_eval)
       {
-	// reactivate fvalue-based stopping criteria
-	this->_stopcriteria.set_criteria_active(FTARGET,true);
+	// reactivate fvalue-based stopping criteria, unless disabled by user
+	auto mit = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
+	this->_stopcriteria.set_criteria_active(FTARGET,mit == eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*mit).second);
 	
 	// use original objective function.
 	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
-- 
2.43.0


From bfbaf949f3bf8157045ec600a6bfbcef6b5df13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 59/66] fix: the ACM surrogate strategy ranked candidates
 without a value before those of infinite value

---
 src/surrogatestrategy.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index df72f22..3090768 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -395,18 +395,26 @@ namespace libcmaes
 	    ++count;
 	  }
       }
+    // - rank evaluated candidates first, whatever their value, then the others as ranked by the surrogate.
+    auto ranking = [](Candidate const &c1, Candidate const &c2)
+      {
+	if (c1.get_fvalue() < c2.get_fvalue())
+	  return true;
+	if (c1.get_fvalue() == c2.get_fvalue())
+	  return c1.get_rank() < c2.get_rank();
+	return false;
+      };
+    std::vector<Candidate> rcandidates;
     for (size_t i=1;i<ncandidates.size();i++)
       if ((uhit=uh.find(i))==uh.end())
-	ncandidates.at(i).set_fvalue(std::numeric_limits<double>::max());
-    std::sort(ncandidates.begin(),ncandidates.end(),
-	      [](Candidate const &c1, Candidate const &c2)
-	      {
-		if (c1.get_fvalue() < c2.get_fvalue())
-		  return true;
-		if (c1.get_fvalue() == c2.get_fvalue())
-		  return c1.get_rank() < c2.get_rank();
-		return false;
-	      });
+	{
+	  ncandidates.at(i).set_fvalue(std::numeric_limits<double>::max());
+	  rcandidates.push_back(ncandidates.at(i));
+	}
+    std::sort(rcandidates.begin(),rcandidates.end(),ranking);
+    ncandidates = test_set;
+    std::sort(ncandidates.begin(),ncandidates.end(),ranking);
+    ncandidates.insert(ncandidates.end(),rcandidates.begin(),rcandidates.end());
     
     // test error.
     if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
-- 
2.43.0


From 5c640031a1c441e1ed6a95362d835ffcd4bc8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:15 +0000
Subject: [PATCH 60/66] fix: the expected distance to the minimum treated
 eigenvalues as variances of the coordinates

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 7d610f5..79eb02b 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -222,7 +222,7 @@ namespace libcmaes
     else if (!_parameters._sep)
       {
 	if (_solutions._leigenvectors.size())
-	  gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
+	  gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * _solutions._leigenvectors.transpose() * gradff;
 	else gradmn = gradff; // no iteration yet, covariance is identity.
       }
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
-- 
2.43.0


From 386a94a005ea3b1ef408b15e334478739e269e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:51 +0000
Subject: [PATCH 61/66] fix: two-point adaptation produced invalid points when
 the mean has not moved

---
 src/cmastrategy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index b9457e2..9da917a 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -241,7 +241,9 @@ namespace libcmaes
 
 	dMat rz = _esolver.samples_ind(1);
 	double mfactor = rz.norm();
-	dVec z = mfactor * (mean_shift / mean_shift_norm);
+	dVec z = dVec::Zero(eostrat<TGenoPheno>::_parameters._dim);
+	if (mean_shift_norm > 0.0) // no direction if the mean has not moved.
+	  z = mfactor * (mean_shift / mean_shift_norm);
 	eostrat<TGenoPheno>::_solutions._tpa_x1 = eostrat<TGenoPheno>::_solutions._xmean + z;
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
-- 
2.43.0


From 7d9c08229bdbf516ca5a6162902f92297464b2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:43 +0000
Subject: [PATCH 62/66] fix: contours evaluated the objective outside the
 bounds, and did not end when the level is out of reach

---
 src/errstats.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 0be6ca2..21f355f 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -273,7 +273,10 @@ namespace libcmaes
     for (auto &kv : kvk)
       {
 	k.push_back(kv.first);
-	vk.push_back(kv.second);
+	if (pheno_vk) // the objective is not defined past the bounds.
+	  vk.push_back(std::min(std::max(kv.second,parameters.get_gp().get_boundstrategy().getPhenoLBound(kv.first)),
+				parameters.get_gp().get_boundstrategy().getPhenoUBound(kv.first)));
+	else vk.push_back(kv.second);
       }
     dVec rx0;
     if (!pheno_x0)
@@ -557,7 +560,13 @@ namespace libcmaes
     //debug
     
     // study slope between the two points.
+    unsigned int slopes = 0;
   slope:
+    if (++slopes > maxitr)
+      {
+	LOG(WARNING) << "returning empty cross point when drawing contour, level is out of reach\n";
+	return fcross();
+      }
     if (dfda < 0.0)
       {
 
@@ -702,8 +711,14 @@ namespace libcmaes
 	while (true)
 	  {
 	    // advance incrementally
+	    double pxk0 = xstart(par[0]), pxk1 = xstart(par[1]);
 	    xstart(par[0]) += dxk0;
 	    xstart(par[1]) += dxk1;
+	    for (int k : par) // up to the bounds.
+	      xstart(k) = std::min(std::max(xstart(k),parameters._gp.get_boundstrategy().getPhenoLBound(k)),
+				   parameters._gp.get_boundstrategy().getPhenoUBound(k));
+	    if (xstart(par[0]) == pxk0 && xstart(par[1]) == pxk1) // no further step can be taken.
+	      break;
 	    
 	    //debug
 	    //std::cout << "xstart=" << xstart.transpose() << std::endl;
-- 
2.43.0


From 549af350d586470b8141af36b04a3ef1b75bf56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:43 +0000
Subject: [PATCH 63/66] fix: contours aborted on values that are not comparable

---
 src/errstats.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/errstats.cc b/src/errstats.cc
index 21f355f..ab433f5 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -684,6 +684,11 @@ namespace libcmaes
 		  }
 	      }
 	  }
+	if (srefp == -1) // values are not comparable.
+	  {
+	    LOG(WARNING) << "returning empty cross point when drawing contour\n";
+	    return fcross();
+	  }
 	dVec srefp_phenox = cmasols.at(srefp).best_candidate().get_x_pheno_dvec(parameters);
 	dVec ibest_phenox = cmasols.at(ibest).best_candidate().get_x_pheno_dvec(parameters);
 	int sdir0 = (srefp_phenox(par[0])-ibest_phenox(par[0]) > 0.0) ? 1 : -1;
-- 
2.43.0


From cfd84865b26106657ddce370569b679daeb3c518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 64/66] fix: optimization of the other parameters took its
 step-size from the distance between a genotype and a phenotype

---
 src/errstats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index ab433f5..2c191ee 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -285,9 +285,12 @@ namespace libcmaes
     double sigma = 0.0;
     TGenoPheno ngp = parameters.get_gp();
     ngp.remove_dimensions(k);
+    dVec xmin = cmasol._candidates.at(0).get_x_dvec();
+    if (pheno_vk)
+      xmin = parameters.get_gp().pheno(xmin); // distances in the space of vk.
     for (int i=k.size()-1;i>=0;i--)
       {
-	sigma = std::max(sigma,fabs(cmasol._candidates.at(0).get_x_dvec()[k[i]]-vk[i])); // heuristic: sigma as max distance to minima
+	sigma = std::max(sigma,fabs(xmin[k[i]]-vk[i])); // heuristic: sigma as max distance to minima
 	removeElement(rx0,k[i]);
       }
     
-- 
2.43.0


From 4d68f83f93159bb315741d74c56db0e7f8f9a0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:17 +0000
Subject: [PATCH 65/66] fix: contours of empty intervals had invalid points

---
 src/errstats.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/errstats.cc b/src/errstats.cc
index 2c191ee..d5c256c 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -424,6 +424,9 @@ namespace libcmaes
     c.add_point(valx+plx._errmax,exy_up.best_candidate().get_x_pheno_dvec(parameters)(py));
     c.add_point(eyx_up.best_candidate().get_x_pheno_dvec(parameters)(px),valy+ply._errmax);
 
+    if (!(plx._errmax > plx._errmin) || !(ply._errmax > ply._errmin)) // an empty interval has no other points.
+      return c;
+
     double scalx = 1.0/(plx._errmax - plx._errmin); // in phenotype
     double scaly = 1.0/(ply._errmax - ply._errmin);
 
-- 
2.43.0


From 1a7e72723433359074271e6d255c9ac0c22a945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:52 +0000
Subject: [PATCH 66/66] fix: initial step sizes per parameter were applied
 twice when parameters are scaled

---
 src/cmaparameters.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index c12c1a5..b57eaeb 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -61,7 +61,9 @@ namespace libcmaes
     dVec shift = dVec::Constant(x0.size(),0.0);
     TGenoPheno gp(scaling,shift,&lbounds.front(),&ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
     this->set_gp(gp);
-    _sigma_init = *std::min_element(sigma.begin(),sigma.end());
+    if (gp.get_scalingstrategy().is_id())
+      _sigma_init = *std::min_element(sigma.begin(),sigma.end());
+    else _sigma_init = 1.0; // step sizes are applied by the scaling.
     initialize_parameters();
   }
   
-- 
2.43.0

