From 45020a9cc9d89c36bc1918e49282a269590d2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/29] fix: do not re-solve modified CBC models (wrong status
 or crash when computing all committees)

---
 abcvoting/abcrules_mip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..91118d2 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -21,7 +21,7 @@ def _optimize_rule_mip(
     solver_id,
     name="None",
     committeescorefct=None,
-    reuse_model=True,
+    reuse_model=False,
 ):
     """Compute rules, which are given in the form of an optimization problem, using Python MIP.
 
@@ -43,8 +43,9 @@ def _optimize_rule_mip(
     committeescorefct : callable
         a function used to compute the score of a committee
     reuse_model : bool
-        use the same model in each iteration and just add additional constraints,
-        faster if reuse_model==True
+        use the same model in each iteration and just add additional constraints;
+        this is faster, but CBC is not reliable when re-solving a modified model (it may report
+        an infeasible model as solved or even crash)
 
     Returns
     -------
-- 
2.43.0


From 7fd2dbbc4028423d84b071e2b718d72de38e8d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 02/29] fix: irresolute reverse sequential rules returned
 duplicate committees

Partial committees were identified by the iteration order of sets, which can
differ for equal sets (e.g., for candidates with two-digit indices).
---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..ba80216 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1713,7 +1713,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(c for c in committee if c != cand)
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From b72be4fd0f692fa477400c660562559317998096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 03/29] =?UTF-8?q?fix:=20seq-Phragm=C3=A9n=20could=20elect?=
 =?UTF-8?q?=20unsupported=20or=20already=20elected=20candidates=20for=20we?=
 =?UTF-8?q?ights=20below=201?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index ba80216..e239817 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2839,20 +2839,16 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else math.inf  # candidates without supporters are chosen last
             for cand in profile.candidates
         ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
-        opt = min(new_maxload)
+        # exclude candidates already in the committee
+        remaining_cands = [cand for cand in profile.candidates if cand not in committee]
+        opt = min(new_maxload[cand] for cand in remaining_cands)
         if algorithm == "float-fractions":
-            tied_cands = [
-                cand for cand in profile.candidates if misc.isclose(new_maxload[cand], opt)
-            ]
+            tied_cands = [cand for cand in remaining_cands if misc.isclose(new_maxload[cand], opt)]
         else:
-            tied_cands = [cand for cand in profile.candidates if new_maxload[cand] == opt]
+            tied_cands = [cand for cand in remaining_cands if new_maxload[cand] == opt]
         next_cand = tied_cands[0]
         # compute new loads and add new candidate
         for v, voter in enumerate(profile):
@@ -2917,20 +2913,19 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else math.inf  # candidates without supporters are chosen last
             for cand in profile.candidates
         ]
-        # exclude committees already in the committee
-        for cand in profile.candidates:
-            if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+        # exclude candidates already in the committee
+        remaining_cands = [cand for cand in profile.candidates if cand not in committee]
+        opt = min(new_maxload[cand] for cand in remaining_cands)
         # compute new loads
         new_committee_load_pairs = []
-        for cand in profile.candidates:
+        for cand in remaining_cands:
             if algorithm == "float-fractions":
-                select_cand = misc.isclose(new_maxload[cand], min(new_maxload))
+                select_cand = misc.isclose(new_maxload[cand], opt)
             else:
-                select_cand = new_maxload[cand] <= min(new_maxload)
+                select_cand = new_maxload[cand] <= opt
 
             if select_cand:
                 new_load = [0] * len(profile)
-- 
2.43.0


From 474ce22141842cdeeef0e343097102944c9cc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 04/29] fix: EPH raised an IndexError for profiles with a
 single candidate

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e239817..38342fa 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4510,7 +4510,7 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]  # 2nd smallest value (if it exists)
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From bc300aadb1f5cedaab43cd342ad75175e6c8888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 05/29] fix: Equal Shares with increment completion stopped too
 early for weights below 1

---
 abcvoting/abcrules.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 38342fa..11c16e5 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3454,9 +3454,10 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
-    for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
-    ):
+    # for this (virtual) committee size, each voter can pay for the whole committee
+    min_weight = min(voter.weight for voter in profile)
+    max_committeesize = math.ceil(committeesize * profile.total_weight() / min_weight)
+    for increment_committeesize in range(committeesize, max_committeesize + 1):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
             committeesize,
-- 
2.43.0


From e9ea144bc4ee840008e5a43cb6e90c2eda34638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/29] =?UTF-8?q?fix:=20minimax-=20and=20leximax-Phragm?=
 =?UTF-8?q?=C3=A9n=20infeasible=20for=20weights=20below=201=20(load=20boun?=
 =?UTF-8?q?ded=20by=201)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 16 ++++++++++------
 abcvoting/abcrules_mip.py    |  6 ++----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..2ac001e 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -381,7 +381,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         load = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +404,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -444,12 +444,15 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 
 
 def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committees):
+    # a voter with weight w takes on at most a load of 1/w per committee member
+    max_possible_load = committeesize / min(1, *(voter.weight for voter in profile))
+
     def set_opt_model_func(model, in_committee):
         load = {}
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
@@ -491,18 +494,19 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 model.addConstr(
                     gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                     <= loadbounds[i]
-                    + (1 - loadbound_constraint[(i, j)]) * committeesize
+                    + (1 - loadbound_constraint[(i, j)]) * max_possible_load
                     + ACCURACY
                     # constraint applies only if loadbound_constraint[(i, voter)] == 1
                 )
 
-        newloadbound = model.addVar(lb=0, ub=committeesize, name="new loadbound")
+        newloadbound = model.addVar(lb=0, name="new loadbound")
         for j, voter in enumerate(profile):
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                 <= newloadbound
                 + gb.quicksum(
-                    loadbound_constraint[(i, j)] * committeesize for i in range(len(loadbounds))
+                    loadbound_constraint[(i, j)] * max_possible_load
+                    for i in range(len(loadbounds))
                 )
             )
 
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 91118d2..afcf5c5 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -319,7 +319,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -341,9 +341,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                 >= in_committee[cand]
             )
 
-        loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
-        )
+        loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
 
-- 
2.43.0


From af493ccb2ee3bb559b112be23a40b7e284b6f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/29] =?UTF-8?q?fix:=20minimax-=20and=20leximax-Phragm?=
 =?UTF-8?q?=C3=A9n=20ignored=20max=5Fnum=5Fof=5Fcommittees=20if=20too=20fe?=
 =?UTF-8?q?w=20candidates=20are=20approved?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 18 ++++++++++--------
 abcvoting/abcrules_mip.py    |  9 +++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 2ac001e..0042547 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -425,12 +425,13 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        extras = itertools.combinations(remaining_candidates, num_missing_candidates)
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(extras, max_num_of_committees)
+        )
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -525,12 +526,13 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        extras = itertools.combinations(remaining_candidates, num_missing_candidates)
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(extras, max_num_of_committees)
+        )
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index afcf5c5..5d87d22 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -360,12 +360,13 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        extras = itertools.combinations(remaining_candidates, num_missing_candidates)
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(extras, max_num_of_committees)
+        )
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From 29cbc43a0b815cb952d7fbad37bee050430bed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 08/29] fix: check_EJR_plus raised a KeyError for quotas larger
 than the Hare quota

---
 abcvoting/properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..0e15d93 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1093,7 +1093,8 @@ def _check_EJR_plus(profile, committee, quota):
     for cand in profile.candidates:
         if cand in committee:
             continue
-        supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
+        max_utility = max(ell_upper_bound, len(committee))
+        supporters_by_utility = {ell: set() for ell in range(max_utility + 1)}
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-- 
2.43.0


From 61e5fe03cf10de9bd14c4e4ff05b040c77fbe25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 09/29] fix: full_analysis did not restore the output verbosity
 if a check raises an exception

---
 abcvoting/properties.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 0e15d93..8d36eec 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -59,9 +59,12 @@ def full_analysis(profile, committee):
     # temporarily no output
     current_verbosity = output.verbosity
     output.set_verbosity(WARNING)
-
-    for property_name in PROPERTY_NAMES:
-        results[property_name] = check(property_name, profile, committee)
+    try:
+        for property_name in PROPERTY_NAMES:
+            results[property_name] = check(property_name, profile, committee)
+    finally:
+        # restore output verbosity
+        output.set_verbosity(current_verbosity)
 
     description = {
         "pareto": "Pareto optimality",
@@ -75,9 +78,6 @@ def full_analysis(profile, committee):
         "core": "The core",
     }
 
-    # restore output verbosity
-    output.set_verbosity(current_verbosity)
-
     for prop, value in results.items():
         output.info(f"{description[prop]:50s} : {value}")
 
-- 
2.43.0


From 75b88d40d4c469103603a12f663068f803bd7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 10/29] fix: brute-force checks of EJR and PJR ignored voter
 weights

---
 abcvoting/properties.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 8d36eec..b2136d9 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -694,6 +694,20 @@ def _check_pareto_optimality_gurobi(profile, committee):
     raise RuntimeError(f"Gurobi returned an unexpected status code: {model.Status}")
 
 
+def _sufficiently_large_groups(profile, voters, min_weight):
+    """Enumerate all groups among `voters` that are large enough (w.r.t. `min_weight`).
+
+    For unit weights, only groups of minimal size are considered.
+    """
+    if profile.has_unit_weights():
+        yield from itertools.combinations(voters, math.ceil(min_weight))
+        return
+    for group_size in range(1, len(voters) + 1):
+        for group in itertools.combinations(voters, group_size):
+            if sum(profile[vi].weight for vi in group) >= min_weight:
+                yield group
+
+
 def _check_EJR_brute_force(profile, committee, quota):
     """
     Test using brute-force whether a committee satisfies EJR.
@@ -721,9 +735,6 @@ def _check_EJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
-
         # compute list of voters to consider
         for i, voter in enumerate(profile):
             if len(voter.approved & committee) < ell:
@@ -731,15 +742,14 @@ def _check_EJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < ell * quota:
             # if not possible then simply continue with next ell
             continue
 
         # check all possible combinations of considered voters,
         # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        for combination in _sufficiently_large_groups(
+            profile, voters_less_than_ell_approved_candidates, ell * quota
         ):
             # compute set of candidates approved by all voters in combination
             cut = set.intersection(*(profile[vi].approved for vi in combination))
@@ -870,9 +880,6 @@ def _check_PJR_brute_force(profile, committee, quota):
         voters_less_than_ell_approved_candidates = []
         voters_less_than_ell_approved_candidates_weight = 0
 
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
-
         # compute list of voters to consider
         for vi, voter in enumerate(profile):
             if len(voter.approved & committee) < ell:
@@ -880,15 +887,14 @@ def _check_PJR_brute_force(profile, committee, quota):
                 voters_less_than_ell_approved_candidates_weight += voter.weight
 
         # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
+        if voters_less_than_ell_approved_candidates_weight < ell * quota:
             # if not possible then simply continue with next ell
             continue
 
         # check all possible combinations of considered voters,
         # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
+        for group in _sufficiently_large_groups(
+            profile, voters_less_than_ell_approved_candidates, ell * quota
         ):
             # find set of candidates that are approved by all voters in group
             cut = set.intersection(*(profile[j].approved for j in group))
-- 
2.43.0


From 78ec6b43eda5c925288b467c5133987005fe7c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 11/29] fix: brute-force checks of EJR and PJR reported a group
 that is not cohesive

---
 abcvoting/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index b2136d9..9549c10 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -759,7 +759,7 @@ def _check_EJR_brute_force(profile, committee, quota):
                 # we have found combination to be an ell-cohesive set, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": set(combination),
                     "ell": ell,
                     "joint_candidates": cut,
                 }
@@ -911,7 +911,7 @@ def _check_PJR_brute_force(profile, committee, quota):
                 # strictly less than ell, then this ell-cohesive group violates PJR
                 if len(approved_cands_union & committee) < ell:
                     detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
+                        "cohesive_group": set(group),
                         "ell": ell,
                         "joint_candidates": cut,
                     }
-- 
2.43.0


From f205bfe125cfc022408fffe7baa583036abb7580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 12/29] fix: Profile.copy lost the candidate names and
 copy.deepcopy(profile) raised a TypeError

---
 abcvoting/preferences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..5da1f07 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -268,12 +268,14 @@ class Profile:
         -------
             Profile
         """
-        copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile = Profile(num_cand=self.num_cand, cand_names=self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From 301abfae91489bdf7aff3077479f4b64f3399c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 13/29] fix: Profile.str_compact could list equal approval sets
 separately

---
 abcvoting/preferences.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index 5da1f07..99e2fc0 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -303,10 +303,11 @@ class Profile:
         """
         compact = OrderedDict()
         for voter in self._voters:
-            if tuple(voter.approved) in compact:
-                compact[tuple(voter.approved)] += voter.weight
+            approval_set = tuple(sorted(voter.approved))
+            if approval_set in compact:
+                compact[approval_set] += voter.weight
             else:
-                compact[tuple(voter.approved)] = voter.weight
+                compact[approval_set] = voter.weight
         if self.has_unit_weights():
             output = ""
         else:
-- 
2.43.0


From 6fc475441225e87dab9c7d7b6c052f5f8abb2936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 14/29] fix: read_preflib_file lost voters if setsize made
 different rankings coincide

---
 abcvoting/fileio.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..34c1408 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -115,16 +115,8 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    # for ordinal preferences, each indifference class is treated as a category
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0


From 321e3be7cdbfe7c27e0ff081b4a0ab8407502a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 15/29] fix: Preflib files with integral float weights were
 unreadable

---
 abcvoting/fileio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 34c1408..316d2ac 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -225,7 +225,7 @@ def write_profile_to_preflib_cat_file(filepath, profile):
             tuple(cand + 1 for cand in profile.candidates if cand not in voter.approved),
         )
         if int(voter.weight) == voter.weight:
-            multiplicity = voter.weight
+            multiplicity = int(voter.weight)
         else:
             multiplicity = 1
         if pref not in preflib_inst.preferences:
-- 
2.43.0


From c20b8f7d7804d8a584e216f7e9bcca3a28f2fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 16/29] fix: profiles with numpy integers or fractional weights
 could not be written to yaml files

---
 abcvoting/fileio.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 316d2ac..7793a7a 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -7,6 +7,8 @@ Two data formats are supported:
 """
 
 import os
+import numbers
+from fractions import Fraction
 import ruamel.yaml
 import preflibtools.instances as preflib
 from abcvoting.preferences import Profile, Voter
@@ -243,6 +245,22 @@ def _yaml_flow_style_list(x):
     return yamllist
 
 
+def _weight_to_yaml(weight):
+    """Convert a weight to a type that can be written to a yaml file (fractions as strings)."""
+    if isinstance(weight, numbers.Integral):
+        return int(weight)
+    if isinstance(weight, numbers.Rational):
+        return str(weight)
+    return float(weight)
+
+
+def _weight_from_yaml(weight):
+    """Inverse of `_weight_to_yaml`."""
+    if isinstance(weight, str):
+        return Fraction(weight)
+    return weight
+
+
 def read_abcvoting_yaml_file(filename):
     """
     Read contents of an abcvoting yaml file (ending with .abc.yaml).
@@ -286,7 +304,7 @@ def read_abcvoting_yaml_file(filename):
                 f"{filename}: the number of voters differs from the number of voter weights."
             )
         for appr_set, weight in zip(approval_sets, weights):
-            profile.add_voter(Voter(appr_set, weight=weight))
+            profile.add_voter(Voter(appr_set, weight=_weight_from_yaml(weight)))
     else:
         profile.add_voters(approval_sets)
 
@@ -346,9 +364,13 @@ def write_abcvoting_instance_to_yaml_file(
     data = {}
     if description is not None:
         data["description"] = description
-    data["profile"] = _yaml_flow_style_list([list(voter.approved) for voter in profile])
+    data["profile"] = _yaml_flow_style_list(
+        [[int(cand) for cand in voter.approved] for voter in profile]
+    )
     if not profile.has_unit_weights():
-        data["voter_weights"] = _yaml_flow_style_list([voter.weight for voter in profile])
+        data["voter_weights"] = _yaml_flow_style_list(
+            [_weight_to_yaml(voter.weight) for voter in profile]
+        )
     data["num_cand"] = profile.num_cand
     if committeesize is not None:
         data["committeesize"] = committeesize
@@ -363,7 +385,10 @@ def write_abcvoting_instance_to_yaml_file(
                     mod_compute_instance["result"] = None
                 else:
                     mod_compute_instance["result"] = _yaml_flow_style_list(
-                        [list(committee) for committee in compute_instance["result"]]
+                        [
+                            [int(cand) for cand in committee]
+                            for committee in compute_instance["result"]
+                        ]
                     )  # TODO: would be nicer to store committees in set notation (curly braces)
             if "profile" in compute_instance.keys():  # this is superfluous information
                 # check that the profile is the same as the main profile
-- 
2.43.0


From db61bc2e81e6953a26ecf4b8651ed1d74fdda7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 17/29] fix: read_preflib_file accepted top_ranks=0 and
 setsize=0

---
 abcvoting/fileio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index 7793a7a..d820048 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -103,11 +103,11 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
     """
     if top_ranks is None and setsize is None:
         top_ranks = 1  # default
-    if top_ranks and setsize:
+    if top_ranks is not None and setsize is not None:
         raise ValueError("Parameters top_ranks and setsize cannot be used simultaneously.")
-    if top_ranks and top_ranks <= 0:
+    if top_ranks is not None and top_ranks <= 0:
         raise ValueError("Parameter top_ranks must be > 0")
-    if setsize and setsize <= 0:
+    if setsize is not None and setsize <= 0:
         raise ValueError("Parameter setsize must be > 0")
 
     try:
-- 
2.43.0


From e9881b49929ef0288d59acf1c2e5b2a71ba7b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 18/29] fix: random profiles with fixed-size approval sets
 could have smaller sets due to rounding

---
 abcvoting/generate.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..c7dbecc 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -39,6 +39,18 @@ def prefsampling_wrapper(sampler, sampler_params):
     return profile
 
 
+def _relative_setsize(setsize, num_cand):
+    """
+    Return `setsize / num_cand`, guarding against rounding errors.
+
+    The samplers of prefsampling use `int(rel_num_approvals * num_candidates)` as set size.
+    """
+    rel_num_approvals = setsize / num_cand
+    if int(rel_num_approvals * num_cand) < setsize:
+        rel_num_approvals = np.nextafter(rel_num_approvals, 1.0)
+    return rel_num_approvals
+
+
 def random_profile(num_voters, num_cand, prob_distribution):
     """
     Generate a random profile using the probability distribution `prob_distribution`.
@@ -124,7 +136,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "alpha": replace,
         },
     )
@@ -154,7 +166,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
         },
     )
 
@@ -187,7 +199,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +314,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": _relative_setsize(setsize, num_cand),
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +644,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": _relative_setsize(setsize, num_cand)},
     )
 
 
-- 
2.43.0


From 364b15ff9d39e33be29ad2afa83839194bf5ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 19/29] fix: generate.rng was ignored, seeding it did not make
 random profiles reproducible

---
 abcvoting/generate.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index c7dbecc..4ada921 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -31,7 +31,7 @@ def prefsampling_wrapper(sampler, sampler_params):
     -------
         abcvoting.preferences.Profile
     """
-    samples = sampler(**sampler_params)
+    samples = sampler(**sampler_params, seed=rng)
     num_candidates = sampler_params["num_candidates"]
     profile = Profile(num_candidates)
     for sample in samples:
@@ -570,7 +570,12 @@ def prefsampling_euclidean_wrapper(
     else:
         candidates_positions = candidate_points
     voters_pos, candidates_pos = prefsampling_sample_election_positions(
-        num_voters, num_cand, num_dimensions, voters_positions, candidates_positions
+        num_voters,
+        num_cand,
+        num_dimensions,
+        voters_positions,
+        candidates_positions,
+        seed=rng,
     )
     sampler_params["num_voters"] = num_voters
     sampler_params["num_candidates"] = num_cand
@@ -967,12 +972,15 @@ class PointProbabilityDistribution:
                 num_points,
                 num_dimensions=2,
                 inner_sampler=lambda: point_samplers.gaussian(
-                    1, num_dimensions=2, center_point=self.center_point, sigmas=self.sigma
+                    1,
+                    num_dimensions=2,
+                    center_point=self.center_point,
+                    sigmas=self.sigma,
+                    seed=seed,
                 )[0],
                 inner_sampler_args={},
                 center_point=self.center_point,
                 width=self.width,
-                seed=seed,
             )
         elif self.name == "3d_cube":
             return lambda num_points, num_dimensions=3, seed=None: point_samplers.cube(
@@ -999,7 +1007,7 @@ def random_point(prob_distribution):
     -------
         np.ndarray
     """
-    return prob_distribution.prefsampling_function()(num_points=1)[0]
+    return prob_distribution.prefsampling_function()(num_points=1, seed=rng)[0]
 
 
 PROBABILITY_DISTRIBUTIONS = {
-- 
2.43.0


From d135e665673426c6c58f743c666eb2630d28f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 20/29] fix: geometric_marginal_score_fct raised a TypeError
 for float bases

---
 abcvoting/scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/scores.py b/abcvoting/scores.py
index 7fe0483..60f555e 100644
--- a/abcvoting/scores.py
+++ b/abcvoting/scores.py
@@ -132,7 +132,7 @@ def geometric_marginal_score_fct(i, base):
     """
     if i == 0:
         return 0
-    return Fraction(1, base ** (i - 1))
+    return 1 / Fraction(base) ** (i - 1)
 
 
 def pav_score_fct(i):
-- 
2.43.0


From 0be8cff4178db8d6a4175c85ed68160047224363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 21/29] fix: reverse sequential rules printed all scores as
 PAV-scores

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 11c16e5..130f1d5 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1647,7 +1647,7 @@ def compute_revseq_thiele_method(
         str_committees_with_header(committees, cand_names=profile.cand_names, winning=True)
     )
 
-    msg = "PAV-score of winning committee:"
+    msg = f"{scorefct_id.upper()}-score of winning committee:"
     if not resolute and len(committees) != 1:
         msg += "\n"
     for committee in committees:
-- 
2.43.0


From 636a089ce27d5c72815119d093109899540769e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 22/29] fix: tie-breaking messages named candidates by index
 instead of name

---
 abcvoting/abcrules.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 130f1d5..2320d16 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1241,7 +1241,9 @@ def compute_seq_thiele_method(
                     indent=" ",
                 )
                 if len(tied_cands) > 1:
-                    output.details(f"tie broken in favor of {next_cand},\n", indent=" ")
+                    output.details(
+                        f"tie broken in favor of {profile.cand_names[next_cand]},\n", indent=" "
+                    )
                     output.details(
                         f"candidates "
                         f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
@@ -1632,7 +1634,10 @@ def compute_revseq_thiele_method(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken to the disadvantage of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken to the disadvantage of {profile.cand_names[next_cand]},",
+                    indent=" ",
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)}"
@@ -3802,7 +3807,9 @@ def compute_maximin_support(
                 indent=" ",
             )
             if len(tied_cands) > 1:
-                output.details(f"tie broken in favor of {next_cand},", indent=" ")
+                output.details(
+                    f"tie broken in favor of {profile.cand_names[next_cand]},", indent=" "
+                )
                 output.details(
                     f"candidates "
                     f"{str_set_of_candidates(tied_cands, cand_names=profile.cand_names)} "
-- 
2.43.0


From 40df358ea2d29b7d6a5880d5b23affe84c43f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 23/29] =?UTF-8?q?fix:=20seq-Phragm=C3=A9n=20and=20Equal=20?=
 =?UTF-8?q?Shares=20declared=20false=20ties=20for=20large=20weights=20(flo?=
 =?UTF-8?q?at-fractions)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 2320d16..5fad021 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2818,6 +2818,7 @@ def _seqphragmen_resolute(
     else:
         raise UnknownAlgorithm("seqphragmen", algorithm)
 
+    total_weight = profile.total_weight()
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
@@ -2851,7 +2852,12 @@ def _seqphragmen_resolute(
         remaining_cands = [cand for cand in profile.candidates if cand not in committee]
         opt = min(new_maxload[cand] for cand in remaining_cands)
         if algorithm == "float-fractions":
-            tied_cands = [cand for cand in remaining_cands if misc.isclose(new_maxload[cand], opt)]
+            # loads are inversely proportional to weights, therefore scale before comparing
+            tied_cands = [
+                cand
+                for cand in remaining_cands
+                if misc.isclose(new_maxload[cand] * total_weight, opt * total_weight)
+            ]
         else:
             tied_cands = [cand for cand in remaining_cands if new_maxload[cand] == opt]
         next_cand = tied_cands[0]
@@ -2892,6 +2898,7 @@ def _seqphragmen_irresolute(
     else:
         raise UnknownAlgorithm("seqphragmen", algorithm)
 
+    total_weight = profile.total_weight()
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
@@ -2928,7 +2935,8 @@ def _seqphragmen_irresolute(
         new_committee_load_pairs = []
         for cand in remaining_cands:
             if algorithm == "float-fractions":
-                select_cand = misc.isclose(new_maxload[cand], opt)
+                # loads are inversely proportional to weights, therefore scale before comparing
+                select_cand = misc.isclose(new_maxload[cand] * total_weight, opt * total_weight)
             else:
                 select_cand = new_maxload[cand] <= opt
 
@@ -3276,8 +3284,12 @@ def _equal_shares_algorithm(
 
     def find_minimum_dict_entries(dictx):
         if algorithm == "float-fractions":
+            # prices are inversely proportional to weights, therefore scale before comparing
+            total_weight = profile.total_weight()
             min_entries = [
-                cand for cand in dictx.keys() if misc.isclose(dictx[cand], min(dictx.values()))
+                cand
+                for cand in dictx.keys()
+                if misc.isclose(dictx[cand] * total_weight, min(dictx.values()) * total_weight)
             ]
         else:
             min_entries = [cand for cand in dictx.keys() if dictx[cand] == min(dictx.values())]
-- 
2.43.0


From 1486689cda4a6bdbe799545e57ea887e22f45f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 24/29] =?UTF-8?q?fix:=20minimax-=20and=20leximax-Phragm?=
 =?UTF-8?q?=C3=A9n=20returned=20wrong=20committees=20for=20large=20weights?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 16 ++++++++++++----
 abcvoting/abcrules_mip.py    |  6 +++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 0042547..2d15e1b 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -377,6 +377,10 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
              second-, third-, ...-largest load
     """
 
+    # scale weights so that the average load is 1; otherwise loads can be too small for the
+    # accuracy of the solver (if there are many voters or voters with large weights)
+    scaling = committeesize / profile.total_weight()
+
     def set_opt_model_func(model, in_committee):
         load = {}
         for cand in profile.candidates:
@@ -397,7 +401,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         for cand in profile.candidates:
             model.addConstr(
                 gb.quicksum(
-                    voter.weight * load[(voter, cand)]
+                    scaling * voter.weight * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
@@ -445,8 +449,12 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
 
 
 def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committees):
-    # a voter with weight w takes on at most a load of 1/w per committee member
-    max_possible_load = committeesize / min(1, *(voter.weight for voter in profile))
+    # scale weights so that the average load is 1; otherwise loads can be too small for the
+    # accuracy of the solver (if there are many voters or voters with large weights)
+    scaling = committeesize / profile.total_weight()
+
+    # a voter with (scaled) weight w takes on at most a load of 1/w per committee member
+    max_possible_load = committeesize / min(1, *(scaling * voter.weight for voter in profile))
 
     def set_opt_model_func(model, in_committee):
         load = {}
@@ -483,7 +491,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         for cand in profile.candidates:
             model.addConstr(
                 gb.quicksum(
-                    voter.weight * load[(voter, cand)]
+                    scaling * voter.weight * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 5d87d22..b796fa5 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -314,6 +314,10 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
              second-, third-, ...-largest load
     """
 
+    # scale weights so that the average load is 1; otherwise loads can be too small for the
+    # accuracy of the solver (if there are many voters or voters with large weights)
+    scaling = committeesize / profile.total_weight()
+
     def set_opt_model_func(model, profile, in_committee, committeesize):
         load = {}
         for cand in profile.candidates:
@@ -334,7 +338,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             model += (
                 mip.xsum(
-                    voter.weight * load[(voter, cand)]
+                    scaling * voter.weight * load[(voter, cand)]
                     for voter in profile
                     if cand in profile.candidates
                 )
-- 
2.43.0


From adebc93357dd00c45ce223cf4b17d477da30a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 25/29] =?UTF-8?q?fix:=20Phragm=C3=A9n-Enestr=C3=B6m=20and?=
 =?UTF-8?q?=20the=20consensus=20rule=20mishandled=20ties=20for=20very=20la?=
 =?UTF-8?q?rge=20or=20small=20weights?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 5fad021..55960c3 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4021,6 +4021,7 @@ def _phragmen_enestroem_algorithm(
     if resolute:
         max_num_of_committees = 1  # same algorithm for resolute==True and resolute==False
 
+    total_weight = profile.total_weight()
     initial_voter_budget = [voter.weight for voter in profile]
     # price for adding a candidate to the committee
     price = division(sum(initial_voter_budget), committeesize)
@@ -4040,8 +4041,11 @@ def _phragmen_enestroem_algorithm(
                     support[cand] += voting_power
         max_support = max(support.values())
         if algorithm == "float-fractions":
+            # support is proportional to weights, therefore scale before comparing
             tied_cands = [
-                cand for cand, supp in support.items() if misc.isclose(supp, max_support)
+                cand
+                for cand, supp in support.items()
+                if misc.isclose(supp / total_weight, max_support / total_weight)
             ]
         else:
             tied_cands = sorted(cand for cand, supp in support.items() if supp == max_support)
@@ -4181,6 +4185,7 @@ def _consensus_rule_algorithm(profile, committeesize, algorithm, resolute, max_n
     if resolute:
         max_num_of_committees = 1  # same algorithm for resolute==True and resolute==False
 
+    total_weight = profile.total_weight()
     initial_voter_budget = [0] * len(profile)
     committee_budget_pairs = [(tuple(), initial_voter_budget)]
     committees = set()
@@ -4194,7 +4199,9 @@ def _consensus_rule_algorithm(profile, committeesize, algorithm, resolute, max_n
         support = {cand: 0 for cand in available_candidates}
         supporters = {cand: [] for cand in available_candidates}
         for i, voter in enumerate(profile):
-            if (budget[i] <= 0) or (algorithm == "float-fractions" and misc.isclose(budget[i], 0)):
+            if (budget[i] <= 0) or (
+                algorithm == "float-fractions" and misc.isclose(budget[i] / total_weight, 0)
+            ):
                 continue
             for cand in voter.approved:
                 if cand in available_candidates:
@@ -4202,8 +4209,11 @@ def _consensus_rule_algorithm(profile, committeesize, algorithm, resolute, max_n
                     supporters[cand].append(i)
         max_support = max(support.values())
         if algorithm == "float-fractions":
+            # support is proportional to weights, therefore scale before comparing
             tied_cands = [
-                cand for cand, supp in support.items() if misc.isclose(supp, max_support)
+                cand
+                for cand, supp in support.items()
+                if misc.isclose(supp / total_weight, max_support / total_weight)
             ]
         else:
             tied_cands = sorted(cand for cand, supp in support.items() if supp == max_support)
-- 
2.43.0


From cc1886e3a9c9d12f098b034f165411d8747d64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 26/29] fix: ILP algorithms for Thiele rules and lexcc returned
 wrong committees for small weights

---
 abcvoting/abcrules_gurobi.py | 19 +++++++++++++++----
 abcvoting/abcrules_mip.py    |  6 +++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 2d15e1b..cbbbce7 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -181,7 +181,7 @@ def _gurobi_thiele_methods(
         # objective: the Thiele score of the committee
         model.setObjective(
             gb.quicksum(
-                float(marginal_scorefct(x)) * voter.weight * utility[(voter, x)]
+                float(marginal_scorefct(x)) * scaling * voter.weight * utility[(voter, x)]
                 for voter in profile
                 for x in range(1, max_in_committee[voter] + 1)
             ),
@@ -190,6 +190,10 @@ def _gurobi_thiele_methods(
 
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
 
+    # scale weights so that the average weight is 1; otherwise differences between scores can be
+    # too small for the accuracy of the solver (if weights are small)
+    scaling = len(profile) / profile.total_weight()
+
     score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
     if not all(
         first > second or first == second == 0
@@ -247,23 +251,30 @@ def _gurobi_lexcc(profile, committeesize, resolute, max_num_of_committees):
         for prev_iteration in range(iteration):
             model.addConstr(
                 gb.quicksum(
-                    float(scorefcts[prev_iteration](x)) * voter.weight * utility[(voter, x)]
+                    float(scorefcts[prev_iteration](x))
+                    * scaling
+                    * voter.weight
+                    * utility[(voter, x)]
                     for voter in profile
                     for x in range(1, max_in_committee[voter] + 1)
                 )
-                >= satisfaction_constraints[prev_iteration] - ACCURACY
+                >= scaling * satisfaction_constraints[prev_iteration] - ACCURACY
             )
 
         # objective: the at-least-y score of the committee in iteration y
         model.setObjective(
             gb.quicksum(
-                float(scorefcts[iteration](x)) * voter.weight * utility[(voter, x)]
+                float(scorefcts[iteration](x)) * scaling * voter.weight * utility[(voter, x)]
                 for voter in profile
                 for x in range(1, max_in_committee[voter] + 1)
             ),
             gb.GRB.MAXIMIZE,
         )
 
+    # scale weights so that the average weight is 1; otherwise differences between scores can be
+    # too small for the accuracy of the solver (if weights are small)
+    scaling = len(profile) / profile.total_weight()
+
     # proceed in `committeesize` many iterations to achieve lexicographic tie-breaking
     satisfaction_constraints = []
     for iteration in range(1, committeesize):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index b796fa5..5b28b2b 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -205,7 +205,7 @@ def _mip_thiele_methods(
         # objective: the Thiele score of the committee
         model.objective = mip.maximize(
             mip.xsum(
-                float(marginal_scorefct(x)) * voter.weight * utility[(voter, x)]
+                float(marginal_scorefct(x)) * scaling * voter.weight * utility[(voter, x)]
                 for voter in profile
                 for x in range(1, max_in_committee[voter] + 1)
             )
@@ -213,6 +213,10 @@ def _mip_thiele_methods(
 
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
 
+    # scale weights so that the average weight is 1; otherwise differences between scores can be
+    # too small for the accuracy of the solver (if weights are small)
+    scaling = len(profile) / profile.total_weight()
+
     score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
     if not all(
         first > second or first == second == 0
-- 
2.43.0


From a6f600bfdb0990f954fe9534bdf911751f9686eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 27/29] fix: maximin support declared false ties for small
 weights

---
 abcvoting/abcrules.py        | 6 ++++--
 abcvoting/abcrules_gurobi.py | 9 +++++++--
 abcvoting/abcrules_mip.py    | 9 +++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 55960c3..abe37ab 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3850,6 +3850,7 @@ def _maximin_support_resolute(scorefct, profile, committeesize):
     committee = []
     remaining_cands = set(profile.candidates)
     detailed_info = {"next_cand": [], "tied_cands": [], "support_value": []}
+    accuracy = 1e-7 * float(profile.total_weight()) / len(profile)  # ILP float accuracy
 
     # build a committee starting with the empty set
     for _ in range(committeesize):
@@ -3858,7 +3859,7 @@ def _maximin_support_resolute(scorefct, profile, committeesize):
         tied_cands = [
             cand
             for cand in remaining_cands
-            if additional_score_cand[cand] >= highest_score - 1e-7  # ILP float accuracy
+            if additional_score_cand[cand] >= highest_score - accuracy
         ]
         next_cand = tied_cands[0]  # tiebreaking in favor of candidate with smallest index
         committee.append(next_cand)
@@ -3879,6 +3880,7 @@ def _maximin_support_irresolute(scorefct, profile, committeesize, max_num_of_com
     # build committees starting with the empty set
     partial_committees = [()]
     winning_committees = set()
+    accuracy = 1e-7 * float(profile.total_weight()) / len(profile)  # ILP float accuracy
 
     while partial_committees:
         new_partial_committees = []
@@ -3887,7 +3889,7 @@ def _maximin_support_irresolute(scorefct, profile, committeesize, max_num_of_com
         remaining_cands = set(profile.candidates) - set(committee)
         highest_score = max(additional_score_cand[cand] for cand in remaining_cands)
         for cand in remaining_cands:
-            if additional_score_cand[cand] >= highest_score - 1e-7:  # ILP float accuracy
+            if additional_score_cand[cand] >= highest_score - accuracy:
                 new_committee = committee + (cand,)
 
                 if len(new_committee) == committeesize:
diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index cbbbce7..4a0d162 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -593,6 +593,10 @@ def _gurobi_maximin_support_scorefct(profile, base_committee):
     Mathematical Programming (2022)
     """
 
+    # scale weights so that the average weight is 1; otherwise differences between support values
+    # can be too small for the accuracy of the solver (if weights are small)
+    scaling = len(profile) / profile.total_weight()
+
     scores = [0] * profile.num_cand
     remaining_candidates = [cand for cand in profile.candidates if cand not in base_committee]
 
@@ -608,7 +612,8 @@ def _gurobi_maximin_support_scorefct(profile, base_committee):
         for vi, voter in enumerate(profile):
             if voter.approved & committee:
                 model.addConstr(
-                    gb.quicksum(f[vi, cand] for cand in voter.approved & committee) == voter.weight
+                    gb.quicksum(f[vi, cand] for cand in voter.approved & committee)
+                    == scaling * voter.weight
                 )
 
         for cand in committee:
@@ -627,7 +632,7 @@ def _gurobi_maximin_support_scorefct(profile, base_committee):
                 " while computing the maximin support score."
             )
 
-        scores[added_cand] = minimum.x
+        scores[added_cand] = minimum.x / float(scaling)
 
     return scores
 
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 5b28b2b..8378c3f 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -398,6 +398,10 @@ def _mip_maximin_support_scorefct(profile, base_committee, solver_id):
     elections. Mathematical Programming (2022)
     """
 
+    # scale weights so that the average weight is 1; otherwise differences between support values
+    # can be too small for the accuracy of the solver (if weights are small)
+    scaling = len(profile) / profile.total_weight()
+
     scores = [0] * profile.num_cand
     remaining_candidates = [cand for cand in profile.candidates if cand not in base_committee]
 
@@ -417,7 +421,8 @@ def _mip_maximin_support_scorefct(profile, base_committee, solver_id):
         for vi, voter in enumerate(profile):
             if voter.approved & committee:
                 model += (
-                    mip.xsum(f[vi, cand] for cand in voter.approved & committee) == voter.weight
+                    mip.xsum(f[vi, cand] for cand in voter.approved & committee)
+                    == scaling * voter.weight
                 )
 
         for cand in committee:
@@ -439,7 +444,7 @@ def _mip_maximin_support_scorefct(profile, base_committee, solver_id):
                 "while computing the maximin support score."
             )
 
-        scores[added_cand] = minimum.x
+        scores[added_cand] = minimum.x / float(scaling)
 
     return scores
 
-- 
2.43.0


From 35a39e14a6e23041ea4eba14209fd59ed4066562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 28/29] fix: Gurobi-based property checks gave wrong answers
 for very small or large weights

---
 abcvoting/properties.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 9549c10..4e68e1c 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -804,8 +804,11 @@ def _check_EJR_gurobi(profile, committee, quota):
     model.addConstr(ell <= int(profile.total_weight() / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt. ell
+    # (weights are scaled to an average of 1 because of the accuracy of the solver)
+    scaling = len(profile) / profile.total_weight()
     model.addConstr(
-        gb.quicksum(voter.weight * in_group[vi] for vi, voter in enumerate(profile)) >= ell * quota
+        gb.quicksum(scaling * voter.weight * in_group[vi] for vi, voter in enumerate(profile))
+        >= ell * float(scaling * quota)
     )
 
     # constraints based on binary indicator variables:
@@ -956,8 +959,11 @@ def _check_PJR_gurobi(profile, committee, quota):
     model.addConstr(ell <= int(profile.total_weight() / quota))
 
     # constraint: size of ell-cohesive group should be appropriate wrt ell
+    # (weights are scaled to an average of 1 because of the accuracy of the solver)
+    scaling = len(profile) / profile.total_weight()
     model.addConstr(
-        gb.quicksum(voter.weight * in_group[vi] for vi, voter in enumerate(profile)) >= ell * quota
+        gb.quicksum(scaling * voter.weight * in_group[vi] for vi, voter in enumerate(profile))
+        >= ell * float(scaling * quota)
     )
 
     # binary variables: indicate whether a candidate is in the intersection
@@ -1241,6 +1247,8 @@ def _check_priceability_gurobi(profile, committee, stable=False):
         # note: the original definition of priceability does not work in this case.
         return all(cand in committee for cand in approved_candidates)
 
+    # weights are scaled to an average of 1 because of the accuracy of the solver
+    scaling = len(profile) / profile.total_weight()
     budget = model.addVar(vtype=gb.GRB.CONTINUOUS)
     payment = {}
     for voter in profile:
@@ -1252,7 +1260,7 @@ def _check_priceability_gurobi(profile, committee, stable=False):
     for voter in profile:
         model.addConstr(
             gb.quicksum(payment[voter][candidate] for candidate in profile.candidates)
-            <= voter.weight * budget
+            <= scaling * voter.weight * budget
         )
 
     # condition 2 [from "Multi-Winner Voting with Approval Preferences", Definition 4.8]
@@ -1282,7 +1290,7 @@ def _check_priceability_gurobi(profile, committee, stable=False):
                         max_Payment = model.addVar(vtype=gb.GRB.CONTINUOUS)
                         model.addConstr(
                             r
-                            == voter.weight * budget
+                            == scaling * voter.weight * budget
                             - gb.quicksum(
                                 payment[voter][committee_member] for committee_member in committee
                             )
@@ -1299,7 +1307,7 @@ def _check_priceability_gurobi(profile, committee, stable=False):
             if candidate not in committee:
                 model.addConstr(
                     gb.quicksum(
-                        voter.weight * budget
+                        scaling * voter.weight * budget
                         - gb.quicksum(
                             payment[voter][committee_member] for committee_member in committee
                         )
@@ -1522,9 +1530,13 @@ def _check_FJR_gurobi(profile, committee, quota):
     model.addConstr(beta <= set_of_candidates.sum())
 
     # coalition large enough to deserve |set_of_candidates| seats
+    # (weights are scaled to an average of 1 because of the accuracy of the solver)
+    scaling = len(profile) / profile.total_weight()
     model.addConstr(
-        set_of_candidates.sum() * quota
-        <= gb.quicksum(voter.weight * set_of_voters[vi] for vi, voter in enumerate(profile))
+        set_of_candidates.sum() * float(scaling * quota)
+        <= gb.quicksum(
+            scaling * voter.weight * set_of_voters[vi] for vi, voter in enumerate(profile)
+        )
     )
     model.addConstr(set_of_voters.sum() >= 1)
     for i, voter in enumerate(profile):
@@ -1705,9 +1717,13 @@ def _check_core_gurobi(profile, committee, quota):
     set_of_candidates = model.addVars(range(profile.num_cand), vtype=gb.GRB.BINARY)
 
     # set_of_voters is large enough to afford set_of_candidates
+    # (weights are scaled to an average of 1 because of the accuracy of the solver)
+    scaling = len(profile) / profile.total_weight()
     model.addConstr(
-        set_of_candidates.sum() * quota
-        <= gb.quicksum(voter.weight * set_of_voters[vi] for vi, voter in enumerate(profile))
+        set_of_candidates.sum() * float(scaling * quota)
+        <= gb.quicksum(
+            scaling * voter.weight * set_of_voters[vi] for vi, voter in enumerate(profile)
+        )
     )
     model.addConstr(set_of_voters.sum() >= 1)
 
-- 
2.43.0


From 526baea2e93519ec24de3936bd31961d1ef6c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:57 +0000
Subject: [PATCH 29/29] fix: ILP algorithms for Thiele rules and lexcc failed
 for large weights that are nearly equal

Weights are only scaled up (for small weights), not down.
---
 abcvoting/abcrules_gurobi.py | 12 ++++++------
 abcvoting/abcrules_mip.py    |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4a0d162..801ed40 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -190,9 +190,9 @@ def _gurobi_thiele_methods(
 
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
 
-    # scale weights so that the average weight is 1; otherwise differences between scores can be
-    # too small for the accuracy of the solver (if weights are small)
-    scaling = len(profile) / profile.total_weight()
+    # scale weights so that the average weight is at least 1; otherwise differences between scores
+    # can be too small for the accuracy of the solver (if weights are small)
+    scaling = max(1, len(profile) / profile.total_weight())
 
     score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
     if not all(
@@ -271,9 +271,9 @@ def _gurobi_lexcc(profile, committeesize, resolute, max_num_of_committees):
             gb.GRB.MAXIMIZE,
         )
 
-    # scale weights so that the average weight is 1; otherwise differences between scores can be
-    # too small for the accuracy of the solver (if weights are small)
-    scaling = len(profile) / profile.total_weight()
+    # scale weights so that the average weight is at least 1; otherwise differences between scores
+    # can be too small for the accuracy of the solver (if weights are small)
+    scaling = max(1, len(profile) / profile.total_weight())
 
     # proceed in `committeesize` many iterations to achieve lexicographic tie-breaking
     satisfaction_constraints = []
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 8378c3f..2acfb97 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -213,9 +213,9 @@ def _mip_thiele_methods(
 
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
 
-    # scale weights so that the average weight is 1; otherwise differences between scores can be
-    # too small for the accuracy of the solver (if weights are small)
-    scaling = len(profile) / profile.total_weight()
+    # scale weights so that the average weight is at least 1; otherwise differences between scores
+    # can be too small for the accuracy of the solver (if weights are small)
+    scaling = max(1, len(profile) / profile.total_weight())
 
     score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
     if not all(
-- 
2.43.0

