From 24a37c26476b0001ca3aa6b88374d69d7c49e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 01/13] =?UTF-8?q?fix:=20sequential=20Phragm=C3=A9n=20place?=
 =?UTF-8?q?holder=20loads=20exceed=20all=20loads=20also=20for=20light=20vo?=
 =?UTF-8?q?ters?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index e2ae4e7..8c5946c 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -2794,6 +2794,15 @@ def compute_seqphragmen(
     return sorted_committees(committees)
 
 
+def _seqphragmen_load_bound(approvers_weight, committeesize, division):
+    """Return an upper bound on the loads that can occur in seq-Phragmen."""
+    min_weight = min((weight for weight in approvers_weight.values() if weight > 0), default=1)
+    if min_weight >= 1:
+        return committeesize
+    # each round increases the maximum load by at most `1 / min_weight`
+    return division(committeesize, min_weight)
+
+
 def _seqphragmen_resolute(
     profile, committeesize, algorithm, start_load=None, partial_committee=None
 ):
@@ -2816,6 +2825,7 @@ def _seqphragmen_resolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    load_bound = _seqphragmen_load_bound(approvers_weight, committeesize, division)
     load = start_load
     if load is None:
         load = [0 for _ in range(len(profile))]
@@ -2839,13 +2849,13 @@ def _seqphragmen_resolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_bound + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_bound + 2  # that's larger than any possible value
         opt = min(new_maxload)
         if algorithm == "float-fractions":
             tied_cands = [
@@ -2894,6 +2904,7 @@ def _seqphragmen_irresolute(
     approvers_weight = {}
     for cand in profile.candidates:
         approvers_weight[cand] = sum(voter.weight for voter in profile if cand in voter.approved)
+    load_bound = _seqphragmen_load_bound(approvers_weight, committeesize, division)
 
     load = start_load
     if load is None:
@@ -2917,13 +2928,13 @@ def _seqphragmen_irresolute(
         new_maxload = [
             division(approvers_load[cand] + 1, approvers_weight[cand])
             if approvers_weight[cand] > 0
-            else committeesize + 1
+            else load_bound + 1
             for cand in profile.candidates
         ]
         # exclude committees already in the committee
         for cand in profile.candidates:
             if cand in committee:
-                new_maxload[cand] = committeesize + 2  # that's larger than any possible value
+                new_maxload[cand] = load_bound + 2  # that's larger than any possible value
         # compute new loads
         new_committee_load_pairs = []
         for cand in profile.candidates:
-- 
2.43.0


From ddbe766a6a84ee9b5561578fb711fbc3be8ac1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 02/13] fix: copies of profiles keep candidate names, profiles
 can be deep-copied

---
 abcvoting/preferences.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abcvoting/preferences.py b/abcvoting/preferences.py
index a92bf7e..5da1f07 100644
--- a/abcvoting/preferences.py
+++ b/abcvoting/preferences.py
@@ -268,12 +268,14 @@ class Profile:
         -------
             Profile
         """
-        copy_profile = Profile(num_cand=self.num_cand)
+        copy_profile = Profile(num_cand=self.num_cand, cand_names=self.cand_names)
         copy_profile.add_voters(self._voters)
         return copy_profile
 
     __copy__ = copy
-    __deepcopy__ = copy
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     def is_party_list(self):
         """
-- 
2.43.0


From 1b37b6f8a2c5862c395737a0b3fc0bb3117df706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 03/13] fix: E Pluribus Hugo works for profiles with a single
 candidate

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 8c5946c..4635c8a 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -4526,7 +4526,7 @@ def _eph_algorithm(rule_id, profile, algorithm, committeesize, resolute, max_num
                 sdv_score[cand] += division(voter.weight, len(remaining_approved))
                 av_score[cand] += voter.weight
 
-        cutoff_sdv = sorted(sdv_score.values())[1]  # 2nd smallest value
+        cutoff_sdv = sorted(sdv_score.values())[:2][-1]  # 2nd smallest value (if it exists)
         elimination_cands = [
             cand
             for cand in remaining_candidates
-- 
2.43.0


From 8446881e153b5c58a6089d5466e868e539acab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 04/13] =?UTF-8?q?fix:=20minimax/leximax-Phragm=C3=A9n=20re?=
 =?UTF-8?q?spect=20max=5Fnum=5Fof=5Fcommittees=20if=20too=20few=20candidat?=
 =?UTF-8?q?es=20are=20approved?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 22 ++++++++++++++--------
 abcvoting/abcrules_mip.py    | 11 +++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 4abf087..07fb05b 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -425,12 +425,15 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     committees, _ = _optimize_rule_gurobi(
         set_opt_model_func=set_opt_model_func,
@@ -521,12 +524,15 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     loadbounds = []
     for iteration in range(len(profile) - 1):
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 419043b..98e14f6 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -361,12 +361,15 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         num_missing_candidates = committeesize - len(approved_candidates)
 
         if resolute:
-            return [approved_candidates | set(remaining_candidates[:num_missing_candidates])]
+            max_num_of_committees = 1
 
-        return [
+        return sorted_committees(
             approved_candidates | set(extra)
-            for extra in itertools.combinations(remaining_candidates, num_missing_candidates)
-        ]
+            for extra in itertools.islice(
+                itertools.combinations(remaining_candidates, num_missing_candidates),
+                max_num_of_committees,
+            )
+        )
 
     committees = _optimize_rule_mip(
         set_opt_model_func,
-- 
2.43.0


From b317a018f84da26084bb516f3ef3e6ea498769f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 05/13] fix: reverse sequential Thiele methods do not return
 the same committee twice

---
 abcvoting/abcrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 4635c8a..7e3f75c 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -1713,7 +1713,7 @@ def _revseq_thiele_irresolute(scorefct_id, profile, committeesize, max_num_of_co
                 cand for cand in profile.candidates if marg_util_cand[cand] == min(marg_util_cand)
             ]
             for cand in cands_to_remove:
-                next_committee = tuple(set(committee) - {cand})
+                next_committee = tuple(sorted(set(committee) - {cand}))
                 comm_scores_next[next_committee] = score - score_reduction
             comm_scores = comm_scores_next
 
-- 
2.43.0


From 2b72ab2a64f3e53a46f9aa0e1da2f440d6b60be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 06/13] =?UTF-8?q?fix:=20Phragm=C3=A9n=20load=20models=20fo?=
 =?UTF-8?q?r=20solvers=20allow=20for=20loads=20larger=20than=20one=20(vote?=
 =?UTF-8?q?rs=20with=20weight=20<=201)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 abcvoting/abcrules_gurobi.py | 15 +++++++++------
 abcvoting/abcrules_mip.py    |  6 ++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/abcvoting/abcrules_gurobi.py b/abcvoting/abcrules_gurobi.py
index 07fb05b..6f0180b 100644
--- a/abcvoting/abcrules_gurobi.py
+++ b/abcvoting/abcrules_gurobi.py
@@ -381,7 +381,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
         load = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         # constraint: the committee has the required size
         model.addConstr(
@@ -404,7 +404,7 @@ def _gurobi_minimaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 >= in_committee[cand]
             )
 
-        loadbound = model.addVar(lb=0, ub=committeesize, name="loadbound")
+        loadbound = model.addVar(lb=0, name="loadbound")
         for voter in profile:
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved) <= loadbound
@@ -452,7 +452,7 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
         loadbound_constraint = {}
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
-                load[(voter, cand)] = model.addVar(ub=1.0, lb=0.0, name=f"load{i}-{cand}")
+                load[(voter, cand)] = model.addVar(lb=0.0, name=f"load{i}-{cand}")
 
         for i, _ in enumerate(profile):
             for j, _ in enumerate(profile):
@@ -494,18 +494,18 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
                 model.addConstr(
                     gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                     <= loadbounds[i]
-                    + (1 - loadbound_constraint[(i, j)]) * committeesize
+                    + (1 - loadbound_constraint[(i, j)]) * max_load
                     + ACCURACY
                     # constraint applies only if loadbound_constraint[(i, voter)] == 1
                 )
 
-        newloadbound = model.addVar(lb=0, ub=committeesize, name="new loadbound")
+        newloadbound = model.addVar(lb=0, name="new loadbound")
         for j, voter in enumerate(profile):
             model.addConstr(
                 gb.quicksum(load[(voter, cand)] for cand in voter.approved)
                 <= newloadbound
                 + gb.quicksum(
-                    loadbound_constraint[(i, j)] * committeesize for i in range(len(loadbounds))
+                    loadbound_constraint[(i, j)] * max_load for i in range(len(loadbounds))
                 )
             )
 
@@ -534,6 +534,9 @@ def _gurobi_leximaxphragmen(profile, committeesize, resolute, max_num_of_committ
             )
         )
 
+    # upper bound on the load of a single voter
+    max_load = committeesize / min(1, float(min(voter.weight for voter in profile)))
+
     loadbounds = []
     for iteration in range(len(profile) - 1):
         # in interation we enforce a new loadbound.
diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index 98e14f6..b873f18 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -318,7 +318,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
         for cand in profile.candidates:
             for i, voter in enumerate(profile):
                 load[(voter, cand)] = model.add_var(
-                    lb=0.0, ub=1.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
+                    lb=0.0, var_type=mip.CONTINUOUS, name=f"load{i}-{cand}"
                 )
 
         # constraint: the committee has the required size
@@ -340,9 +340,7 @@ def _mip_minimaxphragmen(profile, committeesize, resolute, max_num_of_committees
                 >= in_committee[cand]
             )
 
-        loadbound = model.add_var(
-            lb=0, ub=committeesize, var_type=mip.CONTINUOUS, name="loadbound"
-        )
+        loadbound = model.add_var(lb=0, var_type=mip.CONTINUOUS, name="loadbound")
         for voter in profile:
             model += mip.xsum(load[(voter, cand)] for cand in voter.approved) <= loadbound
 
-- 
2.43.0


From 4ea0a54c63b42bfabfc01c5b29e336e3e5961142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 07/13] fix: build a new Python MIP model for every committee,
 as CBC returns wrong results for reused models

---
 abcvoting/abcrules_mip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abcvoting/abcrules_mip.py b/abcvoting/abcrules_mip.py
index b873f18..83949d6 100644
--- a/abcvoting/abcrules_mip.py
+++ b/abcvoting/abcrules_mip.py
@@ -21,7 +21,7 @@ def _optimize_rule_mip(
     solver_id,
     name="None",
     committeescorefct=None,
-    reuse_model=True,
+    reuse_model=False,
 ):
     """Compute rules, which are given in the form of an optimization problem, using Python MIP.
 
@@ -44,7 +44,8 @@ def _optimize_rule_mip(
         a function used to compute the score of a committee
     reuse_model : bool
         use the same model in each iteration and just add additional constraints,
-        faster if reuse_model==True
+        faster if reuse_model==True, but CBC may return incorrect solutions if constraints
+        are added to a model that has already been solved
 
     Returns
     -------
-- 
2.43.0


From e982fdf6685b87ab83058cd67b044b34777aab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 08/13] fix: branch-and-bound does not prune optimal committees
 for increasing marginal scores

---
 abcvoting/abcrules.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 7e3f75c..1283982 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -774,6 +774,12 @@ def _thiele_methods_branchandbound(
     """
     marginal_scorefct = scores.get_marginal_scorefct(scorefct_id, committeesize)
 
+    # `upper_bound` (see below) is valid only if marginal scores are non-increasing
+    score_values = [marginal_scorefct(x) for x in range(1, committeesize + 1)]
+    use_upper_bound = all(
+        first >= second for first, second in zip(score_values, score_values[1:])
+    )
+
     best_committees = []
     init_com, _ = _seq_thiele_resolute(scorefct_id, profile, committeesize)
     init_com = init_com[0]
@@ -802,7 +808,7 @@ def _thiele_methods_branchandbound(
             upper_bound = sum(
                 sorted(marg_util_cand[largest_cand + 1 :])[-missing:]
             ) + scores.thiele_score(scorefct_id, profile, part_com)
-            if upper_bound >= best_score:
+            if upper_bound >= best_score or not use_upper_bound:
                 for cand in range(largest_cand + 1, profile.num_cand - missing + 1):
                     part_coms.insert(0, part_com + [cand])
 
-- 
2.43.0


From af42febbaba6acc51d53b4992fb57e3a2a2ab2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 09/13] fix: EJR+ check does not fail with KeyError for quotas
 larger than the Hare quota

---
 abcvoting/properties.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 07160d1..601c276 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -1093,7 +1093,10 @@ def _check_EJR_plus(profile, committee, quota):
     for cand in profile.candidates:
         if cand in committee:
             continue
-        supporters_by_utility = {ell: set() for ell in range(ell_upper_bound + 1)}
+        # (utilities can exceed `ell_upper_bound`, but not the committee size)
+        supporters_by_utility = {
+            ell: set() for ell in range(max(ell_upper_bound, len(committee)) + 1)
+        }
         for vi, voter in enumerate(profile):
             if cand in voter.approved:
                 utility = len(voter.approved & committee)
-- 
2.43.0


From 1182ac0350b20bc28412aa3d2b9f4878261ae022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 10/13] fix: brute-force EJR and PJR checks are correct for
 weighted voters and report the violating group

---
 abcvoting/properties.py | 111 ++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 73 deletions(-)

diff --git a/abcvoting/properties.py b/abcvoting/properties.py
index 601c276..7b8baca 100644
--- a/abcvoting/properties.py
+++ b/abcvoting/properties.py
@@ -4,7 +4,6 @@ Axiomatic properties of committees.
 
 import gurobipy as gb
 import itertools
-import math
 from fractions import Fraction
 from abcvoting.output import output, WARNING
 from abcvoting.misc import str_set_of_candidates, CandidateSet, dominate, powerset
@@ -718,40 +717,27 @@ def _check_EJR_brute_force(profile, committee, quota):
     # loop through all possible ell
     for ell in range(1, ell_upper_bound + 1):
         # list of voters with less than ell approved candidates in committee
-        voters_less_than_ell_approved_candidates = []
-        voters_less_than_ell_approved_candidates_weight = 0
-
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
-
-        # compute list of voters to consider
-        for i, voter in enumerate(profile):
-            if len(voter.approved & committee) < ell:
-                voters_less_than_ell_approved_candidates.append(i)
-                voters_less_than_ell_approved_candidates_weight += voter.weight
-
-        # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
-            # if not possible then simply continue with next ell
-            continue
+        voters_less_than_ell_approved_candidates = [
+            vi for vi, voter in enumerate(profile) if len(voter.approved & committee) < ell
+        ]
 
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for combination in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
-        ):
-            # compute set of candidates approved by all voters in combination
-            cut = set.intersection(*(profile[vi].approved for vi in combination))
-
-            # if size of cut is >= ell, then combination is an ell-cohesive group
-            if len(cut) >= ell:
-                # we have found combination to be an ell-cohesive set, with no voter having
+        # check all possible sets of ell jointly approved candidates
+        for joint_candidates in itertools.combinations(profile.candidates, ell):
+            # largest group of considered voters that jointly approve these candidates
+            group = [
+                vi
+                for vi in voters_less_than_ell_approved_candidates
+                if profile[vi].approved.issuperset(joint_candidates)
+            ]
+
+            # if the weight of the group is sufficient, then it is an ell-cohesive group
+            if sum(profile[vi].weight for vi in group) >= ell * quota:
+                # we have found an ell-cohesive group, with no voter having
                 # at least ell approved candidates in committee. Thus EJR fails
                 detailed_information = {
-                    "cohesive_group": voters_less_than_ell_approved_candidates,
+                    "cohesive_group": group,
                     "ell": ell,
-                    "joint_candidates": cut,
+                    "joint_candidates": set(joint_candidates),
                 }
                 return False, detailed_information
 
@@ -864,50 +850,29 @@ def _check_PJR_brute_force(profile, committee, quota):
 
     # considering ell-cohesive groups
     for ell in range(1, ell_upper_bound + 1):
-        # list of voters with less than ell approved candidates in committee
-        # will not consider voters with >= ell approved candidates in committee,
-        # because this voter will immediately satisfy the condition of PJR
-        voters_less_than_ell_approved_candidates = []
-        voters_less_than_ell_approved_candidates_weight = 0
-
-        # compute minimum group size for this ell
-        min_group_size = math.ceil(ell * quota)
-
-        # compute list of voters to consider
-        for vi, voter in enumerate(profile):
-            if len(voter.approved & committee) < ell:
-                voters_less_than_ell_approved_candidates.append(vi)
-                voters_less_than_ell_approved_candidates_weight += voter.weight
-
-        # check if an ell-cohesive group can be formed with considered voters
-        if voters_less_than_ell_approved_candidates_weight < min_group_size:
-            # if not possible then simply continue with next ell
-            continue
-
-        # check all possible combinations of considered voters,
-        # taken (possible group size) at a time
-        # todo: to support weighted profile, this iterator would need to be adjusted
-        for group in itertools.combinations(
-            voters_less_than_ell_approved_candidates, min_group_size
-        ):
-            # find set of candidates that are approved by all voters in group
-            cut = set.intersection(*(profile[j].approved for j in group))
-
-            # if size of cut is >= ell, then group is an ell-cohesive group
-            if len(cut) >= ell:
-                # now calculate union of approved candidates over all voters inside
-                # this ell-cohesive group
-                approved_cands_union = set()
-                for j in group:
-                    approved_cands_union = approved_cands_union.union(profile[j].approved)
-
-                # if intersection of `approved_cands_union` with committee yields a set of size
-                # strictly less than ell, then this ell-cohesive group violates PJR
-                if len(approved_cands_union & committee) < ell:
+        # check all possible sets of ell jointly approved candidates ...
+        for joint_candidates in itertools.combinations(profile.candidates, ell):
+            # ... and all possible sets of (less than ell) committee members
+            # that contain all members approved by some voter in the group
+            for approved_members in itertools.combinations(
+                committee, min(ell - 1, len(committee))
+            ):
+                # largest group of voters that jointly approve `joint_candidates` and that
+                # approve no other committee members than those in `approved_members`
+                group = [
+                    vi
+                    for vi, voter in enumerate(profile)
+                    if voter.approved.issuperset(joint_candidates)
+                    and (voter.approved & committee).issubset(approved_members)
+                ]
+
+                # if the weight of the group is sufficient, then it is an ell-cohesive group;
+                # as these voters approve less than ell committee members, PJR is violated
+                if sum(profile[vi].weight for vi in group) >= ell * quota:
                     detailed_information = {
-                        "cohesive_group": voters_less_than_ell_approved_candidates,
+                        "cohesive_group": group,
                         "ell": ell,
-                        "joint_candidates": cut,
+                        "joint_candidates": set(joint_candidates),
                     }
                     return False, detailed_information
 
-- 
2.43.0


From 17627a78c9a47273f2b1a041ceebe51af07cf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 11/13] fix: ballots of random profiles with fixed ballot size
 are not too small due to float imprecision

---
 abcvoting/generate.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/abcvoting/generate.py b/abcvoting/generate.py
index bf75d05..a65beb2 100644
--- a/abcvoting/generate.py
+++ b/abcvoting/generate.py
@@ -12,6 +12,7 @@ import prefsampling.point as point_samplers
 from prefsampling.core.euclidean import (
     sample_election_positions as prefsampling_sample_election_positions,
 )
+from fractions import Fraction
 from numpy.random import default_rng
 from abcvoting.preferences import Profile, Voter
 
@@ -124,7 +125,7 @@ def random_urn_fixed_size_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize, num_cand),
             "alpha": replace,
         },
     )
@@ -154,7 +155,7 @@ def random_ic_fixed_size_profile(num_voters, num_cand, setsize):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize, num_cand),
         },
     )
 
@@ -187,7 +188,7 @@ def random_mallows_profile(num_voters, num_cand, setsize, dispersion):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize, num_cand),
             "ordinal_sampler": ord_samplers.mallows,
             "ordinal_sampler_parameters": {"phi": dispersion},
         },
@@ -302,7 +303,7 @@ def random_truncated_urn_profile(num_voters, num_cand, setsize, replace):
         {
             "num_voters": num_voters,
             "num_candidates": num_cand,
-            "rel_num_approvals": setsize / num_cand,
+            "rel_num_approvals": Fraction(setsize, num_cand),
             "ordinal_sampler": ord_samplers.urn,
             "ordinal_sampler_parameters": {"alpha": replace},
         },
@@ -632,7 +633,7 @@ def random_euclidean_fixed_size_profile(
         candidate_points,
         return_points,
         app_samplers.euclidean_constant_size,
-        {"rel_num_approvals": setsize / num_cand},
+        {"rel_num_approvals": Fraction(setsize, num_cand)},
     )
 
 
-- 
2.43.0


From 8d992911bfd43e4f5a1d0fc7f912d0e59f45af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 12/13] fix: the increment completion of Equal Shares finds a
 committee also for voters with weight < 1

---
 abcvoting/abcrules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abcvoting/abcrules.py b/abcvoting/abcrules.py
index 1283982..f422e6d 100644
--- a/abcvoting/abcrules.py
+++ b/abcvoting/abcrules.py
@@ -3476,8 +3476,10 @@ def _equal_shares_algorithm_with_increment_completion(
         detailed_info = {"too_few_approved_candidates": True}
         return committees, detailed_info
 
+    # with a budget of at least `committeesize`, a voter can pay for all committee members
+    min_weight = min(voter.weight for voter in profile if len(voter.approved) > 0)
     for increment_committeesize in range(
-        committeesize, math.ceil(committeesize * profile.total_weight() + 1)
+        committeesize, math.ceil(committeesize * profile.total_weight() / min(1, min_weight) + 1)
     ):
         committees, detailed_info = _equal_shares_algorithm(
             profile,
-- 
2.43.0


From 033cee4352e03d4cb5f07e8ccdc66c8d8cef4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 13/13] fix: reading ordinal preflib files keeps the
 multiplicity of all orders

---
 abcvoting/fileio.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/abcvoting/fileio.py b/abcvoting/fileio.py
index d1c3d9a..250fedc 100644
--- a/abcvoting/fileio.py
+++ b/abcvoting/fileio.py
@@ -115,16 +115,8 @@ def read_preflib_file(filename, top_ranks=None, setsize=None, use_weights=False)
             "The preflib parser returned the following error: " + str(e)
         )
 
-    if isinstance(preflib_inst, preflib.OrdinalInstance):
-        if setsize:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, size_truncators=[setsize]
-            )
-        elif top_ranks:
-            preflib_inst = preflib.CategoricalInstance.from_ordinal(
-                preflib_inst, num_indif_classes=[1] * preflib_inst.num_alternatives
-            )
-    elif not isinstance(preflib_inst, preflib.CategoricalInstance):
+    # ballots are tuples of indifference classes (ordinal) or tuples of categories (categorical)
+    if not isinstance(preflib_inst, (preflib.OrdinalInstance, preflib.CategoricalInstance)):
         raise ValueError("Only ordinal and categorical preferences can be converted from PrefLib")
 
     # normalize candidates to 0, 1, 2, ...
-- 
2.43.0

