"""Regenerates /verif/properties.jsonl (author's tool, not a check)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw)))
R='abcvoting/abcrules.py'; G='abcvoting/abcrules_gurobi.py'; M='abcvoting/abcrules_mip.py'; O='abcvoting/abcrules_ortools.py'
S='abcvoting/scores.py'; X='abcvoting/misc.py'; PR='abcvoting/preferences.py'; PP='abcvoting/properties.py'; F='abcvoting/fileio.py'; GE='abcvoting/generate.py'
p('C01','Every computed outcome is a well-formed list of committees',
 'For every valid profile, committee size, rule and supported algorithm, a computation returns a non-empty list of pairwise different committees, each consisting of existing, distinct candidates and having exactly the requested size (at most the requested size for Equal Shares without completion). A resolute computation returns exactly one committee, and a limit on the number of committees is never exceeded. The computation never fails on valid input, except where an algorithm documents that it does not support the kind of weights given.',
 ['inputs','configurations'],'all profiles (any numbers of voters and candidates, positive weights), all committee sizes, all rules, algorithms, resolute settings and limits',
 'The tests fix a few dozen small profiles with at most about 8 candidates and mostly unit weights; duplicates, wrong sizes and crashes appear only for particular tie structures, weights or candidate counts.',
 [R,X,G,M,O],[('output normalisation','abcvoting/misc.py sorted_committees, CandidateSet'),('parameter validation and dispatch','abcvoting/abcrules.py compute_* functions'),('enumeration loops','abcvoting/abcrules.py _*_algorithm, _*_irresolute, _*_bruteforce')])
p('C02','Optimising Thiele methods return exactly the best committees',
 'For every profile and committee size, the exhaustive and branch-and-bound computations of a Thiele method return, when all winners are requested, exactly the committees of that size whose total voter satisfaction (voter weight times the cumulative value of the number of approved members) is maximal. When one winner or a limited number is requested, only such committees are returned.',
 ['inputs'],'all profiles, weights, committee sizes and supported satisfaction functions',
 'Optimality over all committees for all profiles; the tests compare against fixed outputs on a handful of instances, so a wrong bound or comparison that matters only for some tie or weight pattern stays unseen.',
 [R,S],[('exhaustive search','abcvoting/abcrules.py _thiele_methods_bruteforce'),('branch and bound','abcvoting/abcrules.py _thiele_methods_branchandbound'),('score','abcvoting/scores.py thiele_score, marginal_thiele_scores_add, *_score_fct')])
p('C03','Sequential Thiele methods follow the greedy definition',
 'Sequential Thiele methods build committees by repeatedly adding a candidate outside the current committee whose addition increases the weighted Thiele score most. The resolute outcome is the committee obtained by always taking the smallest-index such candidate. The irresolute outcome is exactly the set of all committees obtainable under any choice among tied candidates; a limit yields a subset of it.',
 ['inputs','histories'],'all profiles, weights, committee sizes, satisfaction functions and all tie-breaking histories',
 'A statement about all tie-breaking histories of all profiles; the tests pin a few outputs.',
 [R,S],[('greedy step','abcvoting/scores.py marginal_thiele_scores_add'),('resolute loop','abcvoting/abcrules.py _seq_thiele_resolute'),('all histories','abcvoting/abcrules.py _seq_thiele_irresolute')])
p('C04','Reverse sequential Thiele methods follow the removal definition',
 'Reverse sequential Thiele methods start with all candidates and repeatedly remove a candidate whose removal decreases the weighted Thiele score least, until the committee size is reached. The resolute outcome is the committee obtained by always removing the largest-index such candidate. The irresolute outcome is exactly the set of all committees obtainable under any choice among tied candidates; a limit yields a subset of it.',
 ['inputs','histories'],'all profiles, weights, committee sizes, satisfaction functions and all tie-breaking histories',
 'A statement about all tie-breaking histories of all profiles, including candidate counts larger than those in the tests.',
 [R,S],[('removal step','abcvoting/scores.py marginal_thiele_scores_remove'),('resolute loop','abcvoting/abcrules.py _revseq_thiele_resolute'),('all histories','abcvoting/abcrules.py _revseq_thiele_irresolute')])
p('C05','Approval voting and SAV return exactly the top-scoring committees',
 'Approval Voting and Satisfaction Approval Voting return exactly the committees of the requested size that maximise the sum of candidate scores, where a candidate scores, from each voter approving it, the weight of the voter, respectively that weight divided by the number of candidates this voter approves. A resolute or limited computation returns a subset of those committees.',
 ['inputs'],'all profiles with integer or fractional weights and all committee sizes',
 'Exact ties between sums of fractions over all profiles; the tests contain a few hand-picked ties.',
 [R],[('score accumulation and cut-off','abcvoting/abcrules.py _separable_rule_algorithm')])
p('C06','Sequential Phragmén implements the load-balancing definition',
 'With exact arithmetic, the sequential Phragmén rule repeatedly selects, among approved candidates not yet selected, one that minimises the new maximal load when one unit of load is distributed over its approvers so that their loads become equal, and updates loads accordingly; unapproved candidates are only selected when no approved candidate remains. The resolute outcome breaks ties in favour of the smallest index, the irresolute outcome is exactly the set of committees obtainable under any tie-breaking, and a limit yields a subset.',
 ['inputs','histories'],'all profiles with positive rational weights, committee sizes and tie-breaking histories (exact-arithmetic algorithms)',
 'Load computations and sentinels have to be right for every weight combination and every tie-breaking history; the tests use few profiles and integral weights.',
 [R],[('load computation, resolute','abcvoting/abcrules.py _seqphragmen_resolute'),('load computation, all histories','abcvoting/abcrules.py _seqphragmen_irresolute')])
p('C07','The Method of Equal Shares implements its definition and completions',
 'With exact arithmetic, the Method of Equal Shares gives every voter a weight-proportional share of the committee size as budget and repeatedly buys a candidate of unit cost with the smallest maximal per-weight payment among affordable ones, charging each supporter the minimum of this payment and the remaining budget. The completion by sequential Phragmén continues from the spent budgets, the AV completion adds the highest-scoring remaining candidates, the increment completion uses the smallest integer budget increment that fills the committee, and without completion the bought candidates are returned. The resolute outcome breaks ties in favour of the smallest index; the irresolute outcome is exactly the set of committees obtainable under any tie-breaking.',
 ['inputs','histories'],'all profiles with positive rational weights, committee sizes, completions and tie-breaking histories (exact-arithmetic algorithms)',
 'Budget arithmetic must be right for all profiles and all purchase histories; tests cover a few instances with mainly unit weights.',
 [R],[('smallest affordable payment','abcvoting/abcrules.py _equal_shares_algorithm._equal_shares_get_min_q'),('purchase loop','abcvoting/abcrules.py _equal_shares_algorithm'),('completions','abcvoting/abcrules.py phragmen_phase, av_phase, _equal_shares_algorithm_with_increment_completion')])
p('C08','Phragmén-Eneström and the consensus rule implement their definitions',
 'With exact arithmetic, Phragmén-Eneström repeatedly selects a remaining candidate with the largest total remaining voting power of its approvers and, if that exceeds the Hare quota, scales the power of these approvers so that exactly one quota is spent, and otherwise removes all of it. The consensus rule gives every voter its weight as additional budget in every round, selects a remaining candidate whose approvers with positive budget hold the largest total budget and charges them, in proportion to weight, the total weight of all voters. The irresolute outcome is exactly the set of committees obtainable under any tie-breaking, the resolute outcome and a limited outcome are subsets.',
 ['inputs','histories'],'all profiles with positive rational weights, committee sizes and tie-breaking histories (exact-arithmetic algorithms)',
 'Aliasing of budgets between tie-breaking branches or a wrong charge shows only for particular histories.',
 [R],[('Phragmén-Eneström','abcvoting/abcrules.py _phragmen_enestroem_algorithm'),('consensus rule','abcvoting/abcrules.py _consensus_rule_algorithm')])
p('C09','Minimax AV and lexicographic minimax AV return exactly the best committees',
 'The exhaustive computations of minimax approval voting and of its lexicographic refinement return exactly the committees of the requested size that minimise the largest Hamming distance to a ballot, respectively whose non-increasingly sorted vector of Hamming distances is lexicographically minimal. A resolute or limited computation returns a subset.',
 ['inputs'],'all profiles and committee sizes','Optimality over all committees of all profiles cannot be sampled.',
 [R,S,X],[('minimax AV','abcvoting/abcrules.py _minimaxav_bruteforce'),('lex-MAV','abcvoting/abcrules.py _lexminimaxav_bruteforce'),('distance','abcvoting/scores.py minimaxav_score, abcvoting/misc.py hamming')])
p('C10','Lexicographic Chamberlin-Courant returns exactly the best committees',
 'The exhaustive computation of lexicographic Chamberlin-Courant returns exactly the committees of the requested size for which the vector whose i-th entry is the total weight of voters approving at least i members is lexicographically maximal. A resolute or limited computation returns a subset.',
 ['inputs'],'all profiles, weights and committee sizes','Lexicographic optimality over all committees of all profiles; the tests contain a handful of instances.',
 [R,S],[('lexicographic comparison','abcvoting/abcrules.py _lexcc_bruteforce'),('at-least scores','abcvoting/scores.py thiele_score, at_least_ell_fct')])
p('C11','Monroe and Greedy Monroe implement their definitions',
 'The Monroe score of a committee is the largest number of voters that can be represented by an approved member when every voter is assigned to one member and the numbers of voters assigned to members differ by at most one; exhaustive Monroe returns exactly the committees with maximal score (resolute or limited: a subset). Greedy Monroe repeatedly selects a remaining candidate approved by the largest number of unassigned voters and assigns up to one district of those voters to it, larger districts first.',
 ['inputs'],'all unit-weight profiles and committee sizes','Optimal assignments over all committees and profiles.',
 [R,S],[('Monroe score','abcvoting/scores.py monroescore, monroescore_matching, monroescore_flowbased'),('exhaustive Monroe','abcvoting/abcrules.py _monroe_bruteforce'),('Greedy Monroe','abcvoting/abcrules.py _greedy_monroe_algorithm')])
p('C12','Solver-based algorithms agree with the definition of their rule',
 'Every algorithm that delegates to an integer-programming or constraint solver returns the same committees as the definition of its rule: all optimal committees when all winners are requested, and some of them when one winner or a limited number is requested. This covers Thiele methods, lexicographic Chamberlin-Courant, Monroe, minimax AV and lex-MAV, minimax and leximax Phragmén (loads) and the maximin support method (supports).',
 ['inputs','configurations'],'all profiles whose optimal and next-best scores differ by more than the solver tolerances, all committee sizes, all available solvers',
 'A wrong or missing model constraint, variable bound or stopping condition changes the outcome only for particular profiles.',
 [G,M,O,R],[('Gurobi models','abcvoting/abcrules_gurobi.py'),('MIP models','abcvoting/abcrules_mip.py'),('CP models','abcvoting/abcrules_ortools.py'),('maximin support loops','abcvoting/abcrules.py _maximin_support_resolute, _maximin_support_irresolute')])
p('C13','Invalid requests are rejected and valid requests are accepted',
 'Every rule rejects, with an exception and without computing, committee sizes below one or above the number of candidates, profiles without voters, algorithms that the rule does not offer, unsupported resolute settings, limits that are not positive integers, and limits combined with resolute computation; rules defined only for unit weights reject weighted profiles. Unknown rules are rejected. Every listed rule accepts each of its listed, available algorithms and resolute values, and by default uses its first available algorithm and its first listed resolute value.',
 ['inputs','configurations'],'all combinations of rule, committee size, profile, algorithm, resolute setting and limit',
 'The full cross product of parameters is infinite; the tests try a few wrong values for some rules.',
 [R],[('validation','abcvoting/abcrules.py Rule.verify_compute_parameters'),('rule table','abcvoting/abcrules.py Rule.__init__'),('dispatch','abcvoting/abcrules.py compute, compute_*')])
p('C14','Computations neither change their inputs nor depend on history',
 'Computing a rule, a score or a committee property never changes the given profile, its voters, or a given committee. Repeating a deterministic computation with equal inputs, in any order and after any other computations, gives the same result (a solver may choose any optimal committee when not all winners are requested), and the verbosity of output does not influence it.',
 ['inputs','histories'],'all sequences of calls on all profiles','A statement about every sequence of calls and every object reachable from the arguments.',
 [R,S,PP,'abcvoting/output.py',PR],[('rule computations','abcvoting/abcrules.py'),('scores','abcvoting/scores.py'),('properties','abcvoting/properties.py')])
p('C15','Outcomes depend only on the weighted collection of ballots',
 'For rules with weighted voters, replacing a voter of integer weight by as many unit-weight copies, merging equal ballots by adding their weights, or reordering voters leaves the set of all winning committees unchanged; the same holds for the truth of committee properties. Multiplying all weights by a positive constant leaves the winners, when computed with exact arithmetic, of the rules that are scale-invariant by definition unchanged (Thiele methods, AV, SAV, lexicographic Chamberlin-Courant, Phragmén-Eneström, consensus rule, E Pluribus Hugo).',
 ['inputs'],'all profiles and all weight decompositions, rules whose irresolute outcome is defined','A relation between infinitely many pairs of profiles; unit tests compare a few outputs.',
 [R,S,PP],[('weighted sums','abcvoting/scores.py, abcvoting/abcrules.py'),('properties','abcvoting/properties.py')])
p('C16','Justified representation and EJR+ checks are exact',
 'The check for justified representation fails exactly if some group of voters with total weight of at least the quota jointly approves a candidate while none of them approves a committee member. The check for EJR+ fails exactly if, for some positive integer l, some group of voters with total weight of at least l quotas jointly approves a candidate outside the committee while each of them approves fewer than l members. A reported group is such a group, and the quota defaults to total weight divided by committee size.',
 ['inputs'],'all profiles, weights, committees and positive quotas','Equivalence with a statement over all voter groups.',
 [PP],[('JR','abcvoting/properties.py _check_JR'),('EJR+','abcvoting/properties.py _check_EJR_plus')])
p('C17','EJR, PJR and FJR checks are exact for every algorithm',
 'The checks for EJR, PJR and FJR answer no exactly if a violating group exists: a group with total weight of at least l quotas (for EJR and PJR jointly approving l candidates) in which every voter approves fewer than l members (EJR), whose voters together approve fewer than l members (PJR), or which, for some candidate set of size l and some b, approves at least b of these candidates each but fewer than b members each (FJR). Exhaustive and solver-based algorithms give the same answer, for weighted voters and any positive quota.',
 ['inputs','configurations'],'all profiles, weights, committees, positive quotas and both algorithms','Equivalence with a statement over all voter groups; weighted groups hardly occur in the tests.',
 [PP],[('EJR','abcvoting/properties.py _check_EJR_brute_force, _check_EJR_gurobi'),('PJR','abcvoting/properties.py _check_PJR_brute_force, _check_PJR_gurobi'),('FJR','abcvoting/properties.py _check_FJR_brute_force, _check_FJR_gurobi')])
p('C18','Pareto optimality and core checks are exact for every algorithm',
 'The Pareto check answers no exactly if another committee of the same size gives every voter at least as many approved members and some voter more. The core check answers no exactly if some group of voters and some candidate set, whose size times the quota is at most the weight of the group, exist such that every voter of the group approves more candidates of the set than members of the committee. Exhaustive and solver-based algorithms give the same answer.',
 ['inputs','configurations'],'all profiles, weights, committees, quotas and both algorithms','Equivalence with a statement over all committees and all coalitions.',
 [PP,X],[('Pareto','abcvoting/properties.py _check_pareto_optimality_brute_force, _check_pareto_optimality_gurobi; abcvoting/misc.py dominate'),('core','abcvoting/properties.py _check_core_brute_force, _check_core_gurobi')])
p('C19','Priceability checks are exact',
 'A committee is reported as priceable exactly if there is a budget and there are payments of voters, each at most its weight times the budget, only for approved members, such that every member receives exactly one unit and the supporters of any non-member together keep at most one unit; stable priceability is reported exactly if moreover, for every non-member, the sum over its supporters of the larger of their remaining budget and their largest payment is at most one unit. If fewer candidates are approved than the committee has members, a committee is accepted exactly if it contains all of the approved candidates.',
 ['inputs'],'all profiles, weights and committees','Existence of a price system over the reals, for every profile.',
 [PP],[('linear programme','abcvoting/properties.py _check_priceability_gurobi')])
p('C20','Profiles keep valid ballots and conversions preserve content',
 'Every voter in a profile always has a duplicate-free set of existing candidates and a positive weight, whichever way it was added, and adding invalid ballots, weights or names fails without changing the profile. Converting to weighted form and to unit weights preserves the total weight of every approval set, copies are equal in content (candidates, names, ballots, weights, order) and independent of the original, and size, total weight, approved candidates, unit-weight and party-list queries reflect the stored ballots.',
 ['inputs','histories'],'all sequences of profile operations with valid and invalid arguments','An invariant over all histories of operations.',
 [PR,X],[('profile operations','abcvoting/preferences.py Profile'),('ballots','abcvoting/preferences.py Voter, abcvoting/misc.py CandidateSet')])
p('C21','Writing and reading a voting instance file is lossless',
 'Reading a file written in the native instance format, from a profile with integer or floating-point weights, gives back the same number of candidates, the same ballots in the same order with the same weights, the same committee size, the same description and the same computation requests with the same expected results. Malformed instance files are rejected.',
 ['inputs'],'all profiles (including weighted profiles and empty ballots), committee sizes, descriptions and computation requests','All combinations of content; the tests write a few files.',
 [F],[('writer','abcvoting/fileio.py write_abcvoting_instance_to_yaml_file'),('reader','abcvoting/fileio.py read_abcvoting_yaml_file')])
p('C22','Preflib files are converted faithfully',
 'Reading a categorical or ordinal preflib file yields, for every ballot, as many voters (or the weight) as its multiplicity, approving exactly the candidates in the first requested number of categories or indifference classes, or the smallest prefix of whole classes that contains at least the requested number of candidates (all candidates if the ballot ranks too few). A profile with integer weights that is written as a categorical file and read back gives the same candidate count, names and the same multiset of ballots.',
 ['inputs'],'all preflib ballots, truncation parameters, profiles with integer weights','All files and parameter combinations; the tests read a handful of files.',
 [F],[('reader','abcvoting/fileio.py read_preflib_file'),('writer','abcvoting/fileio.py write_profile_to_preflib_cat_file'),('directory listing','abcvoting/fileio.py get_file_names, read_preflib_files_from_dir')])
p('C23','Random profiles have the requested shape',
 'For every supported probability distribution and all valid parameters, a generated profile has exactly the requested numbers of voters and candidates, valid unit-weight ballots, and, for distributions with a given ballot size, every ballot has exactly that size. Selecting a distribution by its identifier is equivalent to calling its generator with the same parameters, and unknown identifiers are rejected.',
 ['inputs','configurations'],'all numbers of voters and candidates, ballot sizes, distributions, parameters and random seeds','The parameter space is infinite; the tests try a few sizes.',
 [GE],[('samplers','abcvoting/generate.py random_*_profile'),('dispatch','abcvoting/generate.py random_profile')])
p('C24','E Pluribus Hugo, random serial dictator and trivial rule follow definitions',
 'With exact arithmetic, E Pluribus Hugo repeatedly considers the remaining candidates whose split score does not exceed the second-lowest one and eliminates among them all those with the fewest weighted approvals, choosing only as many of the last eliminated candidates as needed to reach the committee size in all possible ways. Random serial dictator always returns a committee produced by some order of the voters in which every ballot is added in full while it fits, and the trivial rule returns every committee of the requested size.',
 ['inputs','schedules'],'all profiles, committee sizes, limits and random choices','All profiles and all random choices.',
 [R],[('EPH','abcvoting/abcrules.py _eph_algorithm'),('RSD','abcvoting/abcrules.py compute_rsd'),('trivial rule','abcvoting/abcrules.py compute_trivial_rule')])
p('C25','Comparing computed with expected committees is exact',
 'Comparing two lists of committees succeeds exactly if they contain the same committees, irrespective of order. Verifying a computation against expected committees succeeds exactly if the computed list equals the expected one in this sense or, for resolute computations, if exactly one committee was computed and it is among the expected ones; otherwise an error is raised. Dominance, Hamming distance, power set and binomial helpers agree with their mathematical definitions.',
 ['inputs'],'all lists of committees and all arguments of the helpers','All pairs of lists.',
 [X,R],[('comparison','abcvoting/misc.py compare_list_of_committees, verify_expected_committees_equals_actual_committees'),('helpers','abcvoting/misc.py dominate, hamming, powerset, binom'),('use','abcvoting/abcrules.py compute')])
p('C26','Resolute, limited and unlimited outcomes are consistent',
 'For every rule with an irresolute variant and every algorithm with exact arithmetic, the single committee of a resolute computation and all committees of a limited computation are among the committees of the unlimited irresolute computation. A limited computation returns exactly as many committees as the limit allows and as exist, and all algorithms of a rule return the same committees in irresolute computations.',
 ['inputs','configurations'],'all profiles, committee sizes, limits, rules and algorithm pairs','A relation between runs with different settings, for all profiles.',
 [R,G,M,O],[('limits and resolute handling','abcvoting/abcrules.py all rule algorithms'),('solver loops','abcvoting/abcrules_gurobi.py _optimize_rule_gurobi, abcvoting/abcrules_mip.py _optimize_rule_mip, abcvoting/abcrules_ortools.py _optimize_rule_ortools')])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
