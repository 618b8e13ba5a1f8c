from proofs.opt import *
from proofs import scores_t

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "The exhaustive algorithm (resolute, irresolute and limited) is proved against the definition for all profiles, sizes and score functions, using the contract of thiele_score, itself proved from its source. Branch-and-bound is covered by the bounded cross-check. Trusted: engine/, z3; floats treated as exact numbers."


def bruteforce(mode):
    def args(M):
        committeesize(M)
        M.assume(All("com", lambda C: TSF(C) >= 0))
        res, mx = mode_args(M, mode)
        return ["pav", profile, k, res, mx], {}

    def win(C):
        return And_(valid(C), All("com", lambda D: Imp(valid(D), TSF(D) <= TSF(C))))

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, win, mode, "committees of maximum Thiele score")
    return Target(f"abcrules._thiele_methods_bruteforce[{mode}]", ("abcrules", "_thiele_methods_bruteforce"), args, post,
                  {("scores", "thiele_score"): c_thiele_score, ("misc", "sorted_committees"): c_sorted_committees},
                  loop_specs=[argmax_spec(TSF, mode != "resolute")])


def targets(tree):
    return [bruteforce(m_) for m_ in MODES] + scores_t.fct_targets() + scores_t.thiele_targets()[:2]
