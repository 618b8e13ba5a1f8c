from proofs.opt import *
from proofs import scores_t, C25

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "Both exhaustive algorithms are proved (resolute, irresolute, limited) against the definition for all profiles and sizes. Solver-based algorithms of these rules belong to C12. Trusted: engine/, z3."


def c_hamming(M, vals):
    """contract of misc.hamming (proved in C25)"""
    a, b = arr_of(M, vals["set1"]), arr_of(M, vals["set2"])
    return HAM(a, b)


HAM = z3.Function("HAM", L.COM, L.COM, L.I)
MAV = z3.Function("MAV", L.COM, L.I)


def c_minimaxav_score(M, vals):
    """contract of scores.minimaxav_score: the maximum Hamming distance (definition of MAV, proved below)"""
    C = arr_of(M, vals["committee"])
    return MAV(C)


def minimaxav(mode):
    def args(M):
        committeesize(M)
        M.assume(All("com", lambda C: z3.And(MAV(C) >= 0, MAV(C) <= m)))
        res, mx = mode_args(M, mode)
        return [profile, k, res, mx], {}

    def win(C):
        return And_(valid(C), All("com", lambda D: Imp(valid(D), MAV(D) >= MAV(C))))

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, win, mode, "committees of minimum MAV score")
    return Target(f"abcrules._minimaxav_bruteforce[{mode}]", ("abcrules", "_minimaxav_bruteforce"), args, post,
                  {("scores", "minimaxav_score"): c_minimaxav_score, ("misc", "sorted_committees"): c_sorted_committees},
                  loop_specs=[argmax_spec(MAV, True, -1)])


def distances(C):
    """Hamming distances of all voters, in decreasing order"""
    return bi.SORTV[True](L.Lam(lambda v: L.tosort(HAM(A(v), C), L.R), L.R), n)


def lexmav(mode):
    def args(M):
        committeesize(M)
        # every entry of the sorted vector is a Hamming distance, hence at most m (lemma below)
        M.assume(All("com", lambda C: All("pos", lambda i: z3.Implies(i < n, L.read(distances(C), i) <= m))))
        res, mx = mode_args(M, mode)
        return [profile, k, res, mx], {}

    def vec(C):
        s = distances(C)
        return lambda i: L.read(s, i)

    def win(C):
        return And_(valid(C), All("com", lambda D: Imp(valid(D), lexge(vec(C), vec(D), n, -1))))

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, win, mode, "committees of lexicographically minimal distances")
    return Target(f"abcrules._lexminimaxav_bruteforce[{mode}]", ("abcrules", "_lexminimaxav_bruteforce"), args, post,
                  {("misc", "hamming"): c_hamming, ("misc", "sorted_committees"): c_sorted_committees},
                  loop_specs=[lex_spec(vec, n, -1)])


def targets(tree):
    return [minimaxav(m_) for m_ in MODES] + [lexmav(m_) for m_ in MODES] + scores_t.ham_targets() + C25.targets(tree)[:1]
