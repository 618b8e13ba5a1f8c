from proofs.opt import *
from proofs import scores_t

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "_lexcc_bruteforce (resolute, irresolute, limited) is proved against the definition for all profiles and sizes, using the contract of thiele_score proved in C02 and of the at-least-l score functions. Solver-based algorithms belong to C12. Trusted: engine/, z3; floats treated as exact numbers."

AL = z3.Function("AL", L.I, L.COM, L.R)    # total weight of the voters approving at least l members (thiele_score of 'atleast<l>')


def c_thiele(M, vals):
    """contract of scores.thiele_score for the identifiers atleast1, atleast2, ..."""
    sid = vals["scorefct_id"]
    parts = [sid] if isinstance(sid, str) else getattr(sid, "parts", None)
    ell = None
    if parts and len(parts) == 2 and parts[0] == "atleast" and isinstance(parts[1], tuple):
        ell = parts[1][1]
    elif parts and len(parts) == 1 and parts[0].startswith("atleast") and parts[0][7:].isdigit():
        ell = z3.IntVal(int(parts[0][7:]))
    if ell is None:
        raise Unsupported("score identifier of unknown form")
    return AL(ell, arr_of(M, vals["committee"]))


def vec(C):
    return lambda i: AL(i + 1, C)


def bruteforce(mode):
    def args(M):
        committeesize(M)
        M.assume(All("com", lambda C: All("pos", lambda i: vec(C)(i) >= 0)))
        res, mx = mode_args(M, mode)
        return [profile, k, res, mx], {}

    def win(C):
        return And_(valid(C), All("com", lambda D: Imp(valid(D), lexge(vec(C), vec(D), k, 1))))

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, win, mode, "committees with lexicographically maximal coverage")
    return Target(f"abcrules._lexcc_bruteforce[{mode}]", ("abcrules", "_lexcc_bruteforce"), args, post,
                  {("scores", "thiele_score"): c_thiele, ("misc", "sorted_committees"): c_sorted_committees},
                  loop_specs=[lex_spec(vec, k, 1)])


def targets(tree):
    return [bruteforce(m_) for m_ in MODES] + scores_t.thiele_targets()[:2] + [t for t in scores_t.fct_targets() if "least" in t.name]
