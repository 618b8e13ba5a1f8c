from proofs.seq import *
from proofs import scores_t

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "_revseq_thiele_resolute and _revseq_thiele_irresolute (unlimited and limited) are proved against the definition of (parallel-universes) reverse-sequential removal for all profiles, sizes and score functions, using the contract of marginal_thiele_scores_remove, itself proved from its source. Trusted: engine/, z3; floats treated as exact numbers."

MINL = z3.Function("MINL", L.COM, L.R)               # smallest loss of a member
ARGL = L.register(z3.Function("ARGL", L.COM, L.I), "cand")


def tied(S, c):
    """c is a member of S and its loss is minimal"""
    return z3.And(c >= 0, c < m, L.read(S, c), LOSS(S, c) == MINL(S))


def define_min(M):
    """definition of MINL (the minimum over a finite non-empty set exists)"""
    M.assume(L.Trig(["com"], lambda S: Imp(size(S) > k, And_(tied(S, ARGL(S)), All("cand", lambda d: Imp(L.read(S, d), LOSS(S, d) >= MINL(S))))),
                    lambda S: [MINL(S)]))


def last(S, c):
    return And_(tied(S, c), All("cand", lambda d: Imp(And_(d > c, L.read(S, d)), LOSS(S, d) > MINL(S))))


CON = {("scores", "get_marginal_scorefct"): scores_t.c_marginal_fct, ("scores", "marginal_thiele_scores_remove"): c_marginal_remove,
       ("misc", "sorted_committees"): c_sorted_committees, ("scores", "thiele_score"): c_thiele_score}


def resolute():
    gr = Greedy("revseq", full, minus, last)

    def args(M):
        committeesize(M)
        gr.assume(M, m - k)
        define_min(M)
        return ["pav", profile, k], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, lambda C: C == gr.G(m - k), "resolute", "reverse greedy committee (largest index first)")
    return Target("abcrules._revseq_thiele_resolute", ("abcrules", "_revseq_thiele_resolute"), args, post, CON,
                  loop_specs=[greedy_spec(gr, -1, m)])


RD = z3.Function("RD", L.I, L.COM, L.B)              # committee obtainable by i removals
RDP = L.register(z3.Function("RDP", L.I, L.COM, L.COM), "com", flat=True)
RDC = L.register(z3.Function("RDC", L.I, L.COM, L.I), "cand", flat=True)


def irresolute(mode):
    def args(M):
        committeesize(M)
        define_min(M)
        mx = None
        if mode == "limited":
            _, mx = mode_args(M, mode)
        z = z3.IntVal(0)
        # definition of RD by recursion on the number of removals
        M.assume(L.Trig(["com"], lambda T: Iff(RD(z, T), T == full()), lambda T: [RD(z, T)]))
        M.assume(L.Trig(["int", "com"], lambda i, T: Imp(And_(i >= 1, RD(i, T)), And_(RD(i - 1, RDP(i, T)), tied(RDP(i, T), RDC(i, T)), T == minus(RDP(i, T), RDC(i, T)))),
                        lambda i, T: [RD(i, T)], depth=0))
        M.assume(L.Trig(["int", "com", "int"], lambda i, p, c: Imp(And_(i >= 0, RD(i, p), tied(p, c)), RD(i + 1, minus(p, c))),
                        lambda i, p, c: [RD(i, p), minus(p, c)], depth=1))
        return ["pav", profile, k, mx], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, lambda C: RD(m - k, C), mode, "obtainable committees")

    def cands(lp):
        bags = [l for l, t in lp.templates.items() if t.kind == "bag" and bi.bag_kinds(t.kw["shape"])[:1] == ["com"]]
        out = []
        for b in bags:
            out.append((f"{b[-1]}: committees obtainable by this many removals", lambda v, b=b: All("com", lambda T: Imp(in_bag(v, b, T), RD(v.j, T)))))
            out.append((f"{b[-1]}: sizes", lambda v, b=b: All("com", lambda T: Imp(in_bag(v, b, T), size(T) == m - v.j))))
            out.append((f"{b[-1]} is not empty", lambda v, b=b: Ex("com", lambda T: in_bag(v, b, T))))
            out.append((f"{b[-1]}: all committees obtainable by this many removals", lambda v, b=b: All("com", lambda T: Imp(RD(v.j, T), in_bag(v, b, T)))))
        return out
    return Target(f"abcrules._revseq_thiele_irresolute[{mode}]", ("abcrules", "_revseq_thiele_irresolute"), args, post, CON,
                  loop_specs=[InvSpec(cands, kind="for", applies=lambda M, s, it: it.kind != "cand")])


def targets(tree):
    return [resolute(), irresolute("all"), irresolute("limited"), scores_t.thiele_targets()[3]]
