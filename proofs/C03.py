from proofs.seq import *
from proofs import scores_t

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "_seq_thiele_resolute and _seq_thiele_irresolute (unlimited and limited) are proved against the definition of the (parallel-universes) greedy sequence for all profiles, sizes and score functions, using the contract of marginal_thiele_scores_add, itself proved from its source. Trusted: engine/, z3; floats treated as exact numbers."


MAXG = z3.Function("MAXG", L.COM, L.R)               # largest gain of a candidate outside the set
ARGG = L.register(z3.Function("ARGG", L.COM, L.I), "cand")


def tied(S, c):
    """c is outside S and its gain is maximal"""
    return z3.And(c >= 0, c < m, z3.Not(L.read(S, c)), GAIN(S, c) == MAXG(S))


def define_max(M):
    """definition of MAXG (the maximum over a finite non-empty set exists)"""
    M.assume(L.Trig(["com"], lambda S: Imp(size(S) < k, And_(tied(S, ARGG(S)), All("cand", lambda d: Imp(z3.Not(L.read(S, d)), GAIN(S, d) <= MAXG(S))))),
                    lambda S: [MAXG(S)]))


def first(S, c):
    return And_(tied(S, c), All("cand", lambda d: Imp(And_(d < c, z3.Not(L.read(S, d))), GAIN(S, d) < MAXG(S))))


CON = {("scores", "get_marginal_scorefct"): scores_t.c_marginal_fct, ("scores", "marginal_thiele_scores_add"): c_marginal_add,
       ("misc", "sorted_committees"): c_sorted_committees}


def resolute():
    gr = Greedy("seq", empty, plus, first)

    def args(M):
        committeesize(M)
        gr.assume(M, k)
        define_max(M)
        return ["pav", profile, k], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, lambda C: C == gr.G(k), "resolute", "greedy committee (smallest index first)")
        b = outcome_committees(M, r)
    return Target("abcrules._seq_thiele_resolute", ("abcrules", "_seq_thiele_resolute"), args, post, CON, loop_specs=[greedy_spec(gr)])


def irresolute(mode):
    re = Reach("seq", tied, plus)

    def args(M):
        committeesize(M)
        re.assume(M)
        define_max(M)
        res, mx = mode_args(M, mode)
        return ["pav", profile, k, mx], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        check_result(M, r, lambda C: re.LEADS(empty(), C), mode, "obtainable committees")

    def cands(lp):
        bags = [l for l, t in lp.templates.items() if t.kind == "bag" and bi.bag_kinds(t.kw["shape"]) == ["com"]]
        work = [l for l in bags if lp.templates[l].kw["typ"] == "list"]
        wins = [l for l in bags if lp.templates[l].kw["typ"] == "set"]
        out = []
        e = empty()
        for p in work:
            out.append((f"{p[-1]}: partial committees", lambda v, p=p: All("com", lambda q: Imp(in_bag(v, p, q), size(q) < k))))
            out.append((f"{p[-1]}: partial committees are obtainable", lambda v, p=p: All("com", lambda q: Imp(in_bag(v, p, q), All("com", lambda T: Imp(
                re.LEADS(q, T), re.LEADS(e, T)))))))
            for x in wins:
                out.append((f"{x[-1]}: every obtainable committee is found or still obtainable from {p[-1]}",
                            lambda v, p=p, x=x: All("com", lambda T: Imp(re.LEADS(e, T), Or_(in_bag(v, x, T), Ex("com", lambda q: And_(in_bag(v, p, q), re.LEADS(q, T))))))))
        for x in wins:
            out.append((f"{x[-1]}: obtainable committees", lambda v, x=x: All("com", lambda T: Imp(in_bag(v, x, T), re.LEADS(e, T)))))
            if mode == "limited":
                out.append((f"{x[-1]}: fewer than the limit", lambda v, x=x: length_of(v.M, v[x]) < v.M.g.max))
        return out
    return Target(f"abcrules._seq_thiele_irresolute[{mode}]", ("abcrules", "_seq_thiele_irresolute"), args, post, CON,
                  loop_specs=[InvSpec(cands, kind="while")], cand_invs=[below_limit] if mode == "limited" else (), tlimit=350)


def targets(tree):
    return [resolute(), irresolute("all"), irresolute("limited"), scores_t.thiele_targets()[2]]
