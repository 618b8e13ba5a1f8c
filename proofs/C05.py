from proofs.opt import *
from proofs.seq import below_limit_any

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = ("_separable_rule_algorithm (av, sav; resolute, irresolute, limited) is proved for all profiles and sizes: the returned committees are valid and every member scores at least as much as every non-member, "
        "all such committees are returned (irresolute), and by the lemmas these are the committees of maximal total score. Trusted: engine/ (incl. the contract of sorted: order statistics by counting), z3; numbers are exact "
        "(floating-point behaviour is covered by the bounded part; see the known finding SAV-FLOAT).")


def score_of(rule):
    def sc(c):
        if rule == "av":
            return Sum(n, lambda v: z3.If(A(v)[c], w(v), z3.RealVal(0)), "voter", L.R)
        return Sum(n, lambda v: z3.If(A(v)[c], w(v) / z3.ToReal(L.size_of(A(v))), z3.RealVal(0)), "voter", L.R)
    return sc


def top(sc, C):
    """a committee of the required size such that no candidate outside has a larger score than a member
    (equivalent to a maximal sum of scores: lemmas below)"""
    return And_(valid(C), All("cand", lambda c: All("cand", lambda d: Imp(And_(L.read(C, c), Not_(L.read(C, d))), sc(c) >= sc(d)))))


def ranked(sc, C):
    return All("cand", lambda c: All("cand", lambda d: Imp(And_(L.read(C, c), Not_(L.read(C, d))), sc(c) >= sc(d))))


def kth(sc, t):
    """t is the k-th largest score"""
    return z3.And(Card(lambda c: sc(c) > t) < k, Card(lambda c: sc(c) >= t) >= k)


def between(sc, t, C):
    return All("cand", lambda c: And_(Imp(sc(c) > t, L.read(C, c)), Imp(L.read(C, c), sc(c) >= t)))


def cut_lemmas(sc, t):
    """consequences of kth(sc, t), proved for arbitrary scores in the target cutoff_lemma"""
    good = lambda C: And_(valid(C), ranked(sc, C))
    return [("winning committees contain all candidates above the cutoff and none below", All("com", lambda C: Imp(good(C), between(sc, t, C)))),
            ("members above and at the cutoff", All("com", lambda C: Imp(between(sc, t, C), Card(lambda c: z3.And(L.read(C, c), sc(c) == t)) + Card(lambda c: sc(c) > t) == L.size_of(C))))]


def total(sc, C):
    return Sum(m, lambda c: z3.If(L.read(C, c), sc(c), z3.RealVal(0)), "cand", L.R)


def cutoff_lemma():
    def build(M):
        committeesize(M)
        sc = lambda c: z3.Const("S", L.RARR)[c]
        t = M.fresh("t", "real")
        M.assume(kth(sc, t))
        good = lambda C: And_(valid(C), ranked(sc, C))
        M.oblige("all candidates above the cutoff", All("com", lambda C: Imp(good(C), All("cand", lambda c: Imp(sc(c) > t, L.read(C, c))))))
        M.oblige("no candidate below the cutoff", All("com", lambda C: Imp(good(C), All("cand", lambda c: Imp(L.read(C, c), sc(c) >= t)))))
        for nm, f in cut_lemmas(sc, t):
            M.oblige(nm, f)
    return lemma("committees of maximal score and the k-th largest score", build)


def ranked_is_optimal():
    """ranked committees are those of maximal total score"""
    def build(M):
        committeesize(M)
        sc = lambda c: z3.Const("S", L.RARR)[c]
        t = M.fresh("t", "real")
        C, D = com(M, "C"), com(M, "D")
        C, D = arr_of(M, C), arr_of(M, D)
        M.assume(And_(valid(C), between(sc, t, C), valid(D)))
        comb = total(sc, C) - total(sc, D) - t * L.size_of(C) + t * L.size_of(D)
        M.oblige("between the cutoff: at least as good as any committee (difference)", comb >= 0, comb=[comb])
        M.oblige("between the cutoff: at least as good as any committee", total(sc, C) >= total(sc, D))

    def build2(M):
        committeesize(M)
        sc = lambda c: z3.Const("S", L.RARR)[c]
        C = arr_of(M, com(M, "C"))
        c, d = M.fresh("c", "cand"), M.fresh("d", "cand")
        M.assume(And_(valid(C), C[c], z3.Not(C[d]), sc(c) < sc(d)))
        X = z3.Store(C, c, False)
        D = z3.Store(X, d, True)
        M.oblige("one fewer", L.size_of(X) == k - 1)
        M.oblige("the exchange is a committee", valid(D))
        M.oblige("total without the member", total(sc, X) == total(sc, C) - sc(c))
        M.oblige("total after the exchange", total(sc, D) == total(sc, X) + sc(d))
        M.oblige("the exchange is better", total(sc, D) > total(sc, C))
    return [lemma("committees between the cutoff have maximal total score", build), lemma("committees of maximal total score are ranked", build2)]


def separable(rule, mode):
    spec = score_of(rule)

    def args(M):
        committeesize(M)
        res, mx = mode_args(M, mode)
        return [rule, profile, k, res, mx], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        sc = spec
        score = M.deref(bi.get_item(M, r[1], "score"))
        M.oblige("the scores are computed as defined", All("cand", lambda c: score.get(c) == sc(c)))
        sc = lambda c: bi.num(score.get(c))
        cut = bi.get_item(M, r[1], "cutoff")
        M.oblige("the cutoff is the k-th largest score", kth(sc, cut))
        for _, f in cut_lemmas(sc, cut):
            M.assume(f)
        via = (lambda C: And_(valid(C), between(sc, cut, C))) if mode != "resolute" else None
        check_result(M, r, [("size", valid), ("optimal", lambda C: ranked(sc, C))], mode, f"committees of maximal {rule} score", via)
    return Target(f"abcrules._separable_rule_algorithm[{rule},{mode}]", ("abcrules", "_separable_rule_algorithm"), args, post,
                  {("misc", "sorted_committees"): c_sorted_committees},
                  cand_invs=[below_limit_any] if mode == "limited" else ())


def targets(tree):
    return [cutoff_lemma()] + ranked_is_optimal() + [separable(r, m_) for r in ("av", "sav") for m_ in MODES]
