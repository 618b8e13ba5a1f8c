"""Contracts of scores.py (shared by the properties about Thiele methods, minimax AV, ...)."""
from proofs.common import *

f_ = z3.Function("f", L.I, L.R)          # marginal score function (arbitrary)
FSYM = SymFn(lambda i: f_(i if z3.is_expr(i) else z3.IntVal(i)))


def TS(C):
    """Thiele score of the set C (definition)"""
    return Sum(n, lambda v: w(v) * Sum(sat(v, C), lambda i: f_(i + 1), "pos", L.R), "voter", L.R)


def gain(C, c):
    return Sum(n, lambda v: z3.If(A(v)[c], w(v) * f_(sat(v, C) + 1), z3.RealVal(0)), "voter", L.R)


def loss(C, c):
    return Sum(n, lambda v: z3.If(A(v)[c], w(v) * f_(sat(v, C)), z3.RealVal(0)), "voter", L.R)


def c_marginal_fct(M, vals):
    return FSYM


def fct_targets():
    out = []
    one = z3.RealVal(1)

    def mk(nm, fct, spec, extra=None):
        def args(M):
            i = M.fresh("i", "int")
            M.assume(i >= 1)
            M.g.i = i
            M.g.x = None
            if extra:
                M.g.x = extra(M)
                return [i, M.g.x], {}
            return [i], {}

        def post(M, o):
            r = returned(M, o)
            if r is None:
                return
            M.oblige(f"{nm} = definition", L.tosort(bi.num(r), L.R) == spec(M.g.i, M.g.x))
        out.append(Target(f"scores.{fct}", ("scores", fct), args, post))
    mk("pav", "pav_score_fct", lambda i, x: one / z3.ToReal(i))
    mk("slav", "slav_score_fct", lambda i, x: one / z3.ToReal(2 * i - 1))
    mk("cc", "cc_score_fct", lambda i, x: z3.If(i == 1, one, z3.RealVal(0)))
    mk("av", "av_score_fct", lambda i, x: one)

    def base(M):
        b = M.fresh("base", "real")
        M.assume(b > 0)
        M.assume(All("int", lambda e: bi.POW(b, e) > 0))
        return b
    mk("geom", "geometric_marginal_score_fct", lambda i, b: one / bi.POW(b, i - 1), base)
    mk("atleast", "at_least_ell_fct", lambda i, l: z3.If(i == l, one, z3.RealVal(0)), lambda M: M.fresh("ell", "int"))

    # selection by identifier
    def sel(sid, expect):
        def args(M):
            return [sid], {}

        def post(M, o):
            r = returned(M, o)
            if r is None:
                return
            fn = r.fn if isinstance(r, PartialV) else r
            ok = isinstance(fn, FuncV) and (fn.module, fn.name) == ("scores", expect)
            if isinstance(fn, FuncV) and not ok:
                # another function may still compute the same values: compare on a symbolic argument
                i = M.fresh("i", "int")
                M.assume(i >= 1)
                g = find(M, expect)
                ok = L.tosort(bi.num(M.call(r, [i], {})), L.R) == L.tosort(bi.num(M.call(g, [i], {})), L.R)
            M.oblige(f"get_marginal_scorefct({sid!r}) is the function of this identifier", ok)
            if isinstance(r, PartialV) and sid.startswith("atleast"):
                M.oblige("the parameter is the number in the identifier", list(r.kw.values()) == [int(sid[7:])] or list(r.args) == [int(sid[7:])])
        out.append(Target(f"scores.get_marginal_scorefct[{sid}]", ("scores", "get_marginal_scorefct"), args, post))

    def find(M, nm):
        return M.global_("scores", nm)
    for sid, e in (("pav", "pav_score_fct"), ("slav", "slav_score_fct"), ("cc", "cc_score_fct"), ("av", "av_score_fct"),
                   ("geom2", "geometric_marginal_score_fct"), ("atleast3", "at_least_ell_fct"), ("atleast12", "at_least_ell_fct")):
        sel(sid, e)

    def args(M):
        return ["nonsense"], {}

    def post(M, o):
        M.oblige("unknown identifier is rejected", o[0] == "raise" and o[1].exc == "UnknownScoreFunctionError")
    out.append(Target("scores.get_marginal_scorefct[unknown]", ("scores", "get_marginal_scorefct"), args, post))
    return out


def thiele_targets():
    out = []

    def args(M):
        M.g.a = com(M, "X", "tcom")
        return ["pav", profile, M.g.a], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        r = L.tosort(bi.num(r), L.R)
        a = arr_of(M, M.g.a)
        M.oblige("thiele_score = sum of weighted cumulative values", r == TS(a), comb=[r - TS(a)])
    out.append(Target("scores.thiele_score", ("scores", "thiele_score"), args, post, {("scores", "get_marginal_scorefct"): c_marginal_fct}))

    def args(M):
        M.g.c = M.fresh("cnt", "int")
        M.assume(M.g.c >= 0)
        return [FSYM, M.g.c], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        g = Sum(M.g.c, lambda i: f_(i + 1), "pos", L.R)
        M.oblige("cumulative_score = sum of the first marginal values", r == g, comb=[r - g])
    out.append(Target("scores.cumulative_score", ("scores", "cumulative_score"), args, post))

    def args(M):
        M.g.a = com(M, "X", "tcom")
        return [FSYM, profile, M.g.a], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        a = arr_of(M, M.g.a)
        s = M.deref(r)
        M.oblige("one entry per candidate", bi.length(M, r) == m)
        c = M.fresh("c", "cand")
        e = s.get(c)
        M.oblige("entry of a member is -1", Imp(L.read(a, c), e == -1), assume=False)
        M.oblige("entry of a non-member is its marginal gain", Imp(z3.Not(L.read(a, c)), e == gain(a, c)), comb=[e - gain(a, c)], assume=False)
    out.append(Target("scores.marginal_thiele_scores_add", ("scores", "marginal_thiele_scores_add"), args, post))

    def args(M):
        M.g.a = com(M, "X", "tcom")
        return [FSYM, profile, M.g.a], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        a = arr_of(M, M.g.a)
        s = M.deref(r)
        M.oblige("one entry per candidate", bi.length(M, r) == m)
        c = M.fresh("c", "cand")
        d = M.fresh("d", "cand")
        e = s.get(c)
        M.oblige("entry of a member is its marginal loss", Imp(L.read(a, c), e == loss(a, c)), comb=[e - loss(a, c)], assume=False)
        M.oblige("entries of non-members are larger than all entries of members",
                 Imp(z3.And(L.read(a, c), z3.Not(L.read(a, d))), s.get(d) > s.get(c)), assume=False)

    def cands(lp):
        locs = [l for l, t in lp.templates.items() if t.kind == "arr"]
        out = []
        for l in locs:
            v0 = bi.need_cs
            base = lp.M.deref(lp.M.heap[l[1]]) if l[0] == "ref" else None
            if base is None:
                continue
            g0 = base.get
            a = arr_of(lp.M, lp.M.g.a)
            out.append(("entries of members unchanged", lambda v, l=l: All("cand", lambda c: Imp(L.read(a, c), v[l].get(c) == g0(c)))))
            out.append(("entries of treated non-members are larger than those of members", lambda v, l=l: All("cand", lambda c: All("cand", lambda d: Imp(
                z3.And(L.read(a, c), z3.Not(L.read(a, d)), d < v.j), v[l].get(d) > v[l].get(c))))))
        return out
    out.append(Target("scores.marginal_thiele_scores_remove", ("scores", "marginal_thiele_scores_remove"), args, post,
                      loop_specs=[]))
    out[-1].loop_specs = [InvSpec(cands, applies=lambda M, s, it: it.kind == "cand" and it.cond(z3.Int("!probe")) is True, kind="for")]
    return out


from engine.loops import InvSpec  # noqa: E402


def ham_targets():
    out = []

    def mk(cls):
        def args(M):
            M.g.a = com(M, "X", cls)
            return [profile, M.g.a], {}

        def post(M, o):
            r = returned(M, o)
            if r is None:
                return
            a = arr_of(M, M.g.a)
            M.oblige("minimaxav_score bounds all Hamming distances", All("voter", lambda v: ham(v, a) <= r), assume=False)
            M.oblige("minimaxav_score is attained", Or_(Ex("voter", lambda v: ham(v, a) == r), L.n == 0), assume=False)
        return Target("scores.minimaxav_score", ("scores", "minimaxav_score"), args, post)
    out.append(mk("tcom"))
    return out


def targets(tree):
    return fct_targets() + thiele_targets() + ham_targets()
