"""Sequential selection: greedy sequences, and all committees reachable under ties."""
from proofs.opt import *
from engine import loops
from engine.loops import get_loc

GAIN = z3.Function("GAIN", L.COM, L.I, L.R)      # marginal gain of adding a candidate (contract proved in scores_t)
LOSS = z3.Function("LOSS", L.COM, L.I, L.R)      # marginal loss of removing a member


def empty():
    return L.Lam(lambda c: z3.BoolVal(False), L.B)


def full():
    return L.Lam(lambda c: z3.And(c >= 0, c < m), L.B)


def plus(S, c):
    return z3.Store(S, c, z3.BoolVal(True))


def minus(S, c):
    return z3.Store(S, c, z3.BoolVal(False))


def size(S):
    return L.size_of(S)


def c_marginal_add(M, vals):
    """contract of scores.marginal_thiele_scores_add (proved from its source in proofs/scores_t.py)"""
    C = arr_of(M, vals["committee"])
    M.assume(All("cand", lambda c: GAIN(C, c) >= 0))
    return M.new(LSeq(m, lambda c: z3.If(L.read(C, c), z3.RealVal(-1), GAIN(C, c)), "cand"))


def c_marginal_remove(M, vals):
    """contract of scores.marginal_thiele_scores_remove (proved in proofs/scores_t.py)"""
    C = arr_of(M, vals["committee"])
    e = M.fresh("rem", "rarr")
    M.assume(All("cand", lambda c: Imp(L.read(C, c), z3.And(L.read(e, c) == LOSS(C, c), LOSS(C, c) >= 0))))
    M.assume(All("cand", lambda c: All("cand", lambda d: Imp(z3.And(L.read(C, c), z3.Not(L.read(C, d))), L.read(e, d) > L.read(e, c)))))
    return M.new(LSeq(m, lambda c: L.read(e, c), "cand"))


class Greedy:
    """the sequence of committees obtained by always taking the candidate `best` selects; G(0) = start"""

    def __init__(self, name, start, step, best):
        """step(S, c): next committee; best(S, c): formula, c is the candidate to take"""
        self.G = L.register(z3.Function(name + "!G", L.I, L.COM), "com")
        self.pick = L.register(z3.Function(name + "!pick", L.COM, L.I), "cand")
        self.start, self.step, self.best = start, step, best

    def assume(self, M, N):
        M.assume(self.G(z3.IntVal(0)) == self.start())
        # definition of the sequence up to index N; a candidate to take exists because the index set is finite and non-empty
        M.assume(All("pos", lambda i: Imp(i < N, And_(self.best(self.G(i), self.pick(self.G(i))),
                                                      self.G(i + 1) == self.step(self.G(i), self.pick(self.G(i)))))))


def list_loc(lp, kinds=("lcom", "tcom", "scom")):
    return [l for l, t in lp.templates.items() if t.kind in kinds]


def greedy_spec(gr, step_size=1, init_size=0):
    def cands(lp):
        out = []
        for l in list_loc(lp):
            out.append((f"{l[-1]} is the greedy committee", lambda v, l=l: bi.need_cs(v.M, v[l]).array() == gr.G(v.j)))
            out.append((f"{l[-1]} has the right size", lambda v, l=l: size(bi.need_cs(v.M, v[l]).array()) == init_size + step_size * v.j))
        return out
    return InvSpec(cands, kind="for")


class Reach:
    """committees obtainable from a partial committee: LEADS(p, T) is defined by recursion on the number of missing members"""

    def __init__(self, name, best, step, start=empty, partial=None):
        self.LEADS = z3.Function(name + "!LEADS", L.COM, L.COM, L.B)
        self.NX = L.register(z3.Function(name + "!NX", L.COM, L.COM, L.I), "cand")
        self.best, self.step, self.start = best, step, start
        self.partial = partial or (lambda p: size(p) < k)

    def assume(self, M):
        LE, NX, best, step = self.LEADS, self.NX, self.best, self.step
        # definition by recursion on the number of missing members
        M.assume(L.Trig(["com", "com"], lambda p, T: Imp(size(p) == k, And_(LE(p, p), Imp(LE(p, T), p == T))), lambda p, T: [LE(p, T)]))
        M.assume(L.Trig(["com", "com"], lambda p, T: Imp(And_(self.partial(p), LE(p, T)), And_(best(p, NX(p, T)), LE(step(p, NX(p, T)), T))),
                        lambda p, T: [LE(p, T)], depth=1))
        st = self.start()
        M.assume(L.Trig(["com", "int", "com"], lambda p, c, T: Imp(And_(self.partial(p), best(p, c), LE(step(p, c), T)), LE(p, T)),
                        lambda p, c, T: [step(p, c), LE(st, T)], depth=1))
        M.pool("com", self.start())


def below_limit_any(M, lp):
    return below_limit(M, lp, True)


def below_limit(M, lp, lists=False):
    """candidate invariant of inner loops: a set (or list) of committees has not reached the limit"""
    return [(f"{l[-1]}: fewer than the limit", lambda v, l=l: length_of(lp.M, v[l]) < M.g.max) for l, c in lp.cells.items() if c.sort == "bag" and (lists or c.ph.typ == "set")]


def length_of(M, o):
    if isinstance(o, (LList, SItems)) and len(o.items) <= 1:
        return z3.IntVal(len(o.items))
    return bi.length(M, M.new(o))
