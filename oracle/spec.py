"""Executable contracts: the mathematical definitions the properties refer to.

Written from the literature / documentation, independent of the code under test.  Everything is exact
(fractions.Fraction); a profile is a tuple (m, ballots, weights) with ballots a list of frozensets.
"""
import itertools
from fractions import Fraction as Fr
from functools import lru_cache


class P:
    """plain profile"""

    def __init__(self, m, ballots, weights):
        self.m = m
        self.b = [frozenset(x) for x in ballots]
        self.w = [Fr(x) for x in weights]
        self.n = len(self.b)
        self.W = sum(self.w)

    def approvers(self, c):
        return [v for v in range(self.n) if c in self.b[v]]


def combs(m, k):
    return [frozenset(c) for c in itertools.combinations(range(m), k)]


def marginal(fid):
    if fid == "pav":
        return lambda i: Fr(1, i) if i >= 1 else Fr(0)
    if fid == "slav":
        return lambda i: Fr(1, 2 * i - 1) if i >= 1 else Fr(0)
    if fid == "cc":
        return lambda i: Fr(1) if i == 1 else Fr(0)
    if fid == "av":
        return lambda i: Fr(1) if i >= 1 else Fr(0)
    if fid.startswith("geom"):
        base = Fr(fid[4:])
        return lambda i: 1 / base ** (i - 1) if i >= 1 else Fr(0)
    if fid.startswith("atleast"):
        ell = int(fid[7:])
        return lambda i: Fr(1) if i == ell else Fr(0)
    raise ValueError(fid)


def thiele_score(fid, p, com):
    f = marginal(fid)
    com = frozenset(com)
    return sum((p.w[v] * sum((f(i) for i in range(1, len(p.b[v] & com) + 1)), Fr(0)) for v in range(p.n)), Fr(0))


def argbest(coms, key, best=max):
    sc = {c: key(c) for c in coms}
    opt = best(sc.values())
    return {c for c in coms if sc[c] == opt}


def thiele(fid, p, k):
    return argbest(combs(p.m, k), lambda c: thiele_score(fid, p, c))


def seq_thiele(fid, p, k):
    """(resolute committee, set of all committees)"""
    def step(com):
        base = thiele_score(fid, p, com)
        gain = {c: thiele_score(fid, p, com | {c}) - base for c in range(p.m) if c not in com}
        best = max(gain.values())
        return sorted(c for c in gain if gain[c] == best)
    return histories(frozenset(), lambda s: len(s) == k, step, lambda s, c: s | {c}, lambda s: s)


def revseq_thiele(fid, p, k):
    def step(com):
        base = thiele_score(fid, p, com)
        loss = {c: base - thiele_score(fid, p, com - {c}) for c in com}
        best = min(loss.values())
        return sorted((c for c in loss if loss[c] == best), reverse=True)
    return histories(frozenset(range(p.m)), lambda s: len(s) == k, step, lambda s, c: s - {c}, lambda s: s)


class TooMany(Exception):
    pass


def histories(init, final, step, apply, out, limit=20000):
    """all outcomes over all tie-breaking histories, and the one always taking the first choice"""
    s = init
    while not final(s):
        s = apply(s, step(s)[0])
    res = out(s)
    seen = set()
    todo = [init]
    outs = set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if len(seen) > limit:
            raise TooMany()
        if final(s):
            outs.add(out(s))
            continue
        for c in step(s):
            todo.append(apply(s, c))
    return res, outs


def av_scores(p, sav=False):
    sc = [Fr(0)] * p.m
    for v in range(p.n):
        for c in p.b[v]:
            sc[c] += p.w[v] / len(p.b[v]) if sav else p.w[v]
    return sc


def separable(p, k, sav=False):
    sc = av_scores(p, sav)
    return argbest(combs(p.m, k), lambda com: sum(sc[c] for c in com))


# ---- sequential Phragmen -------------------------------------------------------------------
def phragmen_step(p, state):
    com, load = state
    newload = {}
    for c in range(p.m):
        if c in com:
            continue
        ap = p.approvers(c)
        if ap:
            newload[c] = (1 + sum(p.w[v] * load[v] for v in ap)) / sum(p.w[v] for v in ap)
    if newload:
        best = min(newload.values())
        return sorted(c for c in newload if newload[c] == best)
    return [c for c in range(p.m) if c not in com]


def phragmen_apply(p, state, c):
    com, load = state
    ap = set(p.approvers(c))
    if ap:
        z = (1 + sum(p.w[v] * load[v] for v in ap)) / sum(p.w[v] for v in ap)
        load = tuple(z if v in ap else load[v] for v in range(p.n))
    return (com | {c}, load)


def seqphragmen(p, k, com=frozenset(), load=None):
    load = tuple([Fr(0)] * p.n) if load is None else tuple(load)
    return histories((frozenset(com), load), lambda s: len(s[0]) == k, lambda s: phragmen_step(p, s),
                     lambda s, c: phragmen_apply(p, s, c), lambda s: s[0])


# ---- equal shares --------------------------------------------------------------------------
def mes_rho(p, budget, c):
    """smallest rho with sum_v min(b_v, rho*w_v) = 1 over approvers, None if unaffordable"""
    ap = p.approvers(c)
    if sum(budget[v] for v in ap) < 1:
        return None
    # breakpoints b_v/w_v in increasing order
    ap = sorted(ap, key=lambda v: budget[v] / p.w[v])
    spent = Fr(0)
    wt = sum(p.w[v] for v in ap)
    for v in ap:
        rho = (1 - spent) / wt
        if rho <= budget[v] / p.w[v]:
            return rho
        spent += budget[v]
        wt -= p.w[v]
    raise AssertionError


def mes_rhos(p, state):
    com, budget = state
    r = {}
    for c in range(p.m):
        if c not in com:
            x = mes_rho(p, budget, c)
            if x is not None:
                r[c] = x
    return r


def mes_phase1(p, k, budget):
    """all phase-1 end states (committee, budget); first one = resolute"""
    def step(s):
        r = mes_rhos(p, s)
        best = min(r.values())
        return sorted(c for c in r if r[c] == best)

    def apply(s, c):
        com, b = s
        rho = mes_rho(p, b, c)
        return (com | {c}, tuple(b[v] - min(b[v], rho * p.w[v]) if c in p.b[v] else b[v] for v in range(p.n)))
    return histories((frozenset(), tuple(budget)), lambda s: len(s[0]) == k or not mes_rhos(p, s), step, apply,
                     lambda s: s)


def mes(p, k, completion):
    if completion == "increment":
        return mes_increment(p, k)
    budget = [w * k / p.W for w in p.w]
    first, ends = mes_phase1(p, k, budget)

    def finish(s):
        com, b = s
        if len(com) == k or not completion:
            return com, {com}
        if completion == "seqphragmen":
            return seqphragmen(p, k, com, [-b[v] / p.w[v] for v in range(p.n)])
        if completion == "av":
            sc = av_scores(p)
            rest = [c for c in range(p.m) if c not in com]
            outs = argbest([frozenset(x) for x in itertools.combinations(rest, k - len(com))],
                           lambda x: sum(sc[c] for c in x))
            outs = {com | x for x in outs}
            return None, outs
        raise ValueError(completion)
    res, allres = finish(first)
    outs = set()
    for s in ends:
        outs |= finish(s)[1]
    return res, outs, allres


def mes_increment(p, k):
    approved = set().union(*p.b) if p.b else set()
    if len(approved) < k:
        best = separable(p, k)
        return None, best, best
    inc = k
    while True:
        first, _ = mes_phase1(p, k, [w * Fr(inc) / p.W for w in p.w])
        if len(first[0]) == k:
            return first[0], {first[0]}, {first[0]}
        inc += 1
        if inc > k + 5000:
            raise TooMany()


# ---- Phragmen-Enestroem, consensus ---------------------------------------------------------
def enestroem(p, k):
    price = p.W / k

    def support(s):
        com, b = s
        return {c: sum((b[v] for v in p.approvers(c)), Fr(0)) for c in range(p.m) if c not in com}

    def step(s):
        sup = support(s)
        mx = max(sup.values())
        return sorted(c for c in sup if sup[c] == mx)

    def apply(s, c):
        com, b = s
        sup = support(s)[c]
        mult = (sup - price) / sup if sup > price else Fr(0)
        return (com | {c}, tuple(b[v] * mult if c in p.b[v] else b[v] for v in range(p.n)))
    return histories((frozenset(), tuple(p.w)), lambda s: len(s[0]) == k, step, apply, lambda s: s[0])


def consensus(p, k):
    def add(b):
        return tuple(b[v] + p.w[v] for v in range(p.n))

    def supporters(s, c):
        return [v for v in p.approvers(c) if s[1][v] > 0]

    def step(s):
        sup = {c: sum((s[1][v] for v in supporters(s, c)), Fr(0)) for c in range(p.m) if c not in s[0]}
        mx = max(sup.values())
        return sorted(c for c in sup if sup[c] == mx)

    def apply(s, c):
        sp = supporters(s, c)
        tot = sum(p.w[v] for v in sp)
        b = tuple(s[1][v] - p.w[v] * p.W / tot if v in sp else s[1][v] for v in range(p.n))
        return (s[0] | {c}, add(b))
    return histories((frozenset(), add([Fr(0)] * p.n)), lambda s: len(s[0]) == k, step, apply, lambda s: s[0])


# ---- minimax AV, lexcc, monroe ---------------------------------------------------------------
def hamdist(p, com):
    return sorted((len(b ^ com) for b in p.b), reverse=True)


def minimaxav(p, k):
    return argbest(combs(p.m, k), lambda c: hamdist(p, c)[0], min)


def lexminimaxav(p, k):
    return argbest(combs(p.m, k), lambda c: tuple(hamdist(p, c)), min)


def lexcc(p, k):
    def vec(com):
        return tuple(sum((p.w[v] for v in range(p.n) if len(p.b[v] & com) >= i), Fr(0)) for i in range(1, k + 1))
    return argbest(combs(p.m, k), vec)


def monroe_score(p, com):
    """max number of voters assigned to an approved member, balanced assignment (exact, by DP over quotas)"""
    com = sorted(com)
    k = len(com)
    lo, extra = divmod(p.n, k)
    # kuhn style: choose which members get lo+1 (brute force), then max bipartite b-matching; unmatched voters
    # can always be placed on the remaining free seats.
    best = 0
    types = list(itertools.combinations(range(k), extra))
    for big in types:
        cap = [lo + (1 if j in big else 0) for j in range(k)]
        seats = [j for j in range(k) for _ in range(cap[j])]
        match = [-1] * len(seats)

        def aug(v, seen):
            for s, j in enumerate(seats):
                if com[j] in p.b[v] and s not in seen:
                    seen.add(s)
                    if match[s] < 0 or aug(match[s], seen):
                        match[s] = v
                        return True
            return False
        best = max(best, sum(1 for v in range(p.n) if aug(v, set())))
    return best


def monroe(p, k):
    return argbest(combs(p.m, k), lambda c: monroe_score(p, c))


def greedy_monroe_outcomes(p, k):
    """all outcomes over ties between candidates and between the approving voters that are assigned"""
    def step(s):
        com, rem = s
        cnt = {c: sum(1 for v in rem if c in p.b[v]) for c in range(p.m) if c not in com}
        mx = max(cnt.values())
        t = len(com)
        size = p.n // k + (1 if t < p.n - k * (p.n // k) else 0)
        outs = []
        for c in sorted(x for x in cnt if cnt[x] == mx):
            ap = [v for v in sorted(rem) if c in p.b[v]]
            for grp in itertools.combinations(ap, min(size, len(ap))):
                outs.append((c, frozenset(grp)))
        return outs
    return histories((frozenset(), frozenset(range(p.n))), lambda s: len(s[0]) == k, step,
                     lambda s, x: (s[0] | {x[0]}, s[1] - x[1]), lambda s: s[0])


# ---- load / support based optimisation -------------------------------------------------------
def nonempty_subsets(com):
    com = sorted(com)
    for r in range(1, len(com) + 1):
        yield from itertools.combinations(com, r)


def nbw(p, cs):
    cs = set(cs)
    return sum((p.w[v] for v in range(p.n) if p.b[v] & cs), Fr(0))


def minload(p, com):
    """minimal maximal load (per unit of weight); None = infeasible"""
    best = Fr(0)
    for cs in nonempty_subsets(com):
        w = nbw(p, cs)
        if w == 0:
            return None
        best = max(best, Fr(len(cs)) / w)
    return best


def minimaxphragmen(p, k):
    approved = set().union(*p.b) if p.b else set()
    if len(approved) < k:
        rest = [c for c in range(p.m) if c not in approved]
        return {frozenset(approved) | frozenset(x) for x in itertools.combinations(rest, k - len(approved))}
    cs = [c for c in combs(p.m, k) if minload(p, c) is not None]
    return argbest(cs, lambda c: minload(p, c), min)


def leximax_loads(p, com):
    """sorted (non-increasing) leximax-optimal load vector of a committee, None if infeasible"""
    loads = {}
    com = set(com)
    voters = set(range(p.n))
    while com:
        best, bs = None, None
        for cs in nonempty_subsets(com):
            w = sum((p.w[v] for v in voters if p.b[v] & set(cs)), Fr(0))
            if w == 0:
                return None
            r = Fr(len(cs)) / w
            if best is None or r > best or (r == best and len(cs) > len(bs)):
                best, bs = r, cs
        for v in list(voters):
            if p.b[v] & set(bs):
                loads[v] = best
                voters.discard(v)
        com -= set(bs)
    return tuple(sorted((loads.get(v, Fr(0)) for v in range(p.n)), reverse=True))


def leximaxphragmen(p, k):
    approved = set().union(*p.b) if p.b else set()
    if len(approved) < k:
        return minimaxphragmen(p, k)
    vec = {c: leximax_loads(p, c) for c in combs(p.m, k)}
    cs = [c for c in vec if vec[c] is not None]
    return argbest(cs, lambda c: vec[c], min)


def support(p, com):
    return min((nbw(p, cs) / len(cs) for cs in nonempty_subsets(com)), default=Fr(0))


def maximin_support(p, k):
    def step(com):
        sc = {c: support(p, com | {c}) for c in range(p.m) if c not in com}
        mx = max(sc.values())
        return sorted(c for c in sc if sc[c] == mx)
    return histories(frozenset(), lambda s: len(s) == k, step, lambda s, c: s | {c}, lambda s: s)


# ---- EPH, RSD --------------------------------------------------------------------------------
def eph(p, k):
    rem = set(range(p.m))
    while True:
        if len(rem) <= k:
            return {frozenset(rem)}
        sdv = {c: Fr(0) for c in rem}
        av = {c: Fr(0) for c in rem}
        for v in range(p.n):
            a = p.b[v] & rem
            for c in a:
                sdv[c] += p.w[v] / len(a)
                av[c] += p.w[v]
        cut = sorted(sdv.values())[1]
        el = [c for c in rem if sdv[c] <= cut]
        mn = min(av[c] for c in el)
        el = [c for c in el if av[c] == mn]
        if len(rem) - len(el) <= k:
            return {frozenset(rem - set(x)) for x in itertools.combinations(el, len(rem) - k)}
        rem -= set(el)


def rsd_possible(p, k, com):
    """com is the outcome of some voter order and some choice of last/filling candidates"""
    com = frozenset(com)
    if len(com) != k:
        return False
    seen = set()

    def go(cur, used):
        if (cur, used) in seen:
            return False
        seen.add((cur, used))
        if len(cur) == k:
            return cur == com
        if len(used) == p.n:
            return cur <= com
        for v in range(p.n):
            if v in used:
                continue
            b = p.b[v]
            if len(cur | b) <= k:
                if (cur | b) <= com and go(cur | b, used | {v}):
                    return True
            else:
                # smaller indices first, until the committee is full
                if com == cur | set(sorted(b - cur)[:k - len(cur)]):
                    return True
        return False
    return go(frozenset(), frozenset())


# ---- properties --------------------------------------------------------------------------------
def jr_ok(p, com, q):
    com = frozenset(com)
    return not any(sum((p.w[v] for v in p.approvers(c) if not p.b[v] & com), Fr(0)) >= q for c in range(p.m))


def ejr_plus_ok(p, com, q):
    com = frozenset(com)
    for c in range(p.m):
        if c in com:
            continue
        for ell in range(1, p.m + 2):
            g = [v for v in p.approvers(c) if len(p.b[v] & com) < ell]
            if g and sum(p.w[v] for v in g) >= ell * q:
                return False
    return True


def ejr_ok(p, com, q):
    com = frozenset(com)
    for ell in range(1, p.m + 1):
        for T in itertools.combinations(range(p.m), ell):
            T = frozenset(T)
            g = [v for v in range(p.n) if T <= p.b[v] and len(p.b[v] & com) < ell]
            if g and sum(p.w[v] for v in g) >= ell * q:
                return False
    return True


def pjr_ok(p, com, q):
    com = frozenset(com)
    for ell in range(1, p.m + 1):
        for T in itertools.combinations(range(p.m), ell):
            T = frozenset(T)
            g0 = [v for v in range(p.n) if T <= p.b[v]]
            if sum((p.w[v] for v in g0), Fr(0)) < ell * q:
                continue
            for U in itertools.combinations(sorted(com), min(ell - 1, len(com))):
                g = [v for v in g0 if (p.b[v] & com) <= set(U)]
                if g and sum(p.w[v] for v in g) >= ell * q:
                    return False
    return True


def fjr_ok(p, com, q):
    com = frozenset(com)
    for ell in range(1, p.m + 1):
        for T in itertools.combinations(range(p.m), ell):
            T = frozenset(T)
            for beta in range(1, ell + 1):
                g = [v for v in range(p.n) if len(p.b[v] & T) >= beta and len(p.b[v] & com) < beta]
                if g and sum(p.w[v] for v in g) >= ell * q:
                    return False
    return True


def core_ok(p, com, q):
    com = frozenset(com)
    for ell in range(1, p.m + 1):
        for T in itertools.combinations(range(p.m), ell):
            T = frozenset(T)
            g = [v for v in range(p.n) if len(p.b[v] & T) > len(p.b[v] & com)]
            if g and sum(p.w[v] for v in g) >= ell * q:
                return False
    return True


def dominates(p, c1, c2):
    c1, c2 = frozenset(c1), frozenset(c2)
    u = [(len(b & c1), len(b & c2)) for b in p.b]
    return all(a >= b for a, b in u) and any(a > b for a, b in u)


def pareto_ok(p, com):
    return not any(dominates(p, c, com) for c in combs(p.m, len(com)))


def priceable(p, com, stable):
    """exact, by z3 over the rationals (None: z3 unavailable)"""
    import z3
    com = sorted(com)
    approved = set().union(*p.b) if p.b else set()
    if len(approved) < len(com):
        return approved <= set(com)
    s = z3.Solver()
    B = z3.Real("B")
    s.add(B >= 0)
    def q(x):
        return z3.Q(x.numerator, x.denominator)
    pay = {(v, c): z3.Real(f"p{v}_{c}") for v in range(p.n) for c in com if c in p.b[v]}
    for x in pay.values():
        s.add(x >= 0)
    tot = {v: z3.Sum([pay[v, c] for c in com if (v, c) in pay] + [z3.RealVal(0)]) for v in range(p.n)}
    for v in range(p.n):
        s.add(tot[v] <= q(p.w[v]) * B)
    for c in com:
        s.add(z3.Sum([pay[v, c] for v in range(p.n) if (v, c) in pay] + [z3.RealVal(0)]) == 1)
    for c in range(p.m):
        if c in com:
            continue
        if stable:
            e = []
            for v in p.approvers(c):
                x = z3.Real(f"e{v}_{c}")
                s.add(x >= q(p.w[v]) * B - tot[v])
                for d in com:
                    if (v, d) in pay:
                        s.add(x >= pay[v, d])
                s.add(x >= 0)
                e.append(x)
            s.add(z3.Sum(e + [z3.RealVal(0)]) <= 1)
        else:
            s.add(z3.Sum([q(p.w[v]) * B - tot[v] for v in p.approvers(c)] + [z3.RealVal(0)]) <= 1)
    r = s.check()
    assert r != z3.unknown
    return r == z3.sat
