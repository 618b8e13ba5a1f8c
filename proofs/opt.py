"""Optimisation by enumeration: contracts, loop invariants and postconditions of the brute-force algorithms."""
from proofs.common import *
from engine.loops import InvSpec

TSF = z3.Function("TSF", L.COM, L.R)     # thiele_score of a committee (contract of scores.thiele_score: the sum proved in C02)


def c_thiele_score(M, vals):
    C = arr_of(M, vals["committee"])
    M.assume(TSF(C) >= 0)
    return TSF(C)


def c_sorted_committees(M, vals):
    """the same committees as CandidateSets, sorted by their string"""
    o = M.deref(vals["committees"])
    if isinstance(o, Iter):
        o = bi.iter_to_list(M, o)
    if isinstance(o, (LList, SItems)) and len(o.items) <= 1:
        return M.new(LList([bi.candidate_set(M, [x], {}) for x in o.items]))
    if isinstance(o, bi.BagApp):
        return M.new(LazyBag(vals["committees"], len(o.extra), candidate_sets))
    b = bi.to_bag(M, o)
    if b is None:
        raise Unsupported("committees of unknown form")
    if b.shape is None:
        return M.new(LList(()))
    return M.new(candidate_sets(b))


def candidate_sets(b):
    if b.shape[0] not in ("tcom", "lcom", "scom"):
        raise Unsupported("committees of unknown form")
    r = Bag(b.pred, ("scom", "CandidateSet"), "list", b.size, b.nodup or (b.typ in ("set", "dict") and bi.canonical(b.shape)))
    r.sortkey = "str"
    return r


def valid(C):
    """a committee of the required size"""
    return L.size_of(C) == k


MODES = ("resolute", "all", "limited")


def mode_args(M, mode):
    if mode == "limited":
        q = M.fresh("max", "int")
        M.assume(q >= 1)
        M.g.max = q
        return False, q
    return mode == "resolute", None


def outcome_committees(M, r):
    """list of committees of a result value"""
    if isinstance(r, tuple):
        r = r[0]
    o = M.deref(r)
    if isinstance(o, (LList, SItems)) and len(o.items) == 1 or isinstance(o, Bag):
        return o
    b = bi.to_bag(M, r)
    if b is None:
        raise Unsupported("result of unknown form")
    return b


def check_result(M, r, win, mode, what="winning committees", via=None):
    """win(C): formula; the result is as required by the mode.  via(C): a consequence of win(C) that has been proved; the
    committees with via(C) are shown to be returned"""
    o = outcome_committees(M, r)
    if isinstance(o, Bag):
        pred, size, nodup = o.pred, o.size, o.nodup
    else:
        C0 = arr_of(M, o.items[0])
        pred, size, nodup = (lambda C: C == C0), 1, True
    if isinstance(win, list):
        parts = win
        win = lambda C: And_(*[f(C) for _, f in parts])
        for nm, f in parts:
            M.oblige(f"every returned committee is one of the {what} ({nm})", All("com", lambda C, f=f: Imp(pred(C), f(C))), assume=False)
    else:
        M.oblige(f"every returned committee is one of the {what}", All("com", lambda C: Imp(pred(C), win(C))), assume=False)
    M.oblige("no committee is returned twice", bool(nodup), assume=False)
    win = via or win
    if mode == "resolute":
        M.oblige("exactly one committee", isinstance(size, int) and size == 1 or (size if size is not None else z3.IntVal(-1)) == 1, assume=False)
    elif mode == "all":
        M.oblige(f"all {what} are returned", All("com", lambda C: Imp(win(C), pred(C))), assume=False)
    else:
        if size is None:
            size = bi.length(M, M.new(o))
        M.oblige("at most max_num_of_committees", size <= M.g.max, assume=False)
        M.oblige(f"fewer than max_num_of_committees only if these are all {what}",
                 Or_(size == M.g.max, All("com", lambda C: Imp(win(C), pred(C)))), assume=False)


def argmax_spec(sc, irresolute, sign=1):
    """invariants of a loop that collects the best committees (by sc) of those enumerated"""
    def cands(lp):
        bags = [l for l, t in lp.templates.items() if t.kind == "bag" and bi.bag_kinds(t.kw["shape"]) == ["com"]]
        nums = [l for l, t in lp.templates.items() if t.kind == "num"]
        out = []
        worse = (lambda a, b: a <= b) if sign > 0 else (lambda a, b: a >= b)
        for x in nums:
            init = bi.get_loc(lp.M, x) if hasattr(bi, "get_loc") else None
            out.append((f"no enumerated committee is better than {x[-1]}",
                        lambda v, x=x: All("com", lambda T: Imp(v.done(T), worse(sc(T), v[x])))))
            init = lp.M.deref(lp.M.frames[x[1]][x[2]]) if x[0] == "name" else None
            for b in bags:
                out.append((f"{b[-1]}: enumerated committees with score {x[-1]}",
                            lambda v, x=x, b=b: All("com", lambda T: Imp(in_bag(v, b, T), And_(v.done(T), sc(T) == v[x])))))
                if irresolute:
                    out.append((f"{b[-1]}: all enumerated committees with score {x[-1]}",
                                lambda v, x=x, b=b: All("com", lambda T: Imp(And_(v.done(T), sc(T) == v[x]), in_bag(v, b, T)))))
                out.append((f"{b[-1]} is not empty once {x[-1]} changed",
                            lambda v, x=x, b=b, init=init: Or_(v[x] == init, Ex("com", lambda T: in_bag(v, b, T)))))
        return out
    return InvSpec(cands, kind="dom")


def in_bag(v, loc, T):
    o = v[loc]
    if isinstance(o, (LList, SItems)) and o.items:
        o = bi.to_bag(v.M, o)
    if isinstance(o, Bag):
        if o.shape is None:
            return False
        return bi.cnd(o.pred(T))
    if isinstance(o, (LList, SItems, DItems)) and not o.items:
        return False
    raise Unsupported(f"not a collection of committees: {type(o).__name__}")


# ---- lexicographic comparison of vectors of length N (functions of the position)
def lexge(x, y, N, sign=1):
    """x is lexicographically at least y (sign -1: at most)"""
    better = (lambda a, b: a > b) if sign > 0 else (lambda a, b: a < b)
    return Or_(vec_eq(x, y, N), Ex("pos", lambda p: And_(p < N, All("pos", lambda i: Imp(i < p, x(i) == y(i))), better(x(p), y(p)))))


def vec_eq(x, y, N):
    return All("pos", lambda i: Imp(i < N, x(i) == y(i)))


def lex_spec(vec, N, sign):
    """vec(C): vector of a committee; invariants of a loop collecting the lexicographically best committees"""
    def cands(lp):
        bags = [l for l, t in lp.templates.items() if t.kind == "bag" and bi.bag_kinds(t.kw["shape"]) == ["com"]]
        arrs = [l for l, t in lp.templates.items() if t.kind == "arr"]
        out = []
        for x in arrs:
            init = lp.M.deref(bi_get(lp.M, x))
            out.append((f"{x[-1]} is at least as good as all enumerated committees",
                        lambda v, x=x: All("com", lambda T: Imp(v.done(T), lexge(v[x].get, vec(T), N, sign)))))
            for b in bags:
                out.append((f"{b[-1]}: enumerated committees with vector {x[-1]}",
                            lambda v, x=x, b=b: All("com", lambda T: Imp(in_bag(v, b, T), And_(v.done(T), vec_eq(v[x].get, vec(T), N))))))
                out.append((f"{b[-1]}: all enumerated committees with vector {x[-1]}",
                            lambda v, x=x, b=b: All("com", lambda T: Imp(And_(v.done(T), vec_eq(v[x].get, vec(T), N)), in_bag(v, b, T)))))
                out.append((f"{b[-1]} is not empty once {x[-1]} changed",
                            lambda v, x=x, b=b, init=init: Or_(vec_eq(v[x].get, init.get, N), Ex("com", lambda T: in_bag(v, b, T)))))
        return out
    return InvSpec(cands, kind="dom")


def bi_get(M, loc):
    from engine.loops import get_loc
    return get_loc(M, loc)
