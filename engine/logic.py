"""Formulas, finite sums, instantiation of quantified facts, and the calls of the SMT back end.

Formulas are z3 Booleans, Python bools, or quantified formulas `All(kind, fn)` / `Ex(kind, fn)` and their Boolean
combinations (And_, Or_, Not_, Imp, Iff).  A goal is proved by asserting the facts and the negated goal, Skolemising
existentials, and instantiating universals at the ground terms of their kind (several rounds); the resulting ground
problem is given to z3.  Instantiation is only ever an under-approximation of the facts, so `unsat` is a proof.

Finite sums are uninterpreted functions whose defining properties are instantiated (see sum_axioms; the axiom schemes
are proved in lean/SumAxioms.lean)."""
import itertools
import time

import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COM = z3.ArraySort(I, B)     # sets of candidates
RARR = z3.ArraySort(I, R)    # numbers per voter or candidate
EMPTY = z3.K(I, z3.BoolVal(False))

m = z3.Int("m")              # number of candidates
n = z3.Int("n")              # number of voters
A = z3.Function("A", I, COM)  # approval sets
w = z3.Function("w", I, R)   # weights
k = z3.Int("k")              # committee size
GLOBALS = {"m", "n", "k"}

SORT = {"cand": I, "voter": I, "com": COM, "pos": I, "int": I, "real": R, "rarr": RARR}


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class F:
    pass


class All(F):
    """for all x of the kind (within its range): fn(x)"""
    pol = True

    def __init__(self, kind, fn, guard=None, name=None):
        self.kind, self.fn, self.guard, self.name = kind, fn, guard, name


class Ex(F):
    def __init__(self, kind, fn, guard=None, name=None):
        self.kind, self.fn, self.guard, self.name = kind, fn, guard, name


class Trig(F):
    """universal fact instantiated where the patterns match ground terms only: fn(*xs), pats(*xs) -> terms.
    Only used as a fact."""

    def __init__(self, kinds, fn, pats, depth=2):
        self.kinds, self.fn, self.depth = kinds, fn, depth
        self.vars = [z3.Const(f"!t{i}:{kd}", SORT[kd]) for i, kd in enumerate(kinds)]
        self.pats = pats(*self.vars)


def match(pat, t, vars_, env):
    """syntactic matching; -> extended environment or None"""
    for i, v in enumerate(vars_):
        if pat.eq(v):
            if i in env:
                return env if env[i].eq(t) else None
            if t.sort() != v.sort():
                return None
            env = dict(env)
            env[i] = t
            return env
    if pat.eq(t):
        return env
    if not (z3.is_app(pat) and z3.is_app(t)) or pat.num_args() != t.num_args() or pat.num_args() == 0 or not pat.decl().eq(t.decl()):
        return None
    for a, b in zip(pat.children(), t.children()):
        env = match(a, b, vars_, env)
        if env is None:
            return None
    return env


class And_(F):
    def __init__(self, *fs):
        self.fs = fs


class Or_(F):
    def __init__(self, *fs):
        self.fs = fs


class Hinted(Or_):
    """(hint, f) where hint implies f: equivalent to f; the hint is offered when f is to be proved"""


class Not_(F):
    def __init__(self, f):
        self.f = f


def Imp(a, b):
    return Or_(Not_(a), b)


def Iff(a, b):
    return And_(Imp(a, b), Imp(b, a))


def rng(kind, x):
    """range condition of a kind"""
    if kind == "cand":
        return z3.And(x >= 0, x < m)
    if kind == "voter":
        return z3.And(x >= 0, x < n)
    if kind == "pos":
        return x >= 0
    return z3.BoolVal(True)


def typed_com(C):
    """quantifiers over committees range over sets of existing candidates"""
    return All("int", lambda c: z3.Implies(z3.Select(C, c), z3.And(c >= 0, c < m)))


def guard_of(q, x):
    g = rng(q.kind, x)
    if q.guard is not None:
        g = z3.And(g, zb(q.guard(x)))
    return g


def nnf(f, pos=True):
    if isinstance(f, bool):
        return f if pos else (not f)
    if is_z3(f):
        return f if pos else z3.Not(f)
    if isinstance(f, Not_):
        return nnf(f.f, not pos)
    if isinstance(f, Hinted) and pos:
        return nnf(f.fs[1], True)
    if isinstance(f, And_) or isinstance(f, Or_):
        parts = [nnf(x, pos) for x in f.fs]
        conj = isinstance(f, And_) == pos
        if all(is_z3(x) or isinstance(x, bool) for x in parts):
            return (z3.And if conj else z3.Or)([zb(x) for x in parts])
        return (And_ if conj else Or_)(*parts)
    if isinstance(f, All) or isinstance(f, Ex):
        cls = All if isinstance(f, All) == pos else Ex
        fn = f.fn
        return cls(f.kind, (lambda x, fn=fn: nnf(fn(x), pos)), f.guard, f.name)
    raise TypeError(type(f))


_KEEP = {}


def bsimp(e):
    """e with the constants True and False propagated through Boolean connectives"""
    if not z3.is_app(e) or not z3.is_bool(e):
        return e
    kd = e.decl().kind()
    if kd == z3.Z3_OP_AND or kd == z3.Z3_OP_OR:
        zero, one = (z3.is_false, z3.is_true) if kd == z3.Z3_OP_AND else (z3.is_true, z3.is_false)
        out, ids = [], set()
        for c in e.children():
            c = bsimp(c)
            if zero(c):
                return c
            parts = c.children() if z3.is_app(c) and c.decl().kind() == kd else [c]
            for p in parts:
                if not one(p) and p.get_id() not in ids:
                    ids.add(p.get_id())
                    out.append(p)
        if not out:
            return z3.BoolVal(kd == z3.Z3_OP_AND)
        return out[0] if len(out) == 1 else (z3.And if kd == z3.Z3_OP_AND else z3.Or)(out)
    if kd == z3.Z3_OP_NOT:
        c = bsimp(e.arg(0))
        if z3.is_true(c) or z3.is_false(c):
            return z3.BoolVal(z3.is_false(c))
        if z3.is_not(c):
            return c.arg(0)
        return z3.Not(c)
    if kd == z3.Z3_OP_IMPLIES:
        return bsimp(z3.Or(z3.Not(e.arg(0)), e.arg(1)))
    return e


def const_of(f):
    """True/False if f is a constant, else None"""
    if isinstance(f, bool):
        return f
    if is_z3(f):
        return True if z3.is_true(f) else False if z3.is_false(f) else None
    return None


def fsub(f, x, t):
    """f with the term t for the constant x"""
    if isinstance(f, bool):
        return f
    if is_z3(f):
        return z3.substitute(f, (x, t))
    if isinstance(f, (And_, Or_)):
        return type(f)(*[fsub(g, x, t) for g in f.fs])
    if isinstance(f, Not_):
        return Not_(fsub(f.f, x, t))
    return type(f)(f.kind, lambda y, f=f: fsub(f.fn(y), x, t), (lambda y, f=f: z3.substitute(zb(f.guard(y)), (x, t))) if f.guard is not None else None, f.name)


def fmentions(f, x):
    if isinstance(f, bool):
        return False
    if is_z3(f):
        return mentions(f, [x])
    if isinstance(f, (And_, Or_)):
        return any(fmentions(g, x) for g in f.fs)
    if isinstance(f, Not_):
        return fmentions(f.f, x)
    y = z3.Const(f"!m{uid()}:{f.kind}", SORT[f.kind])
    return fmentions(f.fn(y), x) or f.guard is not None and mentions(zb(f.guard(y)), [x])


def tidy(f, env=(), d=0):
    """an equivalent formula (f in negation normal form): range conditions of the bound variables are dropped where they
    hold, quantifiers over variables that do not occur are removed"""
    if isinstance(f, bool):
        return f
    if is_z3(f):
        if env:
            f = z3.substitute(f, *[(a, z3.BoolVal(True)) for a in env])
        return bsimp(f)
    if isinstance(f, (And_, Or_)):
        conj = isinstance(f, And_)
        out = []
        for g in f.fs:
            g = tidy(g, env, d)
            c = const_of(g)
            if c is not None:
                if c != conj:
                    return not conj
                continue
            out += list(g.fs) if isinstance(g, type(f)) else [g]
        if not out:
            return conj
        return out[0] if len(out) == 1 else type(f)(*out)
    x = z3.Const(f"!y{uid()}:{f.kind}", SORT[f.kind])
    sub = list(env)
    if f.kind in ("cand", "voter"):
        hi = m if f.kind == "cand" else n
        sub += [x >= 0, x < hi]
    g = bsimp(z3.substitute(zb(f.guard(x)), *[(a, z3.BoolVal(True)) for a in sub]) if sub else zb(f.guard(x))) if f.guard is not None else z3.BoolVal(True)
    body = tidy(nnf(f.fn(x)), sub, d + 1)
    c = const_of(body)
    allq = isinstance(f, All)
    if c is True and allq or c is False and not allq:
        return c
    if z3.is_false(g):
        return allq
    if f.kind in ("cand", "voter") and z3.is_true(g) and not fmentions(body, x):
        return Or_(z3.Not(hi > 0), body) if allq else And_(hi > 0, body)
    if f.kind == "com" and z3.is_true(g):
        r = onepoint(x, f.kind, body, allq)
        if r is not None:
            return r
    return type(f)(f.kind, lambda t: fsub(body, x, t), None if z3.is_true(g) else lambda t: z3.substitute(g, (x, t)), f.name)


def diseq(e, x, eq):
    """the term t if the literal e is x != t (eq: x == t), t without x"""
    if not is_z3(e) or not z3.is_app(e):
        return None
    if not eq:
        if z3.is_not(e):
            e = e.arg(0)
        elif e.decl().kind() != z3.Z3_OP_DISTINCT or e.num_args() != 2:
            return None
        elif True:
            e = e.arg(0) == e.arg(1)
    if z3.is_eq(e):
        a, b = e.arg(0), e.arg(1)
        if a.eq(x) and not mentions(b, [x]):
            return b
        if b.eq(x) and not mentions(a, [x]):
            return a
    return None


def onepoint(x, kind, body, allq):
    """All x. x != t or P(x)  ~>  P(t), also below conjunctions and quantifiers (dually for Ex); None if it does not apply"""
    Out, In, Q = (Or_, And_, All) if allq else (And_, Or_, Ex)     # All: the body is a disjunction; a conjunct may be split off
    zout, zin = (z3.is_or, z3.is_and) if allq else (z3.is_and, z3.is_or)

    def parts(f):
        if isinstance(f, Out):
            return [y for g in f.fs for y in parts(g)]
        if is_z3(f) and zout(f):
            return [y for g in f.children() for y in parts(g)]
        return [f]

    def subs(f):
        """the components of the inner connective"""
        if isinstance(f, In):
            return list(f.fs)
        if is_z3(f) and zin(f):
            return f.children()
        return None

    def has(f):
        if diseq(f, x, not allq) is not None:
            return True
        ps = parts(f)
        if len(ps) > 1:
            return any(has(p) for p in ps)
        ss = subs(f)
        if ss is not None:
            return any(has(p) for p in ss)
        if isinstance(f, Q):
            return has(f.fn(z3.Const(f"!y{uid()}:{f.kind}", SORT[f.kind])))
        return False

    def go(f):
        ps = parts(f)
        for i, p in enumerate(ps):
            t = diseq(p, x, not allq)
            if t is not None:
                rest = ps[:i] + ps[i + 1:]
                if not rest:
                    return not allq
                return fsub(Out(*rest), x, t)
        for i, p in enumerate(ps):
            if isinstance(p, Q) and has(p):
                y = z3.Const(f"!y{uid()}:{p.kind}", SORT[p.kind])
                g = [] if p.guard is None else [nnf(zb(p.guard(y)), not allq)]
                r = go(Out(*(ps[:i] + ps[i + 1:] + g + [p.fn(y)])))
                return Q(p.kind, lambda t, r=r: fsub(r, y, t), None, p.name)
        for i, p in enumerate(ps):
            ss = subs(p)
            if ss is not None and has(p):
                rest = ps[:i] + ps[i + 1:]
                return In(*[go(Out(*(rest + [q]))) for q in ss])
        f = Out(*ps) if len(ps) > 1 else ps[0]
        return Q(kind, lambda t: fsub(f, x, t))
    return go(body) if has(body) else None


def fkey(f, d=0):
    """equal for equal formulas (up to the names of bound variables)"""
    if isinstance(f, bool):
        return f
    if is_z3(f):
        _KEEP[f.get_id()] = f
        return f.get_id()
    if isinstance(f, (And_, Or_)):
        return (type(f).__name__,) + tuple(fkey(x, d) for x in f.fs)
    if isinstance(f, Not_):
        return ("not", fkey(f.f, d))
    x = z3.Const(f"!k{d}:{f.kind}", SORT[f.kind])
    return (type(f).__name__, f.kind, fkey(zb(f.guard(x)), d + 1) if f.guard is not None else None, fkey(f.fn(x), d + 1))


_TIDY = {}


def prepare(f):
    """tidied fact and its key (kept per fact object)"""
    r = _TIDY.get(id(f))
    if r is None or r[0] is not f:
        g = tidy(nnf(f))
        r = (f, g, fkey(g))
        _TIDY[id(f)] = r
    return r[1], r[2]


# ------------------------------------------------------------------------------------------------ finite sums
class SumInfo:
    def __init__(self, decl, params, body, bvar, kind, hi_ix):
        self.decl, self.params, self.body, self.bvar, self.kind = decl, params, body, bvar, kind


SUMS = {}     # decl name -> SumInfo
_SUMKEY = {}
_LAMS = {}    # decl name -> (params, body, bvar)
_LAMKEY = {}


def reset():
    SUMS.clear(); _SUMKEY.clear(); _LAMS.clear(); _LAMKEY.clear()
    _TIDY.clear(); _KEEP.clear()
    _counter[0] = 0


FKIND = {}


FLAT = set()


def register(fn, kind, flat=False):
    """terms built with fn are instances for quantifiers over the kind (flat: and count as constants, unless nested)"""
    FKIND[fn.name()] = kind
    if flat:
        FLAT.add(fn.name())
    return fn


def free_consts(e, skip=()):
    """0-ary uninterpreted constants in order of first occurrence"""
    out, seen, stack = [], set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.decl().name() not in GLOBALS and not any(x.eq(s) for s in skip):
                out.append(x)
        for c in reversed(x.children()):
            stack.append(c)
    return out


def mentions(e, consts):
    if not is_z3(e):
        return False
    ids = {c.get_id() for c in consts}
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def mentions_decl(e, names):
    seen, stack = set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in names:
            return True
        stack.extend(x.children())
    return False


_counter = [0]


def uid():
    _counter[0] += 1
    return _counter[0]


_fc = [0]


def fuid():
    """counter of the symbolic execution (restored when a path is executed again)"""
    _fc[0] += 1
    return _fc[0]


def fcount():
    return _fc[0]


def set_fcount(c):
    _fc[0] = max(c, 0)


def factors(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for c in e.children():
            out += factors(c)
        return out
    return [e]


def const_num(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def tosort(e, sort):
    if isinstance(e, (int, float)) or not is_z3(e):
        e = z3.RealVal(str(e)) if sort == R else z3.IntVal(int(e))
    if e.sort() == sort:
        return e
    if sort == R and e.sort() == I:
        return z3.ToReal(e)
    raise TypeError(f"{e.sort()} is no {sort}")


def simp(e):
    return z3.simplify(e, push_ite_arith=False) if is_z3(e) else e


def Sum(hi, fn, kind="pos", sort=R):
    """sum over b in [0,hi) of fn(b)"""
    b = z3.Const("!b" + str(sort), I)
    b = z3.Int("!b")
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    inner_b = z3.Int(f"!b{uid()}")
    body = fn(inner_b)
    if not is_z3(body):
        body = tosort(body, sort)
    if body.sort() == R:
        sort = R
    body = simp(tosort(body, sort))
    inr = [inner_b >= 0, z3.IntVal(0) <= inner_b, inner_b < hi], [hi <= inner_b, inner_b >= hi, inner_b < 0]
    body = simp(z3.substitute(body, *([(c, z3.BoolVal(True)) for c in inr[0]] + [(c, z3.BoolVal(False)) for c in inr[1]])))
    if const_num(body):
        if body.eq(tosort(0, sort)):
            return body
        return body * tosort(hi if hi.eq(m) or hi.eq(n) else simp(z3.If(hi > 0, hi, z3.IntVal(0))), sort)
    # factors that do not depend on the index are pulled out
    fs = factors(body)
    outer = [f for f in fs if not mentions(f, [inner_b])]
    if outer and len(outer) < len(fs):
        inner = [f for f in fs if mentions(f, [inner_b])]
        o = outer[0]
        for f in outer[1:]:
            o = o * f
        return o * _sum_app(hi, inner, inner_b, kind, sort)
    return _sum_app(hi, [body], inner_b, kind, sort)


_CANON = {}
_COMM = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_ADD, z3.Z3_OP_MUL}


def canon(e):
    """e with the arguments of commutative operators in a fixed order"""
    r = _CANON.get(e.get_id())
    if r is not None:
        return r[1]
    if not z3.is_app(e) or e.num_args() == 0:
        return e
    ch = [canon(c) for c in e.children()]
    if e.decl().kind() in _COMM:
        ch.sort(key=lambda c: (len(c.sexpr()), c.sexpr()))
        k0 = e.decl().kind()
        r = (z3.And(ch) if k0 == z3.Z3_OP_AND else z3.Or(ch) if k0 == z3.Z3_OP_OR else ch[0] == ch[1] if k0 == z3.Z3_OP_EQ
             else z3.Sum(ch) if k0 == z3.Z3_OP_ADD else z3.Product(ch))
    else:
        r = e.decl()(*ch)
    _CANON[e.get_id()] = (e, r)
    return r


def _sum_app(hi, fs, b, kind, sort):
    bb = z3.Int("!b")
    body = canon(z3.substitute(fs[0], (b, bb)))
    b = bb
    if len(fs) > 1:
        fs = sorted([canon(z3.substitute(f, (b, bb))) for f in fs], key=lambda c: (len(c.sexpr()), c.sexpr()))
        body = fs[0]
        for f in fs[1:]:
            body = body * f
    ps = free_consts(body, skip=[b])
    phs = [z3.Const(f"!p{i}:{p.sort()}", p.sort()) for i, p in enumerate(ps)]
    bb = z3.Int("!b")
    body = z3.substitute(body, *(list(zip(ps, phs)) + [(b, bb)]))
    key = (body.sexpr(), str(sort), kind)
    if key not in _SUMKEY:
        name = f"SUM{len(_SUMKEY)}"
        d = z3.Function(name, *([I] + [p.sort() for p in ps] + [sort]))
        _SUMKEY[key] = d
        SUMS[name] = SumInfo(d, phs, body, bb, kind, None)
    return _SUMKEY[key](hi, *ps)


def sum_body(app, t):
    s = SUMS[app.decl().name()]
    return z3.substitute(s.body, *([(p, a) for p, a in zip(s.params, app.children()[1:])] + [(s.bvar, t)]))


def Card(pred, hi=None):
    """number of candidates satisfying pred"""
    return Sum(m if hi is None else hi, lambda c: z3.If(zb(pred(c)), z3.IntVal(1), z3.IntVal(0)), "cand", I)


def size_of(S):
    """number of candidates in the set S"""
    if is_lam(S) or z3.is_K(S):
        return Card(lambda c: read(S, c))
    X = z3.Const("!X", COM)
    return z3.substitute(Card(lambda c: z3.Select(X, c)), (X, S))


def Lam(fn, sort):
    """array with entries fn(i); a definition instantiated at all reads"""
    b = z3.Int(f"!b{uid()}")
    body = simp(fn(b))
    body = tosort(body, sort) if sort != B else zb(body)
    if z3.is_true(body) or z3.is_false(body) or const_num(body):
        return z3.K(I, body)
    # eta: fn(i) == X[i]
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.arg(1).eq(b) and not mentions(body.arg(0), [b]):
        return body.arg(0)
    bb = z3.Int("!b")
    body = canon(z3.substitute(body, (b, bb)))
    ps = free_consts(body, skip=[bb])
    phs = [z3.Const(f"!p{i}:{p.sort()}", p.sort()) for i, p in enumerate(ps)]
    body = z3.substitute(body, *list(zip(ps, phs)))
    key = (body.sexpr(), str(sort))
    if key not in _LAMKEY:
        name = f"LAM{len(_LAMKEY)}"
        d = z3.Function(name, *([p.sort() for p in ps] + [z3.ArraySort(I, sort)])) if ps else z3.Const(name, z3.ArraySort(I, sort)).decl()
        _LAMKEY[key] = d
        _LAMS[name] = (phs, body, bb)
    d = _LAMKEY[key]
    return d(*ps) if ps else d()


def is_lam(e):
    return z3.is_app(e) and e.decl().name() in _LAMS


def lam_at(app, t):
    phs, body, bb = _LAMS[app.decl().name()]
    return z3.substitute(body, *([(p, a) for p, a in zip(phs, app.children())] + [(bb, t)]))


def read(arr, t):
    """arr[t], reading through Lam and Store"""
    if is_lam(arr):
        return lam_at(arr, t)
    if z3.is_K(arr):
        return arr.arg(0)
    return z3.Select(arr, t)


# ------------------------------------------------------------------------------------------------ proving
class Problem:
    """facts + negated goal -> ground instances -> z3"""

    def __init__(self, facts, goal, pools=None, defs=(), axioms=(), max_rounds=3, cap=4000, sums=True, ext=True, comx=0):
        self.comx = comx
        self.use_sums = sums
        self.use_ext = ext
        self.noext = False
        self.ground = []
        self.univ = []
        self.pools = {kd: [] for kd in SORT}
        self.gen = {}
        self.cgen, self.tgen, self.tkeep = {}, {}, []
        self.done = set()
        self.cap = cap
        self.sumdone = set()
        self.arrdone = set()
        self.axioms = axioms
        self.goal_sums = set()
        self.trigs = []
        self.apps = {}
        self.rnd = 0
        self.max_rounds = max_rounds
        for kd, ts in (pools or {}).items():
            for t in ts:
                self.term(kd, t, 0)
        known = set()
        for f in facts:
            if isinstance(f, Trig):
                self.trigs.append(f)
            else:
                f, key = prepare(f)
                if key not in known:
                    known.add(key)
                    self.assert_(f, 0, 1)
        if goal is not None:
            i = len(self.ground)
            self.assert_(tidy(nnf(goal, False)), 0, 0)
            self.goal_sets(self.ground[i:])
            if sums == "cand":
                self.goal_sums = {x.get_id() for x in sum_apps(self.ground[i:])}

    def goal_sets(self, fs):
        """sets the goal speaks about take part in instantiation"""
        seen, stack = set(), list(fs)
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.sort() == B and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in x.children():
                    if z3.is_store(a) and a.sort() == COM:
                        self.term("com", a, 0)
            stack.extend(x.children())

    def term(self, kind, t, g):
        t = z3.simplify(t) if not z3.is_const(t) else t
        key = (kind, t.get_id())
        if key in self.gen:
            return
        self.gen[key] = g
        if z3.is_const(t):
            self.cgen[t.get_id()] = min(g, self.cgen.get(t.get_id(), g))
        self.pools[kind].append(t)
        if kind == "cand" or kind == "voter":
            pass

    def assert_(self, f, g, inc=1):
        if isinstance(f, bool):
            if not f:
                self.ground.append(z3.BoolVal(False))
            return
        if is_z3(f):
            self.ground.append(f)
            return
        if isinstance(f, And_):
            for x in f.fs:
                self.assert_(x, g, inc)
            return
        if isinstance(f, Ex):
            inc = 0
        r = self.lit(f, g, inc)
        self.ground.append(r)

    def lit(self, f, g, inc=1):
        """ground formula equisatisfiable with f in positive position"""
        if isinstance(f, bool):
            return z3.BoolVal(f)
        if is_z3(f):
            return f
        if isinstance(f, And_):
            return z3.And([self.lit(x, g, inc) for x in f.fs])
        if isinstance(f, Or_):
            return z3.Or([self.lit(x, g, inc) for x in f.fs])
        if isinstance(f, Ex):
            c = z3.Const(f"sk{uid()}{f.name or ''}", SORT[f.kind])
            self.term(f.kind, c, g + inc)
            typed = [self.lit(typed_com(c), g)] if f.kind == "com" else []
            return z3.And(*typed, guard_of(f, c), self.lit(nnf(f.fn(c)), g + inc, inc))
        if isinstance(f, All):
            q = z3.Bool(f"q{uid()}")
            self.univ.append((q, f, g))
            return q
        raise TypeError(type(f))

    def round(self, r):
        new = 0
        for ui, (q, f, g) in enumerate(list(self.univ)):
            for t in list(self.pools[f.kind]):
                if (ui, t.get_id()) in self.done:
                    continue
                tg = self.gen[(f.kind, t.get_id())]
                if max(tg, g) > self.max_rounds + (self.comx if f.kind == "com" else 0):
                    continue
                self.done.add((ui, t.get_id()))
                body = self.lit(nnf(f.fn(t)), max(g, tg))
                self.ground.append(z3.Implies(z3.And(q, guard_of(f, t)), body))
                new += 1
                if len(self.ground) > self.cap:
                    return new
        return new

    # -- sums, arrays
    def collect(self):
        """sum, array-definition and select terms of the ground part (incremental)"""
        if not hasattr(self, "_seen"):
            self._seen, self._upto = set(), 0
            self._sums, self._lams, self._sels = {}, {}, {}
        seen, sums, lams, sels = self._seen, self._sums, self._lams, self._sels
        stack = list(self.ground[self._upto:])
        self._upto = len(self.ground)
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                d = x.decl()
                kd = d.kind()
                if self.trigs and x.num_args():
                    self.apps.setdefault(d.name(), []).append((x, self.rnd))
                if kd == z3.Z3_OP_UNINTERPRETED:
                    nm = d.name()
                    if nm in FKIND:
                        self.harvest(x, FKIND[nm])
                    if nm in SUMS:
                        sums[i] = x
                    elif nm in _LAMS:
                        lams[i] = x
                elif kd == z3.Z3_OP_SELECT:
                    sels[i] = x
                elif kd == z3.Z3_OP_EQ and z3.is_array(x.arg(0)):
                    self.ext(x.arg(0), x.arg(1))
                stack.extend(x.children())
        self._keep = self.ground
        return list(sums.values()), list(lams.values()), list(sels.values()), []

    def harvest(self, x, kind):
        """terms of registered functions take part in instantiation"""
        g = 0
        for a in x.children():
            for kd in SORT:
                ga = self.gen.get((kd, a.get_id()))
                if ga is not None:
                    g = max(g, ga)
            if mentions_decl(a, FKIND if x.decl().name() in FLAT else FKIND.keys() - FLAT):
                g += 1
        self.term(kind, x, g)

    def term_gen(self, t):
        """generation of a term: the latest of its constants"""
        r = self.tgen.get(t.get_id())
        if r is None:
            r = max([self.cgen.get(c.get_id(), 0) for c in free_consts(t)], default=0)
            self.tgen[t.get_id()] = r
            self.tkeep.append(t)
        return r

    def triggers(self):
        new = 0
        for ti, tr in enumerate(self.trigs):
            envs = [({}, 0)]
            for pat in tr.pats:
                nxt = []
                for t, g in self.apps.get(pat.decl().name(), ()):
                    if g > tr.depth:
                        continue
                    for env, ge in envs:
                        e2 = match(pat, t, tr.vars, env)
                        if e2 is not None:
                            nxt.append((e2, max(g, ge)))
                envs = nxt
            for env, g in envs:
                args = [env[i] for i in range(len(tr.vars))]
                key = ("trig", ti) + tuple(a.get_id() for a in args)
                if key in self.done:
                    continue
                tg = max([self.term_gen(a) for a in args])
                if tg > self.max_rounds:
                    continue
                self.done.add(key)
                self.keep = getattr(self, "keep", []) + [args]
                self.assert_(nnf(tr.fn(*args)), tg)
                new += 1
        return new

    def ext(self, a, b):
        """extensionality with a witness at which array definitions are instantiated"""
        if not self.use_ext:
            self.noext = True
            return
        key = ("ext", a.get_id(), b.get_id())
        if key in self.arrdone or a.sort() != b.sort():
            return
        self.arrdone.add(key)
        if all(x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not is_lam(x) for x in (a, b)):
            return
        d = z3.Int(f"x{uid()}")
        self.term("int", d, 1)
        if a.sort() == COM:
            self.term("cand", d, 0)
        self.exts = getattr(self, "exts", [])
        self.exts += [a, b]
        self.ground.append(z3.Or(a == b, z3.Select(a, d) != z3.Select(b, d)))

    def is01(self, s):
        bd = sum_body(s, z3.Int("!probe"))
        return s.sort() == I and z3.is_app(bd) and bd.decl().kind() == z3.Z3_OP_ITE and all(str(bd.arg(i)) in ("0", "1") for i in (1, 2))

    def card_axioms(self, sums):
        """more about sizes of sets of candidates: disjoint unions, proper subsets"""
        cards = [s for s in sums if SUMS[s.decl().name()].kind == "cand" and self.is01(s)]
        goal = [s for s in cards if s.get_id() in self.goal_sums][:3]
        cards = cards[:12]
        pts = [t for t in self.pools["cand"] if self.gen[("cand", t.get_id())] == 0][:8]
        for x in goal:
            others = [y for y in cards if not y.eq(x)]
            pairs = sorted(itertools.combinations(others, 2), key=lambda p: -len([q for q in p if q.get_id() in self.goal_sums]))
            for y, z in pairs[:20]:
                key = ("tri", x.get_id(), y.get_id(), z.get_id())
                if key in self.sumdone or not (x.arg(0).eq(y.arg(0)) and x.arg(0).eq(z.arg(0))):
                    continue
                self.sumdone.add(key)
                d = z3.Int(f"d{uid()}")
                self.term("cand", d, 0)
                self.ground.append(z3.Or(z3.And(d >= 0, d < x.arg(0), sum_body(x, d) != sum_body(y, d) + sum_body(z, d)), x == y + z))
        for x in goal:
            for y in cards:
                if y.eq(x) or not x.arg(0).eq(y.arg(0)):
                    continue
                for s, t in ((x, y), (y, x)):
                    key = ("sub", s.get_id(), t.get_id())
                    if key not in self.sumdone:
                        self.sumdone.add(key)
                        d = z3.Int(f"d{uid()}")
                        self.term("cand", d, 1)
                        hi = s.arg(0)
                        sub = z3.And(d >= 0, d < hi, sum_body(s, d) > sum_body(t, d))
                        for p in pts:
                            self.ground.append(z3.Or(sub, z3.Not(z3.And(p >= 0, p < hi, sum_body(s, p) < sum_body(t, p))), s + 1 <= t))

    def sum_axioms(self, sums):
        """instances of: congruence, difference at one point, last summand, sign; linear combinations are in lincomb"""
        new = 0
        points = [t for t in self.pools["cand"]]
        if self.use_sums == "cand":
            sums = [s for s in sums if SUMS[s.decl().name()].kind == "cand"]
            self.card_axioms(sums)
        for s in sums:
            key = ("one", s.get_id())
            if key not in self.sumdone:
                self.sumdone.add(key)
                new += 1
                hi = s.arg(0)
                kind = SUMS[s.decl().name()].kind
                d = z3.Int(f"d{uid()}")
                self.term(kind, d, 1)
                inr = z3.And(d >= 0, d < hi)
                bd = sum_body(s, d)
                e = z3.Int(f"d{uid()}")
                be = sum_body(s, e)
                # all summands >= 0 => sum >= 0;  <= 0 => sum <= 0; hi <= 0 => sum = 0
                self.ground.append(z3.Or(z3.And(inr, bd < 0), s >= 0))
                self.ground.append(z3.Or(z3.And(e >= 0, e < hi, be > 0), s <= 0))
                self.term(kind, e, 1)
                self.ground.append(z3.Implies(hi <= 0, s == 0))
                if s.sort() == I and z3.is_app(bd) and bd.decl().kind() == z3.Z3_OP_ITE:
                    # 0/1 summands: sum <= hi
                    self.ground.append(z3.Or(z3.And(inr, bd < 0), z3.And(e >= 0, e < hi, be > 1), s <= z3.If(hi > 0, hi, 0)))
                    # all summands >= 1: sum >= hi
                    d1 = z3.Int(f"d{uid()}")
                    self.term(kind, d1, 1)
                    self.ground.append(z3.Or(z3.And(d1 >= 0, d1 < hi, sum_body(s, d1) < 1), s >= hi))
        for s in sums:
            if ("store", s.get_id()) in self.sumdone:
                continue
            self.sumdone.add(("store", s.get_id()))
            for i, a in enumerate(s.children()):
                if z3.is_store(a):
                    t = s.decl()(*(s.children()[:i] + [a.arg(0)] + s.children()[i + 1:]))
                    p, hs = a.arg(1), s.arg(0)
                    d = z3.Int(f"d{uid()}")
                    self.term(SUMS[s.decl().name()].kind, d, 3)
                    self.ground.append(z3.Implies(z3.And(p >= 0, p < hs), z3.Or(
                        z3.And(d >= 0, d < hs, d != p, sum_body(s, d) != sum_body(t, d)),
                        s - t == sum_body(s, p) - sum_body(t, p))))
                    new += 1
        if self.use_sums == "light":
            sums = []
        for s in sums:
            kd = SUMS[s.decl().name()].kind
            if kd in ("cand", "voter") and self.is01(s):
                # sizes: at least one if there is a member
                for p in [q for q in self.pools[kd] if self.gen[(kd, q.get_id())] == 0][:8]:
                    key = ("mem", s.get_id(), p.get_id())
                    if key not in self.sumdone:
                        self.sumdone.add(key)
                        self.ground.append(z3.Implies(z3.And(p >= 0, p < s.arg(0)), s >= sum_body(s, p)))
        cm = self.use_sums == "cand"
        wg = 0 if cm else 2
        for s, t in itertools.combinations(sums, 2):
            if s.sort() != t.sort() or cm and s.get_id() not in self.goal_sums and t.get_id() not in self.goal_sums:
                continue
            ks, kt = SUMS[s.decl().name()].kind, SUMS[t.decl().name()].kind
            if ks != kt:
                continue
            key = ("pair", s.get_id(), t.get_id())
            if key not in self.sumdone:
                self.sumdone.add(key)
                new += 1
                d = z3.Int(f"d{uid()}")
                self.term(ks, d, wg)
                hs, ht = s.arg(0), t.arg(0)
                inr = z3.And(d >= 0, d < hs)
                bs, bt = sum_body(s, d), sum_body(t, d)
                if hs.eq(ht):
                    self.ground.append(z3.Or(z3.And(inr, bs != bt), s == t))
                else:
                    self.ground.append(z3.Implies(hs == ht, z3.Or(z3.And(inr, bs != bt), s == t)))
                    self.ground.append(z3.Implies(z3.And(ht == hs + 1, hs >= 0), z3.Or(z3.And(inr, bs != bt), t == s + sum_body(t, hs))))
                    self.ground.append(z3.Implies(z3.And(hs == ht + 1, ht >= 0), z3.Or(z3.And(d >= 0, d < ht, bs != bt), s == t + sum_body(s, ht))))
                # monotone
                if hs.eq(ht):
                    d2 = z3.Int(f"d{uid()}"); d3 = z3.Int(f"d{uid()}")
                    self.term(ks, d2, wg); self.term(ks, d3, wg)
                    b2s, b2t = sum_body(s, d2), sum_body(t, d2)
                    self.ground.append(z3.Or(z3.And(d2 >= 0, d2 < hs, b2s > b2t), s <= t))
                    self.ground.append(z3.Or(z3.And(d3 >= 0, d3 < hs, sum_body(s, d3) < sum_body(t, d3)), s >= t))
            if ks == "cand" and s.arg(0).eq(t.arg(0)):
                rel = [a for a in s.children()[1:] + t.children()[1:] if a.sort() == I and not const_num(a)]
                ids = {a.get_id() for a in rel}
                for p in rel + [q for q in points if q.get_id() not in ids]:
                    key = ("pt", s.get_id(), t.get_id(), p.get_id())
                    if key in self.sumdone or p.get_id() not in ids and (self.gen[("cand", p.get_id())] > 1 or len(points) > 14):
                        continue
                    self.sumdone.add(key)
                    new += 1
                    d = z3.Int(f"d{uid()}")
                    self.term(ks, d, 3)
                    hs = s.arg(0)
                    self.ground.append(z3.Implies(z3.And(p >= 0, p < hs), z3.Or(
                        z3.And(d >= 0, d < hs, d != p, sum_body(s, d) != sum_body(t, d)),
                        s - t == sum_body(s, p) - sum_body(t, p))))
        return new

    def lincomb(self, expr, strict=False):
        """expr: arithmetic term linear in sums with a common range.  Adds: all summands of the combination are
        (<=, >=, =) 0  =>  the combination of the sums is"""
        apps = []
        seen = set()
        stack = [expr]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().name() in SUMS:
                apps.append(x)
                continue
            stack.extend(x.children())
        if len(apps) < 1:
            return
        byrange = {}
        for a in apps:
            byrange.setdefault((a.arg(0).sexpr(), SUMS[a.decl().name()].kind), []).append(a)
        for (h, kind), aps in byrange.items():
            hi = aps[0].arg(0)
            zero = [(a, tosort(0, a.sort())) for a in apps]
            base = z3.substitute(expr, *zero)
            coefs = []
            ok = True
            for a in aps:
                one = [(x, tosort(1 if x.eq(a) else 0, x.sort())) for x in apps]
                co = z3.simplify(z3.substitute(expr, *one) - base, som=True)
                coefs.append(co)
            comb = sum((c * a for c, a in zip(coefs[1:], aps[1:])), coefs[0] * aps[0])

            def at(d):
                return sum((c * sum_body(a, d) for c, a in zip(coefs[1:], aps[1:])), coefs[0] * sum_body(aps[0], d))
            ds = [z3.Int(f"d{uid()}") for _ in range(3)]
            for d in ds:
                self.term(kind, d, 1)
            conds = [z3.And(d >= 0, d < hi) for d in ds]
            self.ground.append(z3.Or(z3.And(conds[0], at(ds[0]) != 0), comb == 0))
            self.ground.append(z3.Or(z3.And(conds[1], at(ds[1]) < 0), comb >= 0))
            self.ground.append(z3.Or(z3.And(conds[2], at(ds[2]) > 0), comb <= 0))

    def arrays(self, lams, sels):
        new = 0
        # definitions of Lam at all indices read anywhere and all index terms of the pools
        idx = {}
        for s in sels:
            idx[s.arg(1).get_id()] = s.arg(1)
        for kd in ("cand", "voter", "pos"):
            for t in self.pools[kd]:
                idx[t.get_id()] = t
        for l in lams:
            for i in list(idx.values()):
                key = (l.get_id(), i.get_id())
                if key in self.arrdone:
                    continue
                self.arrdone.add(key)
                self.ground.append(z3.Select(l, i) == lam_at(l, i))
                new += 1
        return new

    def build(self):
        if getattr(self, "built", False):
            return self.ground
        self.built = True
        for r in range(self.max_rounds + 7):
            new = self.round(r)
            sums, lams, sels, stores = self.collect()
            if self.use_sums:
                new += self.sum_axioms(sums[:40])
            new += self.arrays(lams, sels)
            if self.trigs:
                self.rnd = r + 1
                new += self.triggers()
            for ax in self.axioms:
                new += ax(self)
            if not new or len(self.ground) > self.cap:
                break
        # extensionality of pairs of Lam arrays of the same sort
        _, lams, _, _ = self.collect()
        return self.ground

    def solve(self, timeout=10000):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.set("smt.array.extensional", False)     # instances needed are added by ext()
        s.add(*self.build())
        r = s.check()
        return r, s


def sum_apps(fs):
    out, seen, stack = [], set(), list(fs)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() in SUMS:
            out.append(x)
        stack.extend(x.children())
    return out


STATS = {"time": 0.0, "queries": 0}


def goal_terms(goal):
    """differences lhs-rhs of the arithmetic (in)equalities of a goal"""
    out = []
    if not is_z3(goal):
        return out
    stack = [goal]
    while stack:
        x = stack.pop()
        if not z3.is_app(x):
            continue
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(x.arg(0)):
            a, b = x.arg(0), x.arg(1)
            out.append(a - b)
        elif z3.is_bool(x):
            stack.extend(x.children())
    return out


def prove(*a, **kw):
    if not DEBUG:
        return prove_(*a, **kw)
    print("  prove", str(a[1])[:200])
    return prove_(*a, **kw)


def prove_(facts, goal, pools=None, axioms=(), timeout=10000, rounds=2, comb=(), cap=4000, quick=False):
    """('proved'|'failed'|'unknown', details); cheap instantiations are tried first"""
    t0 = time.time()
    STATS["queries"] += 1
    try:
        if isinstance(goal, bool) and goal:
            return "proved", ""
        res = None
        steps = [(0, False, False), (0, "light", False)]
        comx = any(isinstance(f, Trig) for f in facts)
        if comx and not quick:
            steps += [(-1, "light", False)]
        if quick:
            pass
        elif rounds > 0:
            steps += [(1, False, False), (0, "light", True), (0, "cand", True), (0, True, True), (1, "light", True), (1, "cand", True), (1, True, True)]
        else:
            steps += [(0, "light", True), (0, "cand", True), (0, True, True)]
        for rd in range(2, 0 if quick else rounds + 1):
            steps += [(rd, "light", True), (rd, True, True)]
        for rd, sm, ex in steps:
            p = Problem(facts, goal, pools, axioms=axioms, max_rounds=max(rd, 0), cap=cap, sums=sm, ext=ex, comx=1 if rd < 0 else 0)
            if sm is True:
                for e in list(comb):
                    p.lincomb(e)
                for g in list(p.ground[-3:]):
                    for e in goal_terms(g):
                        p.lincomb(e)
            if sm == "cand" and not p.goal_sums:
                continue        # about sizes of sets only
            p.build()
            if sm and not p.sumdone and not comb and (sm is True or not ex):
                continue        # no sums: the same problem as before
            if not ex and not p.noext and rd >= 0 and not (quick and res is None):
                continue
            r, s = p.solve(timeout if rd == rounds else min(timeout, 1000 if quick or not ex and rd >= 0 else 1500 + 1000 * rd))
            if DEBUG:
                print(f"    round {rd}{'s' if sm is True else 'l' if sm else ''}{'' if ex else '-'}: {r} ground {len(p.ground)} univ {len(p.univ)} {time.time() - t0:.1f}s", {a: len(b) for a, b in p.pools.items() if b})
            if r == z3.unsat:
                return "proved", ""
            res = ("failed", "counter-model of the instantiated obligation") if r == z3.sat else ("unknown", s.reason_unknown())
        return res or ("unknown", "")
    finally:
        STATS["time"] += time.time() - t0


DEBUG = False
