"""Semantics of operators, built-in functions and methods on symbolic values."""
import ast
import fractions

import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Iff, Imp, Not_, Or_, is_z3, simp
from engine.interp import (BreakEx, ContinueEx, Infeasible, Machine, RaiseEx, ReturnEx)
from engine.values import *


def num(x):
    return z3.RealVal(str(x)) if isinstance(x, fractions.Fraction) else x


def eqlen(a, b):
    return is_z3(a) and is_z3(b) and a.eq(b)


def kind_of_len(N):
    if is_z3(N) and N.eq(L.m):
        return "cand"
    if is_z3(N) and N.eq(L.n):
        return "voter"
    return "pos"


# ------------------------------------------------------------------------------------------ truth, numbers
def truth(M, v):
    if is_boolish(v):
        return v
    if v is None:
        return False
    if isinstance(v, (str, tuple, int, float)):
        return bool(v)
    if is_num(v):
        return num(v) != 0
    if isinstance(v, (FuncV, PartialV, ClassV, Sym, VoterV, ModuleV)):
        return True
    if isinstance(v, Opaque):
        return M.fresh("unknown", L.B)
    if isinstance(v, ProfileV):
        return L.n > 0
    o = M.deref(v)
    if isinstance(o, (LList, SItems)):
        return len(o.items) > 0
    if isinstance(o, DItems):
        return len(o.items) > 0
    if isinstance(o, LSeq):
        return o.n > 0
    if isinstance(o, LFilt):
        return Ex(o.kind, lambda i: And_(z3.And(i >= 0, i < o.N), cnd(o.cond(i))))
    if isinstance(o, Bag):
        return bag_nonempty(o)
    if isinstance(o, (LCom, SCom, TCom, ApprovedV)):
        cs = o.cs
        return Ex("cand", lambda c: cs.member(c))
    if isinstance(o, DMap):
        return Ex(o.kind, lambda c: cnd(o.dom(c)))
    raise Unsupported(f"truth value of {type(o).__name__}")


def cnd(c):
    return c if isinstance(c, (F, bool)) or is_z3(c) else bool(c)


def bag_kinds(shape):
    if shape[0] in ("tcom", "scom", "lcom"):
        return ["com"]
    if shape[0] == "rseq":
        return ["rarr"]
    if shape[0] == "num":
        return [shape[1]]
    if shape[0] == "tuple":
        return [x for s in shape[1] for x in bag_kinds(s)]
    raise Unsupported(f"shape {shape}")


def quant(cls, kinds, fn, acc=()):
    if not kinds:
        return fn(*acc)
    return cls(kinds[0], lambda x: quant(cls, kinds[1:], fn, acc + (x,)))


def bag_nonempty(b):
    return quant(Ex, bag_kinds(b.shape), lambda *t: cnd(b.pred(*t)))


def to_bag_elem(M, v):
    o = M.deref(v)
    if isinstance(o, TCom):
        return ("tcom", o.sorted), [o.cs.array()], ["com"]
    if isinstance(o, tuple) and o and all(is_z3(x) or isinstance(x, int) for x in o) or isinstance(o, tuple) and not o:
        cs = as_cs(M, o)
        return ("tcom", len(o) <= 1), [cs.array()], ["com"]
    if isinstance(o, SCom):
        M.frozen.add(v.rid)
        return ("scom", o.cls), [o.cs.array()], ["com"]
    if isinstance(o, LCom):
        M.frozen.add(v.rid)
        return ("lcom", o.sorted), [o.cs.array()], ["com"]
    if isinstance(o, LSeq):
        if isinstance(v, Ref):
            M.frozen.add(v.rid)
        return ("rseq", o.n, o.kind), [L.Lam(lambda i: L.tosort(o.get(i), L.R), L.R)], ["rarr"]
    if isinstance(o, DMap):
        # total numeric dict over an index range
        if isinstance(v, Ref):
            M.frozen.add(v.rid)
        if o.N is None:
            raise Unsupported("dict stored in a collection")
        return ("rmap", o.N, o.kind), [L.Lam(lambda i: L.tosort(o.get(i), L.R), L.R)], ["rarr"]
    if isinstance(o, tuple):
        parts = [to_bag_elem(M, x) for x in o]
        return ("tuple", tuple(p[0] for p in parts)), [t for p in parts for t in p[1]], [s for p in parts for s in p[2]]
    if isinstance(o, LList) and all(is_z3(x) or isinstance(x, int) for x in o.items):
        if isinstance(v, Ref):
            M.frozen.add(v.rid)
        cs = as_cs(M, v)
        return ("lcom", len(o.items) <= 1), [cs.array()], ["com"]
    return None


def from_bag_elem(M, shape, terms):
    """value of an element of a collection (terms: z3 terms, consumed from the front)"""
    terms = list(terms)
    v = _from(M, shape, terms)
    return v


def _from(M, shape, terms):
    if shape[0] == "tcom":
        return TCom(CS(arr=terms.pop(0)), shape[1])
    if shape[0] == "scom":
        return M.new(SCom(CS(arr=terms.pop(0)), shape[1]))
    if shape[0] == "lcom":
        return M.new(LCom(CS(arr=terms.pop(0)), shape[1]))
    if shape[0] == "rseq":
        t = terms.pop(0)
        return M.new(LSeq(shape[1], lambda i, t=t: L.read(t, i), shape[2]))
    if shape[0] == "rmap":
        t = terms.pop(0)
        N = shape[1]
        return M.new(DMap(lambda i: z3.And(i >= 0, i < N), lambda i, t=t: L.read(t, i), shape[2], N))
    if shape[0] == "tuple":
        return tuple(_from(M, s, terms) for s in shape[1])
    raise Unsupported(f"shape {shape}")


def join_shape(a, b):
    """least general common shape (None = anything)"""
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a[0] == b[0] and a[0] in ("tcom", "lcom"):
        return (a[0], a[1] and b[1])
    if a[0] == b[0] == "tuple" and len(a[1]) == len(b[1]):
        return ("tuple", tuple(join_shape(x, y) for x, y in zip(a[1], b[1])))
    if a[0] == b[0] == "scom":
        return ("scom", "set")
    if a[0] == b[0] and a[0] in ("rseq", "rmap") and a[1].eq(b[1]):
        return a
    raise Unsupported(f"collection of different kinds of elements {a} {b}")


# ------------------------------------------------------------------------------------------ candidate sets
def as_cs(M, v):
    """the set of candidates contained in a duplicate-free collection, or None"""
    o = M.deref(v)
    if isinstance(o, (LCom, SCom, TCom, ApprovedV)):
        return o.cs
    if isinstance(o, CS):
        return o
    if isinstance(o, RangeV) and o.step == 1:
        lo, hi = o.lo, o.hi
        full = isinstance(lo, int) and lo == 0 and is_z3(hi) and hi.eq(L.m)
        return CS(lambda c: z3.And(c >= lo, c < hi), size=L.m if full else None)
    if isinstance(o, LFilt) and o.own:
        return CS(lambda c: z3.And(c >= 0, c < o.N, L.zb(cnd(o.cond(c)))))
    if isinstance(o, DMap):
        return CS(lambda c: L.zb(cnd(o.dom(c))))
    if isinstance(o, LFilt):
        # distinct candidates other than the index: needs an existential, not a set of candidates
        return None
    items = None
    if isinstance(o, (LList, SItems)):
        items = o.items
    elif isinstance(o, tuple):
        items = o
    if items is not None and all(is_num(x) and (isinstance(x, int) or x.sort() == L.I) for x in items):
        if not items:
            return CS(arr=L.EMPTY, size=z3.IntVal(0))
        arr = L.EMPTY
        for i, x in enumerate(items):
            if not isinstance(o, SItems):
                for y in items[:i]:
                    if not M.prove(num(x) != y)[0] == "proved":
                        return None
            arr = z3.Store(arr, x, True)
        return CS(arr=arr, size=None if isinstance(o, SItems) and len(items) > 1 else z3.IntVal(len(items)))
    return None


def need_cs(M, v):
    cs = as_cs(M, v)
    if cs is None:
        raise Unsupported(f"{type(M.deref(v)).__name__} is not known to be a set of candidates")
    return cs


def set_add(M, cs, x):
    if cs.arr is None and cs._size is None:
        return CS(lambda c: z3.Or(cs.member(c), c == x))
    return CS(arr=z3.Store(cs.array(), x, True))


def set_remove(M, cs, x):
    return CS(arr=z3.Store(cs.array(), x, False))


def union(a, b):
    r = CS(lambda c: z3.Or(a.member(c), b.member(c)))
    r.union_of = (a, b)
    return r


def inter(a, b):
    return CS(lambda c: z3.And(a.member(c), b.member(c)))


def minus(a, b):
    return CS(lambda c: z3.And(a.member(c), z3.Not(b.member(c))))


def single(o):
    """the only element of a set display with one candidate"""
    if isinstance(o, (SItems, LList)) and len(o.items) == 1 and is_num(o.items[0]):
        return num(o.items[0])
    return None


def in_range_cand(M, x):
    """obligation: x is an existing candidate"""
    M.oblige("candidate index exists", z3.And(num(x) >= 0, num(x) < L.m))


# ------------------------------------------------------------------------------------------ operators
def binop(M, op, a, b):
    if is_num(a) and is_num(b):
        return arith(M, op, a, b)
    if isinstance(a, bool) and is_num(b) or isinstance(b, bool) and is_num(a):
        return arith(M, op, int(a), int(b)) if isinstance(a, bool) and isinstance(b, bool) else arith(M, op, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
    if is_z3(a) and z3.is_bool(a) and is_num(b):
        return arith(M, op, z3.If(a, 1, 0), b)
    if is_z3(b) and z3.is_bool(b) and is_num(a):
        return arith(M, op, a, z3.If(b, 1, 0))
    if isinstance(a, (Opaque, str, Sym)) or isinstance(b, (Opaque, str, Sym)):
        if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, (ast.Add, ast.Mult, ast.Mod)):
            o = Opaque("str")
            o.parts = [a, b]
            return o
        if isinstance(a, Opaque):
            return Opaque()
    x, y = M.deref(a), M.deref(b)
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor)):
        cx, cy = as_cs(M, a), as_cs(M, b)
        if cx is not None and cy is not None:
            if isinstance(op, ast.BitAnd):
                r = inter(cx, cy)
            elif isinstance(op, ast.BitOr):
                r = union(cx, cy) if single(y) is None else set_add(M, cx, single(y))
            elif isinstance(op, ast.BitXor):
                r = CS(lambda c: cx.member(c) != cy.member(c))
            elif single(y) is not None and cx.arr is not None:
                r = set_remove(M, cx, single(y))
            else:
                r = minus(cx, cy)
            return M.new(SCom(r))
        if isinstance(x, DMap) and x.dom:
            raise Unsupported("set operation on dict views")
    if isinstance(op, ast.Add):
        return concat(M, a, b)
    if isinstance(op, ast.Mult):
        if is_num(x):
            a, b, x, y = b, a, y, x
        if isinstance(x, LList) and len(x.items) == 1 and is_num(y):
            it = x.items[0]
            if isinstance(y, int):
                return M.new(LList([it] * y))
            return M.new(LSeq(y, lambda i: it, kind_of_len(y)))
        if isinstance(x, tuple) and len(x) == 1 and is_num(y):
            it = x[0]
            return LSeq(y, lambda i: it, kind_of_len(y))
        if isinstance(x, LList) and isinstance(y, int):
            return M.new(LList(list(x.items) * y))
    raise Unsupported(f"operator {type(op).__name__} on {type(x).__name__}, {type(y).__name__}")


POW = z3.Function("POW", L.R, L.I, L.R)


def arith(M, op, a, b):
    if not is_z3(a) and not is_z3(b):
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.FloorDiv):
            return a // b
        if isinstance(op, ast.Mod):
            return a % b
        if isinstance(op, ast.Div):
            return fractions.Fraction(a) / fractions.Fraction(b)
        if isinstance(op, ast.Pow):
            return a ** b
        raise Unsupported("operator")
    a, b = num(a), num(b)
    if isinstance(op, ast.Add):
        return a + b
    if isinstance(op, ast.Sub):
        return a - b
    if isinstance(op, ast.Mult):
        return a * b
    if isinstance(op, ast.Div):
        return divide(M, a, b)
    if isinstance(op, (ast.FloorDiv, ast.Mod)):
        if isinstance(a, int):
            a = z3.IntVal(a)
        if isinstance(b, int):
            b = z3.IntVal(b)
        if a.sort() != L.I or b.sort() != L.I:
            raise Unsupported("// on reals")
        M.oblige("divisor is positive", b > 0)
        return a / b if isinstance(op, ast.FloorDiv) else a % b
    if isinstance(op, ast.Pow):
        x = L.tosort(a, L.R)
        r = POW(x, L.tosort(b, L.I))
        M.assume(z3.Implies(x > 0, r > 0))
        return r
    raise Unsupported("operator")


def divide(M, a, b):
    a, b = L.tosort(num(a), L.R), L.tosort(num(b), L.R)
    M.oblige("no division by zero", b != 0)
    return a / b


def concat(M, a, b):
    if isinstance(M.deref(b), Iter):
        b = listify(M, b, "list")
    x, y = M.deref(a), M.deref(b)
    istup = isinstance(x, (tuple, TCom))

    def mk(o, tup=istup):
        return o if tup else M.new(o)
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) == 0 and all(is_z3(t) for t in y) and y:
            return x + y
        return x + y
    if isinstance(x, LList) and isinstance(y, LList):
        return M.new(LList(x.items + y.items))
    # distinct candidates
    cx, cy = as_cs(M, a), as_cs(M, b)
    if isinstance(x, (TCom, LCom)) or isinstance(y, (TCom, LCom)) or (cx is not None and cy is not None):
        if cx is None or cy is None:
            raise Unsupported("concatenation of unknown collections")
        if isinstance(y, tuple) and len(y) == 1 or isinstance(y, LList) and len(y.items) == 1:
            t = (y if isinstance(y, tuple) else y.items)[0]
            M.oblige("no duplicate candidate in committee", z3.Not(cx.member(t)))
            M.oblige("candidate index exists", z3.And(t >= 0, t < L.m))
            r = set_add(M, cx, t)
        else:
            M.oblige("no duplicate candidate in concatenation", All("cand", lambda c: z3.Not(z3.And(cx.member(c), cy.member(c)))))
            r = union(cx, cy)
        srt = False
        if (isinstance(x, (LCom, TCom)) and x.sorted or isinstance(x, (LList, tuple))) and isinstance(y, (tuple, LList)):
            its = y if isinstance(y, tuple) else y.items
            if len(its) == 1:
                st, _ = M.prove(All("cand", lambda c: z3.Implies(cx.member(c), c < its[0])))
                srt = st == "proved"
        if istup:
            return TCom(r, srt)
        return M.new(LCom(r, srt))
    # bags
    if isinstance(x, LList) and not x.items:
        return M.new(y)
    if isinstance(y, LList) and not y.items:
        return M.new(x)
    bx, by = to_bag(M, a), to_bag(M, b)
    if bx is not None and by is not None:
        return M.new(bag_union(bx, by, "list"))
    if isinstance(x, LSeq) and isinstance(y, LSeq) or isinstance(x, (LSeq, LFilt, LList)) and isinstance(y, (LSeq, LFilt, LList)):
        nx, ny = length(M, a), length(M, b)
        if isinstance(x, LFilt) or isinstance(y, LFilt):
            return M.new(LConcat((x, y)))
        return M.new(LSeq(simp(nx + ny), lambda i: z3.If(i < nx, x.get(i), y.get(i - nx))))
    raise Unsupported(f"concatenation of {type(x).__name__} and {type(y).__name__}")


class LConcat(H):
    """concatenation of lists of which only the length, sums and membership are needed"""

    def __init__(self, parts):
        self.parts = parts


def to_bag(M, v):
    """a list/set of committees (or of tuples of terms) as Bag"""
    o = M.deref(v)
    if isinstance(o, Bag):
        return o
    if isinstance(o, (LList, SItems)):
        if not o.items:
            return Bag(lambda *t: False, None, "list", z3.IntVal(0), True)
        els = [to_bag_elem(M, x) for x in o.items]
        if any(e is None for e in els):
            return None
        shape = None
        for e in els:
            shape = join_shape(shape, e[0])
        return Bag(lambda *t: Or_(*[same_terms(t, e[1], e[2]) for e in els]), shape, "list", z3.IntVal(len(els)), len(els) <= 1)
    if isinstance(o, LFilt):
        j = z3.Int(f"!e{L.uid()}")
        try:
            e = to_bag_elem(M, o.elem(j))
        except Unsupported:
            return None
        if e is None:
            return None
        shape, terms, kinds = e
        return Bag(lambda *t: Ex(o.kind, lambda i: And_(z3.And(i >= 0, i < o.N), cnd(o.cond(i)),
                                 same_terms(t, [z3.substitute(x, (j, i)) for x in terms], kinds))), shape, "list", None, False)
    return None


def same_terms(t, u, kinds):
    """equality of tuples of terms (sets: same elements)"""
    return And_(*[x == y for x, y in zip(t, u)])


def bag_union(x, y, typ):
    if x.shape is None:
        r = y
    elif y.shape is None:
        r = x
    else:
        r = Bag(lambda *t: Or_(cnd(x.pred(*t)), cnd(y.pred(*t))), join_shape(x.shape, y.shape), typ, None, False)
    return Bag(r.pred, r.shape, typ, r.size, r.nodup, r.val)


def inplace(M, ref, op, val):
    o = M.obj(ref)
    if isinstance(op, ast.Add):
        r = concat(M, ref, val)
        M.write(ref, M.deref(r))
        return ref
    if isinstance(op, ast.Mult):
        r = binop(M, op, ref, val)
        M.write(ref, M.deref(r))
        return ref
    if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
        r = binop(M, op, ref, val)
        M.write(ref, M.deref(r))
        return ref
    raise Unsupported("in-place operator")


def compare(M, op, a, b):
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(M, b, a)
        if isinstance(op, ast.In):
            return r
        if isinstance(r, bool):
            return not r
        return z3.Not(r) if is_z3(r) else Not_(r)
    if isinstance(op, (ast.Is, ast.IsNot)):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, OptInt):
                r = a.isnone if b is None else False
            elif isinstance(b, OptInt):
                r = b.isnone
            else:
                r = a is b
            if isinstance(op, ast.Is):
                return r
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return (a == b) == isinstance(op, ast.Is)
        raise Unsupported("is")
    if isinstance(a, OptInt):
        a = a.value
    if isinstance(b, OptInt):
        b = b.value
    if isinstance(a, bool) and is_z3(b) or isinstance(b, bool) and is_z3(a):
        if is_boolish(a) and is_boolish(b):
            r = L.zb(a) == L.zb(b)
            return r if isinstance(op, ast.Eq) else z3.Not(r)
    if is_num(a) and is_num(b):
        a, b = num(a), num(b)
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
    if isinstance(a, (str, bool, type(None))) and isinstance(b, (str, bool, int, type(None))) or isinstance(b, (str, type(None))) and isinstance(a, (int, bool)):
        return (a == b) if isinstance(op, ast.Eq) else (a != b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
            return isinstance(op, ast.Eq)
        return M.fresh("symeq", L.B)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return M.fresh("unknown", L.B)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        x, y = M.deref(a), M.deref(b)
        if a is None or b is None:
            return isinstance(op, ast.NotEq)
        cx, cy = as_cs(M, a), as_cs(M, b)
        if cx is not None and cy is not None:
            both_set = isinstance(x, (SCom, ApprovedV, SItems)) and isinstance(y, (SCom, ApprovedV, SItems))
            both_sorted = isinstance(x, (TCom, LCom)) and isinstance(y, (TCom, LCom)) and x.sorted and y.sorted
            if both_set or both_sorted:
                r = All("cand", lambda c: cx.member(c) == cy.member(c))
                return r if isinstance(op, ast.Eq) else Not_(r)
        if isinstance(x, LSeq) and isinstance(y, LSeq):
            r = And_(x.n == y.n, All(x.kind, lambda i: z3.Implies(z3.And(i >= 0, i < x.n), x.get(i) == y.get(i))))
            return r if isinstance(op, ast.Eq) else Not_(r)
    raise Unsupported(f"comparison of {type(M.deref(a)).__name__} and {type(M.deref(b)).__name__}")


class OptInt:
    """None or an integer (parameter max_num_of_committees)"""

    def __init__(self, isnone, value):
        self.isnone, self.value = isnone, value


def contains(M, coll, x):
    o = M.deref(coll)
    if isinstance(o, str) and isinstance(x, str):
        return x in o
    if isinstance(o, Opaque) or isinstance(x, Opaque):
        return M.fresh("unknown", L.B)
    if is_num(x) and not isinstance(x, bool):
        cs = None
        if isinstance(o, (LCom, SCom, TCom, ApprovedV, LFilt)):
            cs = as_cs(M, coll)
        if cs is not None:
            return L.zb(cs.member(x if is_z3(x) else z3.IntVal(x)))
        if isinstance(o, RangeV):
            return z3.And(num(x) >= o.lo, num(x) < o.hi)
        if isinstance(o, DMap):
            return cnd(o.dom(x if is_z3(x) else z3.IntVal(x)))
        if isinstance(o, LSeq):
            return Ex(o.kind, lambda i: z3.And(i >= 0, i < o.n, o.get(i) == x))
        if isinstance(o, LFilt):
            return Ex(o.kind, lambda i: And_(z3.And(i >= 0, i < o.N), cnd(o.cond(i)), o.elem(i) == x))
    items = None
    if isinstance(o, (LList, SItems)):
        items = o.items
    elif isinstance(o, tuple):
        items = o
    elif isinstance(o, DItems):
        items = tuple(o.items)
    if items is not None:
        rs = [compare(M, ast.Eq(), x, y) for y in items]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        if not rs:
            return False
        return rs[0] if len(rs) == 1 else (z3.Or(rs) if all(is_z3(r) for r in rs) else Or_(*rs))
    if isinstance(o, Bag):
        e = to_bag_elem_ro(M, x)
        if e is not None:
            return cnd(o.pred(*e[1]))
    raise Unsupported(f"membership in {type(o).__name__}")


def to_bag_elem_ro(M, v):
    fz = set(M.frozen)
    r = to_bag_elem(M, v)
    M.frozen = fz
    return r


# ------------------------------------------------------------------------------------------ items
def length(M, v):
    o = M.deref(v)
    if isinstance(o, ProfileV):
        return L.n
    if isinstance(o, str):
        return len(o)
    if isinstance(o, (LList, SItems, DItems)):
        if isinstance(o, SItems) and len(o.items) > 1:
            cs = as_cs(M, v)
            if cs is None:
                raise Unsupported("len of set display")
            return cs.card()
        return len(o.items)
    if isinstance(o, tuple):
        return len(o)
    if isinstance(o, LSeq):
        return o.n
    if isinstance(o, (LCom, SCom, TCom, ApprovedV)):
        return o.cs.card()
    if isinstance(o, LFilt):
        one, zero = z3.IntVal(1), z3.IntVal(0)
        return L.Sum(o.N, lambda i: z3.If(L.zb(cnd(o.cond(i))), one, zero), o.kind, L.I)
    if isinstance(o, LConcat):
        r = 0
        for p in o.parts:
            r = r + length(M, p)
        return r
    if isinstance(o, LSorted):
        return length(M, o.src)
    if isinstance(o, Bag):
        if o.size is None:
            o.size = M.fresh("size", "int")
            M.assume(o.size >= 0)
            M.assume(Iff(o.size > 0, bag_nonempty(o)))
        return o.size
    if isinstance(o, BagApp):
        return o.size
    if isinstance(o, RangeV):
        if isinstance(o.lo, int) and isinstance(o.hi, int):
            return len(range(o.lo, o.hi))
        d = o.hi - o.lo
        return z3.If(d > 0, d, 0)
    if isinstance(o, DMap):
        return L.Sum(o.N if o.N is not None else L.m, lambda i: z3.If(L.zb(cnd(o.dom(i))), z3.IntVal(1), z3.IntVal(0)), o.kind, L.I)
    if isinstance(o, OObj):
        f = M.method_of(o.cls, "__len__")
        if f:
            return M.inline(f, [v], {})
    if isinstance(o, Opaque):
        x = M.fresh("len", "int")
        M.assume(x >= 0)
        return x
    raise Unsupported(f"len of {type(o).__name__}")


def norm_index(M, ix, n_):
    if isinstance(ix, int) and ix < 0:
        return n_ + ix
    if is_z3(ix):
        s = z3.simplify(ix)
        if z3.is_int_value(s) and s.as_long() < 0:
            return n_ + s
    return ix


def get_item(M, base, ix):
    o = M.deref(base)
    if isinstance(o, Opaque):
        return Opaque(o.what)
    if isinstance(o, ProfileV):
        if not is_z3(ix):
            ix = z3.IntVal(ix)
        M.oblige("voter index exists", z3.And(ix >= 0, ix < L.n))
        return VoterV(ix)
    if isinstance(o, (LList, tuple)):
        items = o.items if isinstance(o, LList) else o
        if isinstance(ix, int):
            if not -len(items) <= ix < len(items):
                raise RaiseEx("IndexError")
            return items[ix]
        if is_z3(ix) and items and all(is_num(x) for x in items):
            M.oblige("index in range", z3.And(ix >= 0, ix < len(items)))
            r = items[-1]
            for i in range(len(items) - 2, -1, -1):
                r = z3.If(ix == i, items[i], r)
            return r
        raise Unsupported("symbolic index into list")
    if isinstance(o, DItems):
        if isinstance(ix, (str, int)):
            if ix not in o.items:
                raise RaiseEx("KeyError")
            return o.items[ix]
        if isinstance(ix, (Sym, Opaque)):
            return Opaque()
        raise Unsupported("key")
    if isinstance(o, LSeq):
        i = norm_index(M, ix, o.n)
        i = z3.IntVal(i) if isinstance(i, int) else i
        M.oblige("index in range", z3.And(i >= 0, i < o.n))
        return o.get(i)
    if isinstance(o, DMap):
        i = z3.IntVal(ix) if isinstance(ix, int) else ix
        if not is_z3(i):
            raise Unsupported("dict key")
        M.oblige("key exists", cnd(o.dom(i)))
        return o.get(i)
    if isinstance(o, RangeV):
        return o.lo + ix
    if isinstance(o, LFilt):
        if ix == 0 or ix == -1:
            M.oblige("list is not empty", truth(M, o))
            i = M.fresh("first" if ix == 0 else "last", o.kind)
            M.assume(z3.And(i >= 0, i < o.N))
            M.assume(cnd(o.cond(i)))
            if o.ordered and ix == 0:
                M.assume(All(o.kind, lambda x: Not_(cnd(o.cond(x))), guard=lambda x: z3.And(x >= 0, x < i)))
            elif o.ordered:
                M.assume(All(o.kind, lambda x: Not_(cnd(o.cond(x))), guard=lambda x: z3.And(x > i, x < o.N)))
            return o.elem(i)
        raise Unsupported("index into filtered list")
    if isinstance(o, (LCom, TCom)):
        if ix in (0, -1):
            M.oblige("list is not empty", Ex("cand", lambda c: o.cs.member(c)))
            c = M.fresh("elem", "cand")
            M.assume(o.cs.member(c))
            if o.sorted:
                M.assume(All("cand", lambda x: z3.Implies(o.cs.member(x), x >= c if ix == 0 else x <= c)))
            return c
        raise Unsupported("index into list of candidates")
    if isinstance(o, LSorted):
        return sorted_item(M, o, ix)
    if isinstance(o, Bag) and ix == 0 and o.typ == "list":
        M.oblige("list is not empty", bag_nonempty(o))
        kinds = bag_kinds(o.shape)
        ts = [M.fresh("first", kd) for kd in kinds]
        M.assume(cnd(o.pred(*ts)))
        return from_bag_elem(M, o.shape, ts)
    if isinstance(o, OObj):
        f = M.method_of(o.cls, "__getitem__")
        if f:
            return M.inline(f, [base, ix], {})
    raise Unsupported(f"item of {type(o).__name__}")


def src_parts(src):
    """(N, cond, elem, kind) of a numeric collection"""
    if isinstance(src, LSeq):
        return src.n, (lambda i: True), src.get, src.kind
    if isinstance(src, LFilt):
        return src.N, src.cond, src.elem, src.kind
    if isinstance(src, DMap):
        return (src.N if src.N is not None else L.m), src.dom, src.get, src.kind
    raise Unsupported("numeric collection")


def count_if(N, cond, kind):
    return L.Sum(N, lambda i: z3.If(L.zb(cond(i)), z3.IntVal(1), z3.IntVal(0)), kind, L.I)


SORTV = {False: z3.Function("SORTUP", L.RARR, L.I, L.RARR), True: z3.Function("SORTDN", L.RARR, L.I, L.RARR)}


PERM = z3.Function("PERM", L.RARR, L.I, L.I)     # position before sorting


def sorted_seq(M, o):
    """the sorted list as a sequence (contract of the built-in function sorted)"""
    N, cond, elem, kind = src_parts(o.src)
    if cnd(cond(z3.Int("!probe"))) is not True:
        raise Unsupported("sequence of a sorted filtered list")
    a = L.Lam(lambda i: L.tosort(num(elem(i)), L.R), L.R)
    N = z3.IntVal(N) if isinstance(N, int) else N
    s = SORTV[bool(o.reverse)](a, N)
    M.assume(All("pos", lambda i: z3.Implies(i < N, z3.And(PERM(s, i) >= 0, PERM(s, i) < N, L.read(s, i) == L.read(a, PERM(s, i))))))
    M.assume(All("pos", lambda i: All("pos", lambda j: z3.Implies(z3.And(i <= j, j < N), (L.read(s, i) >= L.read(s, j)) if o.reverse else (L.read(s, i) <= L.read(s, j))))))
    return LSeq(N, lambda i: L.read(s, i), "pos")


def sorted_item(M, o, ix):
    """k-th smallest / largest item of a list of numbers, characterised by counting"""
    N, cond, elem, kind = src_parts(o.src)
    total = length(M, o.src)
    ix = z3.IntVal(ix) if isinstance(ix, int) else ix
    six = z3.simplify(ix)
    neg = z3.is_int_value(six) and six.as_long() < 0 or (not z3.is_int_value(six) and M.prove(ix < 0)[0] == "proved")
    i = total + ix if neg else ix
    M.oblige("index in range", z3.And(i >= 0, i < total))
    rank_small = total - 1 - i if o.reverse else i      # i-th smallest (0-based)
    t = M.fresh("ranked", elem(z3.Int("!probe")).sort() if is_z3(elem(z3.Int("!probe"))) else L.R)
    a = M.fresh("at", kind)
    M.assume(z3.And(a >= 0, a < N, L.zb(cnd(cond(a))), elem(a) == t))
    lo = count_if(N, lambda x: z3.And(L.zb(cnd(cond(x))), elem(x) < t), kind)
    hi = count_if(N, lambda x: z3.And(L.zb(cnd(cond(x))), elem(x) <= t), kind)
    hi2 = count_if(N, lambda x: z3.And(L.zb(cnd(cond(x))), elem(x) > t), kind)
    hi3 = count_if(N, lambda x: z3.And(L.zb(cnd(cond(x))), elem(x) >= t), kind)
    M.assume(z3.And(lo <= rank_small, rank_small < hi))
    M.assume(z3.And(hi2 <= total - 1 - rank_small, total - 1 - rank_small < hi3))
    eq = count_if(N, lambda x: z3.And(L.zb(cnd(cond(x))), elem(x) == t), kind)
    M.assume(z3.And(hi == lo + eq, hi3 == hi2 + eq))
    return t


def set_item(M, base, ix, v):
    o = M.deref(base)
    if isinstance(o, LSeq):
        i = norm_index(M, ix, o.n)
        i = z3.IntVal(i) if isinstance(i, int) else i
        M.oblige("index in range", z3.And(i >= 0, i < o.n))
        old = o.get
        if not is_num(v):
            raise Unsupported("non-numeric list item")
        v = num(v)
        M.write(base, LSeq(o.n, lambda x, old=old, i=i, v=v: ite(x == i, v, old(x)), o.kind))
        return
    if isinstance(o, LList):
        if isinstance(ix, int) and -len(o.items) <= ix < len(o.items):
            items = list(o.items)
            items[ix] = v
            M.write(base, LList(items))
            return
        raise Unsupported("list assignment")
    if isinstance(o, DItems):
        if isinstance(ix, (str, int)):
            M.write(base, DItems({**o.items, ix: v}))
            return
        if isinstance(ix, (TCom, LCom)) or isinstance(ix, tuple):
            e = to_bag_elem(M, ix)
            if e is not None and not o.items:
                M.write(base, Bag(lambda *t: same_terms(t, e[1], e[2]), e[0], "dict", z3.IntVal(1), canonical(e[0]), lambda *t: v))
                return
        if is_z3(ix) and not o.items:
            M.write(base, DMap(lambda x: x == ix, lambda x: v, "cand"))
            return
        raise Unsupported("dict assignment")
    if isinstance(o, DMap):
        i = z3.IntVal(ix) if isinstance(ix, int) else ix
        od, og = o.dom, o.get
        M.write(base, DMap(lambda x: z3.Or(L.zb(cnd(od(x))), x == i), lambda x: ite(x == i, v, og(x)), o.kind, o.N))
        return
    if isinstance(o, Bag) and o.typ == "dict":
        e = to_bag_elem(M, ix)
        old = o
        M.write(base, bag_add(M, o, e, v))
        return
    if isinstance(o, BagApp):
        e = to_bag_elem(M, ix)
        M.write(base, o.added(M, e, ("setitem", v)))
        return
    if isinstance(o, Opaque):
        return
    raise Unsupported(f"item assignment on {type(o).__name__}")


def ite(c, a, b):
    if is_num(a) and is_num(b):
        a, b = num(a), num(b)
        if not is_z3(a) and not is_z3(b):
            if a == b:
                return a
            if isinstance(a, int) and isinstance(b, int):
                a = z3.IntVal(a)
        if is_z3(a) and is_z3(b) and a.sort() != b.sort():
            a, b = L.tosort(a, L.R), L.tosort(b, L.R)
        c = z3.simplify(c) if is_z3(c) else L.zb(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        return z3.If(c, a, b)
    if is_boolish(a) and is_boolish(b) and not isinstance(a, F) and not isinstance(b, F):
        return z3.If(c, L.zb(a), L.zb(b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque()
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, TCom) and isinstance(b, TCom):
        return TCom(CS(arr=z3.If(c, a.cs.array(), b.cs.array())), a.sorted and b.sorted)
    if a is b:
        return a
    raise Unsupported(f"merging {type(a).__name__} and {type(b).__name__}")


def del_item(M, base, ix):
    o = M.deref(base)
    if isinstance(o, DMap):
        M.oblige("key exists", cnd(o.dom(ix)))
        od = o.dom
        M.write(base, DMap(lambda x: z3.And(L.zb(cnd(od(x))), x != ix), o.get, o.kind, o.N))
        return
    raise Unsupported("del")


def canonical(shape):
    """do equal contents imply equal Python values (so that sets and dicts identify them)?"""
    if shape[0] == "tcom":
        return shape[1]
    if shape[0] == "scom":
        return True
    if shape[0] == "tuple":
        return all(canonical(s) for s in shape[1])
    return False


class BagApp(H):
    """loop placeholder for a collection of committees: unknown previous content (tok), number of elements `size`,
    elements added in the current iteration"""

    def __init__(self, tok, size, typ, extra=(), shape=None):
        self.tok, self.size, self.typ, self.extra, self.shape = tok, size, typ, tuple(extra), shape

    def added(self, M, e, how=None):
        if e is None:
            raise Unsupported("element of a collection")
        if self.typ in ("set", "dict"):
            # the same symbol in every execution of this iteration
            names = self.tok.__dict__.setdefault("isnew", {})
            nm = names.setdefault(len(self.extra), f"isnew!{L.fuid()}")
            d = z3.Function(nm, *([i.sort() for i in M.idx] + [L.I]))(*M.idx) if M.idx else z3.Int(nm)
            M.assume(z3.And(d >= 0, d <= 1))
            size = self.size + d
        else:
            size = self.size + 1
        return BagApp(self.tok, size, self.typ, self.extra + ((e, how),), join_shape(self.shape, e[0]))


def bag_add(M, o, e, val=None):
    if e is None:
        raise Unsupported("element of a collection")
    shape, terms, kinds = e
    sh = join_shape(o.shape, shape)
    pred, oval = o.pred, o.val
    size = None
    if o.typ in ("set", "dict") and canonical(sh):
        if o.size is not None:
            size = M.fresh("size", "int")
            M.assume(Or_(And_(cnd(pred(*terms)), size == o.size), And_(Not_(cnd(pred(*terms))), size == o.size + 1)))
        nodup = o.nodup
    else:
        nodup = False
        if o.typ in ("set", "dict"):
            raise Unsupported("non-canonical elements in a set or as dict keys")
        size = o.size + 1 if o.size is not None else None
        nodup = o.nodup and M.prove(Not_(cnd(pred(*terms))))[0] == "proved"
    nv = None
    if o.typ == "dict":
        nv = lambda *t: val
    return Bag(lambda *t: Or_(cnd(pred(*t)), same_terms(t, terms, kinds)), sh, o.typ, size, nodup, nv)


def slice_end(e, n):
    """a slice bound of Python: negative bounds count from the end"""
    if isinstance(e, int):
        if e >= 0:
            return z3.IntVal(e)
        return z3.If(n + e > 0, n + e, z3.IntVal(0))
    if not z3.is_int(e):
        raise Unsupported("slice bound")
    return z3.If(e >= 0, e, z3.If(n + e > 0, n + e, z3.IntVal(0)))


def slice_(M, base, lo, hi, step):
    o = M.deref(base)
    if step is not None and not (step == -1 and lo is None and hi is None):
        raise Unsupported("slice step")
    if isinstance(o, str):
        return o[lo:hi:step]
    if isinstance(o, (Opaque, Sym)):
        return Opaque()
    if isinstance(o, (LList, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return M.new(LList(o.items[lo:hi:step])) if isinstance(o, LList) else o[lo:hi:step]
    if step is not None:
        raise Unsupported("slice step")
    if isinstance(o, Bag) and o.typ == "list" and lo is None:
        if isinstance(hi, OptInt):
            if M.branch(hi.isnone):
                return M.new(o)
            hi = hi.value
        if hi is None:
            return M.new(o)
        return bag_prefix(M, o, hi)
    if isinstance(o, LSeq):
        if lo is not None and hi is None:
            lo = slice_end(lo, o.n)
            d = o.n - lo
            return M.new(LSeq(z3.If(d > 0, d, 0), lambda i: o.get(i + lo), "pos"))
        if lo is None and hi is not None:
            hi = slice_end(hi, o.n)
            return M.new(LSeq(z3.If(num(hi) < o.n, num(hi), o.n), o.get, o.kind))
    if isinstance(o, LSorted):
        return M.new(LSortedSlice(o, lo, hi))
    cs = as_cs(M, base)
    if cs is not None and lo is None and hi is not None:
        # the first hi elements of a list of distinct candidates: some subset of this size
        arr = M.fresh("prefix", "com")
        total = cs.card()
        hi = slice_end(hi, total)
        r = CS(arr=arr)
        M.assume(All("cand", lambda c: z3.Implies(arr[c], cs.member(c))))
        M.assume(r.card() == z3.If(hi < total, hi, total))
        M.assume(z3.Implies(hi >= total, True))
        M.assume(Imp(hi >= total, All("cand", lambda c: arr[c] == cs.member(c))))
        srt = getattr(o, "sorted", isinstance(o, LFilt) and o.ordered)
        if srt:
            M.assume(All("cand", lambda c: All("cand", lambda d: z3.Implies(z3.And(arr[c], cs.member(d), d < c), arr[d]))))
        return M.new(LCom(r, srt))
    raise Unsupported(f"slice of {type(o).__name__}")


class LSortedSlice(H):
    def __init__(self, src, lo, hi):
        self.src, self.lo, self.hi = src, lo, hi


def bag_prefix(M, o, hi):
    hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    M.oblige("slice end is positive", hi >= 1)
    kinds = bag_kinds(o.shape)
    P = z3.Function(f"prefix!{L.uid()}", *([L.SORT[kd] for kd in kinds] + [L.B]))
    if M.idx:
        raise Unsupported("slice of a collection inside a loop")
    total = length(M, M.new(o))
    size = z3.If(hi < total, hi, total)
    M.assume(quant(All, kinds, lambda *t: Imp(P(*t), cnd(o.pred(*t)))))
    M.assume(Imp(total <= hi, quant(All, kinds, lambda *t: Imp(cnd(o.pred(*t)), P(*t)))))
    r = Bag(lambda *t: P(*t), o.shape, "list", size, o.nodup)
    M.assume(Iff(size > 0, bag_nonempty(r)))
    return M.new(r)


# ------------------------------------------------------------------------------------------ attributes
def attr(M, v, name):
    if isinstance(v, ModuleV):
        if v.name.startswith("!"):
            return BuiltinV(f"{v.name[1:]}.{name}")
        return M.global_(v.name, name)
    if isinstance(v, ProfileV):
        if name == "num_cand":
            return L.m
        if name == "candidates":
            return RangeV(0, L.m)
        if name == "cand_names":
            return Opaque("names")
        return BoundV(v, name)
    if isinstance(v, VoterV):
        if name == "approved":
            return ApprovedV(v.i)
        if name == "weight":
            return L.w(v.i)
        raise Unsupported(f"attribute {name} of a voter")
    if isinstance(v, BuiltinV):
        return BuiltinV(f"{v.name}.{name}")
    o = M.deref(v)
    if isinstance(o, OObj):
        if name in o.attrs:
            return o.attrs[name]
        f = M.method_of(o.cls, name)
        if f is not None:
            for d in f.node.decorator_list:
                if isinstance(d, ast.Name) and d.id == "property":
                    return M.inline(f, [v], {})
            return BoundV(v, name)
        return M.class_attr(o.cls, name)
    if isinstance(o, Opaque):
        if o.what == "super":
            return BoundV(o, name)
        return Opaque(o.what)
    return BoundV(v, name)


# ------------------------------------------------------------------------------------------ functions
def iter_of(M, v):
    o = M.deref(v)
    if isinstance(o, Iter):
        return o
    if isinstance(o, RangeV):
        if isinstance(o.lo, int) and isinstance(o.hi, int) and o.hi - o.lo <= 60:
            return Iter(concrete=list(range(o.lo, o.hi, o.step)))
        if o.step != 1:
            raise Unsupported("range step")
        lo, hi = o.lo, o.hi
        if isinstance(lo, int) and lo == 0:
            if isinstance(hi, int):
                hi = z3.IntVal(hi)
            return Iter(hi, lambda j: True, lambda j: j, kind_of_len(hi), own=True)
        N = simp(num(hi) - lo)
        kd = "pos"
        if kind_of_len(hi) == "cand" and M.prove(num(lo) >= 0)[0] == "proved":
            # iterate over candidates lo..m-1, indexed by the candidate itself
            return Iter(hi, lambda j: j >= lo, lambda j: j, "cand", own=True)
        return Iter(N, lambda j: True, lambda j: lo + j, kd)
    if isinstance(o, ProfileV):
        return Iter(L.n, lambda j: True, lambda j: VoterV(j), "voter")
    if isinstance(o, (LList, SItems)):
        return Iter(concrete=list(o.items))
    if isinstance(o, DItems):
        return Iter(concrete=list(o.items))
    if isinstance(o, tuple):
        return Iter(concrete=list(o))
    if isinstance(o, (ApprovedV, SCom, TCom, LCom)):
        cs = o.cs
        return Iter(L.m, lambda j: cs.member(j), lambda j: j, "cand", ordered=getattr(o, "sorted", False), own=True, anon=cs.card)
    if isinstance(o, LSorted):
        o = sorted_seq(M, o)
    if isinstance(o, LSeq):
        return Iter(o.n, lambda j: True, o.get, o.kind)
    if isinstance(o, LFilt):
        return Iter(o.N, o.cond, o.elem, o.kind, ordered=o.ordered, own=o.own)
    if isinstance(o, DMap):
        return Iter(o.N if o.N is not None else L.m, o.dom, lambda j: j, o.kind, ordered=False, own=True)
    if isinstance(o, CombV):
        cs, size = o.cs, o.size

        def dom(C):
            return And_(All("cand", lambda c: z3.Implies(L.read(C, c), cs.member(c))), L.size_of(C) == size)
        r = Iter(dom=dom, shape=("tcom", o.sorted))
        r.nodup, r.size = True, None
        return r
    if isinstance(o, Bag):
        if o.shape is None:
            return Iter(concrete=[])
        r = Iter(dom=o.pred, shape=o.shape)
        r.nodup, r.size = o.nodup or o.typ in ("set", "dict"), o.size
        return r
    if isinstance(o, OObj):
        f = M.method_of(o.cls, "__iter__")
        if f:
            return iter_of(M, M.inline(f, [v], {}))
    raise Unsupported(f"iteration over {type(o).__name__}")


def numeric_parts(M, v):
    """(N, cond, elem, kind) of an iterable of numbers with symbolic length"""
    it = iter_of(M, v)
    if it.dom is not None:
        raise Unsupported("numeric iterable")
    if it.concrete is not None:
        return None
    return it.N, it.cond, it.elem, it.kind


def extremum(M, v, ismax, default=None, hasdefault=False):
    it = iter_of(M, v)
    if it.concrete is not None:
        items = it.concrete
        if not items:
            if hasdefault:
                return default
            raise RaiseEx("ValueError")
        r = items[0]
        for x in items[1:]:
            r = ite(L.zb((num(x) > r) if ismax else (num(x) < r)), x, r)
        return r
    N, cond, elem, kind = it.N, it.cond, it.elem, it.kind
    nonempty = Ex(kind, lambda i: And_(z3.And(i >= 0, i < N), cnd(cond(i))))
    if hasdefault:
        if not M.branch(nonempty):
            return default
    else:
        M.oblige("min/max of a non-empty collection", nonempty)
    p = elem(z3.Int("!probe"))
    if not is_num(p):
        raise Unsupported("min/max of non-numbers")
    sort = p.sort() if is_z3(p) else L.R
    cp = cnd(cond(z3.Int("!probe")))
    if isinstance(cp, bool) or is_z3(cp):
        key = [kind, N, L.Lam(lambda i: L.zb(cnd(cond(i))), L.B), L.Lam(lambda i: L.tosort(num(elem(i)), sort), sort)]
        r, known = M.uniq("max" if ismax else "min", sort, key)
        if known:
            return r
        a, _ = M.uniq("argmax" if ismax else "argmin", kind, key)
    else:
        r = M.fresh("max" if ismax else "min", sort)
        a = M.fresh("arg", kind)
    M.assume(All(kind, lambda i: Imp(cnd(cond(i)), (elem(i) <= r) if ismax else (elem(i) >= r)), guard=lambda i: z3.And(i >= 0, i < N)))
    M.assume(z3.And(a >= 0, a < N))
    M.assume(cnd(cond(a)))
    M.assume(r == elem(a))
    return r


def summ(M, v):
    o = M.deref(v)
    if isinstance(o, LConcat):
        r = 0
        for p in o.parts:
            r = r + summ(M, p)
        return r
    if isinstance(o, LSortedSlice):
        from engine import lemmas
        return lemmas.top_sum(M, o)
    it = iter_of(M, v)
    if it.concrete is not None:
        r = 0
        for x in it.concrete:
            if is_boolish(x):
                x = int(x) if isinstance(x, bool) else z3.If(x, 1, 0)
            r = binop(M, ast.Add(), r, x)
        return r
    if it.dom is not None:
        raise Unsupported("sum over a symbolic collection of committees")
    probe = it.elem(z3.Int("!probe"))
    if is_boolish(probe):
        old = it.elem
        it = Iter(it.N, it.cond, lambda j: z3.If(L.zb(old(j)), z3.IntVal(1), z3.IntVal(0)), it.kind)
        probe = z3.IntVal(0)
    if not is_num(probe):
        raise Unsupported("sum of non-numbers")
    sort = L.I if isinstance(probe, int) or (is_z3(probe) and probe.sort() == L.I) else L.R

    def body(j):
        e = L.tosort(num(it.elem(j)), sort)
        c = it.cond(j)
        if isinstance(c, F):
            raise Unsupported("quantified filter in a sum")
        c = L.zb(c)
        return e if z3.is_true(c) else z3.If(c, e, L.tosort(0, sort))
    return L.Sum(it.N, body, it.kind, sort)


def quantified(M, v, isall):
    it = iter_of(M, v)
    if it.concrete is not None:
        rs = [truth(M, x) for x in it.concrete]
        if all(isinstance(r, bool) for r in rs):
            return all(rs) if isall else any(rs)
        return (And_ if isall else Or_)(*rs)
    if it.dom is not None:
        kinds = bag_kinds(it.shape)

        def f(*t):
            e = it.elem(*t) if it.elem else from_bag_elem(M, it.shape, t)
            b = truth(M, e)
            c = cnd(it.dom(*t))
            return Imp(c, b) if isall else And_(c, b)
        return quant(All if isall else Ex, kinds, f)
    g = lambda i: z3.And(i >= 0, i < it.N)
    if isall:
        return All(it.kind, lambda i: Imp(cnd(it.cond(i)), truth(M, it.elem(i))), guard=g)
    return Ex(it.kind, lambda i: And_(cnd(it.cond(i)), truth(M, it.elem(i))), guard=g)


def listify(M, v, typ):
    """list(v), tuple(v), set(v)"""
    o = M.deref(v)
    if isinstance(o, Iter):
        o = iter_to_list(M, o)
    if typ == "set":
        if isinstance(o, (LList, tuple, SItems)):
            items = o.items if not isinstance(o, tuple) else o
            if not items:
                return M.new(SItems(()))
            if all(is_num(x) for x in items):
                return M.new(SItems(items))
            b = to_bag(M, o if not isinstance(o, tuple) else LList(o))
            if b is not None:
                if not canonical(b.shape):
                    raise Unsupported("non-canonical elements in a set")
                return M.new(Bag(b.pred, b.shape, "set", None if len(items) > 1 else z3.IntVal(1), True))
            raise Unsupported("set of these elements")
        cs = as_cs(M, o)
        if cs is not None:
            return M.new(SCom(cs))
        b = to_bag(M, o)
        if b is not None and canonical(b.shape):
            return M.new(Bag(b.pred, b.shape, "set", b.size if b.nodup else None, True))
        raise Unsupported(f"set of {type(o).__name__}")
    tup = typ == "tuple"
    if isinstance(o, tuple):
        return o if tup else M.new(LList(o))
    if isinstance(o, (LList, SItems)):
        if isinstance(o, SItems) and len(o.items) > 1:
            cs = need_cs(M, v)
            return TCom(cs, False) if tup else M.new(LCom(cs, False))
        return tuple(o.items) if tup else M.new(LList(o.items))
    if isinstance(o, RangeV):
        cs = as_cs(M, o)
        return TCom(cs, True) if tup else M.new(LCom(cs, True) if is_z3(o.hi) and not isinstance(o.lo, int) or kind_of_len(o.hi) == "cand"
                                               else LSeq(length(M, o), lambda i: o.lo + i, kind_of_len(o.hi)))
    if isinstance(o, (ApprovedV, SCom)):
        return TCom(o.cs, False) if tup else M.new(LCom(o.cs, False))
    if isinstance(o, (TCom, LCom)):
        return TCom(o.cs, o.sorted) if tup else M.new(LCom(o.cs, o.sorted))
    if isinstance(o, DMap):
        o = LFilt(o.N if o.N is not None else L.m, o.dom, lambda j: j, o.kind, ordered=False, own=True)
    if isinstance(o, LFilt) and o.own and tup:
        return TCom(need_cs(M, o), o.ordered)
    if isinstance(o, (LSeq, LFilt)):
        return o if tup else M.new(o)
    if isinstance(o, Bag):
        if tup:
            raise Unsupported("tuple of committees")
        return M.new(Bag(o.pred, o.shape, "list", o.size, o.nodup or o.typ in ("set", "dict")))
    if isinstance(o, CombV):
        it = iter_of(M, o)
        return M.new(Bag(it.dom, it.shape, "list", None, True))
    if isinstance(o, Opaque):
        return Opaque(o.what)
    if isinstance(o, LSorted):
        return o if tup else M.new(o)
    raise Unsupported(f"{typ} of {type(o).__name__}")


def iter_to_list(M, it):
    if it.concrete is not None:
        return LList(it.concrete)
    if it.dom is not None:
        if it.elem is None:
            return Bag(it.dom, it.shape, "list", getattr(it, "size", None), getattr(it, "nodup", False))
        raise Unsupported("mapped collection of committees")
    c = it.cond(z3.Int("!probe"))
    if c is True:
        if not it.own:
            e = it.elem(z3.Int("!probe"))
            if is_num(e):
                return LSeq(it.N, it.elem, it.kind)
    return LFilt(it.N, it.cond, it.elem, it.kind, it.ordered, it.own)


def sort_(M, v, kw):
    o = M.deref(v)
    rev = kw.get("reverse", False)
    if isinstance(o, Iter):
        o = iter_to_list(M, o)
    key = kw.get("key")
    if key is not None:
        if not (isinstance(key, BuiltinV) and key.name == "str") or rev is not False:
            raise Unsupported("sort key")
        if isinstance(o, (LList, SItems, tuple)) and len(o if isinstance(o, tuple) else o.items) <= 1:
            return M.new(LList(o if isinstance(o, tuple) else o.items))
        b = o if isinstance(o, Bag) else to_bag(M, o)
        if b is None:
            raise Unsupported("sort of these elements")
        r = Bag(b.pred, b.shape, "list", b.size, b.nodup or b.typ in ("set", "dict"))
        r.sortkey = "str"
        return M.new(r)
    if isinstance(o, (LCom, SCom, TCom, ApprovedV)) or isinstance(o, LFilt) and o.own or isinstance(o, (RangeV, DMap, SItems)) \
            or isinstance(o, (LList, tuple)) and as_cs(M, o) is not None:
        cs = need_cs(M, o)
        return M.new(LCom(cs, not rev))
    if isinstance(o, (LSeq, LFilt)):
        return M.new(LSorted(o, rev))
    raise Unsupported(f"sorted of {type(o).__name__}")


def candidate_set(M, args, kw):
    """contract of CandidateSet(candidates): a set; rejects duplicates (checked in C20)"""
    if not args and "candidates" not in kw:
        return M.new(SCom(CS(arr=L.EMPTY, size=z3.IntVal(0)), "CandidateSet"))
    src = args[0] if args else kw["candidates"]
    cs = as_cs(M, src)
    if cs is None:
        raise Unsupported("CandidateSet of unknown collection")
    return M.new(SCom(cs, "CandidateSet"))


def builtin(M, name, args, kw, node):
    nm = name.split(".")[-1]
    if name in ("len",):
        return length(M, args[0])
    if name == "range":
        a = [x.value if isinstance(x, OptInt) else x for x in args]
        if len(a) == 1:
            return RangeV(0, a[0])
        return RangeV(*a)
    if name == "sum":
        r = summ(M, args[0])
        if len(args) > 1:
            r = binop(M, ast.Add(), args[1], r)
        return r
    if name in ("min", "max"):
        if "key" in kw:
            raise Unsupported("min/max with key")
        if len(args) > 1:
            r = args[0]
            for x in args[1:]:
                if isinstance(x, Opaque) or isinstance(r, Opaque):
                    return Opaque()
                c = (num(x) > r) if name == "max" else (num(x) < r)
                r = ite(L.zb(c), x, r)
            return r
        if isinstance(args[0], Opaque):
            return Opaque()
        return extremum(M, args[0], name == "max", kw.get("default"), "default" in kw)
    if name == "sorted":
        return sort_(M, args[0], kw)
    if name in ("list", "tuple", "set", "frozenset"):
        if not args:
            return () if name == "tuple" else M.new(LList(()) if name == "list" else SItems(()))
        return listify(M, args[0], "set" if name == "frozenset" else name)
    if name == "dict":
        if not args and not kw:
            return M.new(DItems({}))
        o = M.deref(args[0]) if args else DItems({})
        if isinstance(o, DMap):
            return M.new(DMap(o.dom, o.get, o.kind, o.N))
        if isinstance(o, DItems):
            return M.new(DItems({**o.items, **kw}))
        if isinstance(o, Bag) and o.typ == "dict":
            return M.new(o)
        raise Unsupported("dict()")
    if name == "enumerate":
        it = iter_of(M, args[0])
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        if it.concrete is not None:
            return Iter(concrete=[(start + i, x) for i, x in enumerate(it.concrete)])
        if it.dom is not None or it.cond(z3.Int("!probe")) is not True:
            raise Unsupported("enumerate of a filtered collection")
        return Iter(it.N, it.cond, lambda j: (j if start == 0 else j + start, it.elem(j)), it.kind, it.ordered)
    if name == "zip":
        its = [iter_of(M, a) for a in args]
        if all(i.concrete is not None for i in its):
            return Iter(concrete=list(zip(*[i.concrete for i in its])))
        if any(i.concrete is not None or i.dom is not None or i.cond(z3.Int("!probe")) is not True for i in its):
            raise Unsupported("zip")
        N = its[0].N
        for i in its[1:]:
            if not i.N.eq(N):
                N = z3.If(i.N < N, i.N, N)
        kd = its[0].kind if all(i.kind == its[0].kind for i in its) else "pos"
        return Iter(N, lambda j: True, lambda j: tuple(i.elem(j) for i in its), kd)
    if name == "reversed":
        it = iter_of(M, args[0])
        if it.concrete is not None:
            return Iter(concrete=list(reversed(it.concrete)))
        if it.dom is not None:
            return it
        if it.cond(z3.Int("!probe")) is True and it.kind == "pos" and not it.own:
            return Iter(it.N, it.cond, lambda j: it.elem(it.N - 1 - j), it.kind, True)
        return Iter(it.N, it.cond, it.elem, it.kind, ordered=False, own=it.own)
    if name in ("all", "any"):
        return quantified(M, args[0], name == "all")
    if name == "isinstance":
        return isinstance_(M, args[0], args[1])
    if name in ("str", "repr"):
        if args and isinstance(args[0], (str, int)) and not isinstance(args[0], bool):
            return str(args[0])
        return Opaque("str")
    if name == "int":
        if isinstance(args[0], str):
            return int(args[0])
        if is_z3(args[0]) and args[0].sort() == L.I:
            return args[0]
        if is_z3(args[0]):
            M.oblige("int() of a non-negative number", args[0] >= 0)
            return z3.ToInt(args[0])
        if isinstance(args[0], (Opaque, Sym)):
            return Opaque()
        return int(args[0])
    if name == "float":
        return args[0]
    if name == "bool":
        return truth(M, args[0])
    if name == "abs":
        return z3.If(args[0] >= 0, args[0], -args[0]) if is_z3(args[0]) else abs(args[0])
    if name == "print":
        return None
    if name == "iter":
        return args[0]
    if name == "type":
        return Opaque("type")
    if name in ("fractions.Fraction", "gmpy2.mpq"):
        if len(args) == 1:
            if isinstance(args[0], (Opaque, str, Sym)):
                return Opaque("fraction")
            return L.tosort(num(args[0]), L.R)
        return divide(M, args[0], args[1])
    if name == "math.ceil":
        x = L.tosort(num(args[0]), L.R)
        return -z3.ToInt(-x)
    if name == "math.floor":
        return z3.ToInt(L.tosort(num(args[0]), L.R))
    if name == "math.isclose":
        raise Unsupported("floating-point comparison")
    if name == "itertools.combinations":
        cs = need_cs(M, args[0])
        o = M.deref(args[0])
        size = args[1]
        size = z3.IntVal(size) if isinstance(size, int) else size
        M.oblige("size of combinations is not negative", size >= 0)
        srt = isinstance(o, RangeV) or getattr(o, "sorted", False) or isinstance(o, LFilt) and o.ordered
        return CombV(cs, size, srt)
    if name == "itertools.chain.from_iterable":
        it = iter_of(M, args[0])
        if it.concrete is None and it.dom is None and it.cond(z3.Int("!probe")) is True:
            p = z3.Int("!probe")
            e = it.elem(p)
            if isinstance(e, CombV) and is_z3(e.size) and e.size.eq(p):
                cs, N = e.cs, it.N
                if cs.arr is None or not L.mentions(cs.arr, [p]):
                    # all subsets with fewer than N elements (of different sizes, hence no repetition)
                    r = Iter(dom=lambda C: And_(All("cand", lambda c: z3.Implies(L.read(C, c), cs.member(c))), L.size_of(C) < N), shape=("tcom", e.sorted))
                    r.nodup, r.size = True, None
                    return r
        raise Unsupported("chain of iterables")
    if name == "itertools.islice" and len(args) == 2:
        l = listify(M, args[0], "list")
        hi = args[1]
        return slice_(M, l, None, hi, None)
    if name == "functools.partial":
        return PartialV(args[0], tuple(args[1:]), kw)
    if name == "callable":
        return isinstance(args[0], (FuncV, PartialV, SymFn, BoundV, BuiltinV))
    if name.startswith("warnings."):
        return None
    raise Unsupported(f"function {name}")


def isinstance_(M, v, c):
    if isinstance(c, tuple):
        rs = [isinstance_(M, v, x) for x in c]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return rs[0] if rs else False
    nm = c.name if isinstance(c, (BuiltinV, ClassV)) else None
    if isinstance(v, OptInt):
        if nm == "int":
            return z3.Not(v.isnone)
        return False
    o = M.deref(v)
    if isinstance(o, Sym):
        return o.typ == nm
    if isinstance(o, Opaque):
        return M.fresh("isinstance", L.B)
    py = {"int": is_num(o) and (isinstance(o, int) or is_z3(o) and o.sort() == L.I) or isinstance(o, bool),
          "str": isinstance(o, str), "bool": is_boolish(o), "float": isinstance(o, float),
          "list": isinstance(o, (LList, LSeq, LFilt, LCom)) or isinstance(o, Bag) and o.typ == "list",
          "tuple": isinstance(o, (tuple, TCom)), "dict": isinstance(o, (DMap, DItems)),
          "set": isinstance(o, (SCom, SItems, ApprovedV)) or isinstance(o, Bag) and o.typ == "set",
          "CandidateSet": isinstance(o, SCom) and o.cls == "CandidateSet" or isinstance(o, ApprovedV),
          "Voter": isinstance(o, VoterV) or isinstance(o, OObj) and o.cls.name == "Voter",
          "Profile": isinstance(o, ProfileV) or isinstance(o, OObj) and o.cls.name == "Profile",
          "numpy.integer": False}
    if nm in py:
        return bool(py[nm])
    raise Unsupported(f"isinstance {nm}")


def method(M, obj, name, args, kw, node):
    o = M.deref(obj)
    # methods of repository classes
    if isinstance(o, OObj):
        f = M.method_of(o.cls, name)
        if f is None:
            raise Unsupported(f"method {name} of {o.cls.name}")
        con = M.S.contracts.get((o.cls.module, f"{o.cls.name}.{name}"))
        if con is not None:
            vals = M.bind(f.node, [obj] + list(args), kw, o.cls.module)
            M.S.called.add(f"{o.cls.module}.{o.cls.name}.{name}")
            return con(M, vals)
        return M.inline(f, [obj] + list(args), kw)
    if isinstance(o, ProfileV):
        return profile_method(M, name, args)
    if isinstance(o, (str, Sym)):
        if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
            if name in ("startswith", "endswith", "lower", "upper", "strip", "split", "replace"):
                return getattr(o, name)(*args)
            if name == "join":
                pass
        if isinstance(o, Sym):
            return M.fresh("symstr", L.B) if name in ("startswith", "endswith") else Opaque("str")
        return Opaque("str")
    if isinstance(o, Opaque):
        if name in ("startswith", "endswith"):
            return M.fresh("unknown", L.B)
        if name in ("append", "add", "extend", "insert", "update", "remove", "discard", "pop", "clear", "sort", "reverse", "setdefault"):
            # the (only) object changed has unknown content already
            if not isinstance(obj, Ref):
                raise Unsupported(f"method {name} of an unknown object")
            return None if name in ("append", "add", "extend", "insert") else Opaque(o.what)
        return Opaque(o.what)
    # numbers
    if is_num(o):
        raise Unsupported(f"method {name} of a number")
    # lists
    if isinstance(o, BagApp):
        if name in ("append", "add"):
            M.write(obj, o.added(M, to_bag_elem(M, args[0])))
            return None
        raise Unsupported(f"{name} on a collection in a loop")
    if isinstance(o, LApp):
        if name == "append":
            M.write(obj, LApp(o.tok, o.extra + (args[0],)))
            return None
        raise Unsupported(f"{name} on a list in a loop")
    if name == "append":
        if isinstance(o, LList):
            M.write(obj, LList(o.items + (args[0],)))
            return None
        if isinstance(o, LCom):
            x = args[0]
            here = id(M.S.stmt)
            if not is_z3(x) and not isinstance(x, int) or here in M.S.untyped:
                M.write(obj, Opaque())          # a list that may have repetitions: not modelled
                return None
            if M.prove(z3.Not(L.zb(o.cs.member(x))), timeout=3000)[0] != "proved" and not M.S.optimistic():
                M.S.retry(here)
            in_range_cand(M, x)
            M.write(obj, LCom(set_add(M, o.cs, x), False))
            return None
        if isinstance(o, Bag):
            M.write(obj, bag_add(M, o, to_bag_elem(M, args[0])))
            return None
        if isinstance(o, Opaque):
            return None
    if name == "copy" and isinstance(o, (LSeq, LList, LCom, DMap, DItems, SCom, SItems, Bag, LFilt)):
        return M.new(o)
    if name == "pop" and isinstance(o, Bag) and o.typ in ("list", "set"):
        M.oblige("pop from a non-empty collection", bag_nonempty(o))
        kinds = bag_kinds(o.shape)
        ts = [M.fresh("popped", kd) for kd in kinds]
        M.assume(cnd(o.pred(*ts)))
        if M.idx:
            raise Unsupported("pop inside a loop over elements")
        P = z3.Function(f"rest!{L.uid()}", *([t.sort() for t in ts] + [L.B]))
        M.assume(quant(All, kinds, lambda *t: Imp(P(*t), cnd(o.pred(*t)))))
        M.assume(quant(All, kinds, lambda *t: Imp(cnd(o.pred(*t)), Or_(P(*t), same_terms(t, ts, kinds)))))
        size = None
        M.write(obj, Bag(lambda *t: P(*t), o.shape, o.typ, size, o.nodup))
        return from_bag_elem(M, o.shape, ts)
    if name == "pop" and isinstance(o, LList) and (not args or isinstance(args[0], int)):
        if not o.items:
            raise RaiseEx("IndexError")
        items = list(o.items)
        x = items.pop(*args)
        M.write(obj, LList(items))
        return x
    if name == "insert" and isinstance(o, (Bag, BagApp, LApp)):
        return method(M, obj, "append", [args[1]], kw, node)
    if name == "insert" and isinstance(o, LList) and isinstance(args[0], int):
        items = list(o.items)
        items.insert(args[0], args[1])
        M.write(obj, LList(items))
        return None
    if name == "extend":
        r = concat(M, obj, listify(M, args[0], "list"))
        M.write(obj, M.deref(r))
        return None
    # dicts
    if isinstance(o, DItems):
        if name == "keys":
            return M.new(LList(tuple(o.items)))
        if name == "values":
            return M.new(LList(tuple(o.items.values())))
        if name == "items":
            return M.new(LList(tuple(o.items.items())))
        if name == "get":
            if isinstance(args[0], (str, int)):
                return o.items.get(args[0], args[1] if len(args) > 1 else None)
    if isinstance(o, DMap):
        N = o.N if o.N is not None else L.m
        if name == "keys":
            return LFilt(N, o.dom, lambda j: j, o.kind, ordered=False, own=True)
        if name == "values":
            return LFilt(N, o.dom, o.get, o.kind, ordered=False)
        if name == "items":
            return LFilt(N, o.dom, lambda j: (j, o.get(j)), o.kind, ordered=False)
        if name == "get":
            x = args[0]
            d = args[1] if len(args) > 1 else None
            if d is not None and is_z3(x):
                return ite(L.zb(cnd(o.dom(x))), o.get(x), d)
    if isinstance(o, Bag) and o.typ == "dict":
        if name == "keys":
            return Bag(o.pred, o.shape, "set", o.size, True)
        if name == "items":
            return Iter(dom=o.pred, shape=o.shape, elem=lambda *t: (from_bag_elem(M, o.shape, t), o.val(*t)))
    # sets of candidates
    if isinstance(o, (SItems, SCom)) and name in ("add", "remove", "discard", "update", "difference_update", "intersection_update"):
        if name in ("add", "update") and isinstance(o, SItems) and not o.items:
            # set of committees?
            e = None
            if name == "add" and not is_num(args[0]):
                e = to_bag_elem(M, args[0])
                if e is None or not canonical(e[0]):
                    raise Unsupported("set element")
                M.write(obj, Bag(lambda *t: same_terms(t, e[1], e[2]), e[0], "set", z3.IntVal(1), True))
                return None
            if name == "update":
                cs = as_cs(M, args[0])
                if cs is None:
                    b = to_bag(M, args[0])
                    if b is not None and b.shape and canonical(b.shape):
                        M.write(obj, Bag(b.pred, b.shape, "set", None, True))
                        return None
        cs = need_cs(M, obj)
        cls = o.cls if isinstance(o, SCom) else "set"
        if name == "add":
            in_range_cand(M, args[0])
            M.write(obj, SCom(set_add(M, cs, args[0]), cls))
        elif name == "remove":
            M.oblige("removed element is contained", L.zb(cs.member(args[0])))
            M.write(obj, SCom(set_remove(M, cs, args[0]), cls))
        elif name == "discard":
            M.write(obj, SCom(set_remove(M, cs, args[0]), cls))
        else:
            c2 = need_cs(M, args[0])
            r = {"update": union, "difference_update": minus, "intersection_update": inter}[name](cs, c2)
            M.write(obj, SCom(r, cls))
        return None
    if isinstance(o, Bag) and o.typ == "set":
        if name == "add":
            M.write(obj, bag_add(M, o, to_bag_elem(M, args[0])))
            return None
        if name == "update":
            b = to_bag(M, args[0])
            if b is not None and (b.shape is None or canonical(b.shape)):
                M.write(obj, Bag(lambda *t: Or_(cnd(o.pred(*t)), cnd(b.pred(*t))), join_shape(o.shape, b.shape), "set", None, True))
                return None
    if name in ("intersection", "union", "difference", "issubset", "issuperset", "isdisjoint", "symmetric_difference"):
        c1, c2 = as_cs(M, obj), (as_cs(M, args[0]) if args else None)
        if c1 is not None and c2 is not None:
            if name == "issubset":
                return All("cand", lambda c: z3.Implies(L.zb(c1.member(c)), L.zb(c2.member(c))))
            if name == "issuperset":
                return All("cand", lambda c: z3.Implies(L.zb(c2.member(c)), L.zb(c1.member(c))))
            if name == "isdisjoint":
                return All("cand", lambda c: z3.Not(z3.And(c1.member(c), c2.member(c))))
            r = {"intersection": inter, "union": union, "difference": minus,
                 "symmetric_difference": lambda a, b: CS(lambda c: a.member(c) != b.member(c))}[name](c1, c2)
            return M.new(SCom(r))
    if name == "index" and isinstance(o, LSeq):
        M.oblige("index() of a contained element", Ex(o.kind, lambda i: z3.And(i >= 0, i < o.n, o.get(i) == args[0])))
        i = M.fresh("index", o.kind)
        M.assume(z3.And(i >= 0, i < o.n, o.get(i) == args[0]))
        M.assume(All(o.kind, lambda x: o.get(x) != args[0], guard=lambda x: z3.And(x >= 0, x < i)))
        return i
    if name == "sort" and isinstance(o, (LCom, LList, LFilt, LSeq)) and not args:
        r = sort_(M, obj, kw)
        M.write(obj, M.deref(r))
        return None
    if name == "count" and isinstance(o, LSeq):
        return count_if(o.n, lambda i: o.get(i) == args[0], o.kind)
    raise Unsupported(f"method {name} of {type(o).__name__}")


def profile_method(M, name, args):
    """contracts of the profile's queries (proved against preferences.py in C20)"""
    M.S.called.add(f"preferences.Profile.{name}")
    if name == "total_weight":
        return L.Sum(L.n, lambda v: L.w(v), "voter", L.R)
    if name == "has_unit_weights":
        return All("voter", lambda v: L.w(v) == 1)
    if name == "approved_candidates":
        return M.new(SCom(CS(lambda c: approved_by_some(c))))
    if name == "is_party_list":
        return M.fresh("partylist", L.B)
    if name in ("str_compact", "__str__"):
        return Opaque("str")
    raise Unsupported(f"profile method {name}")


def approved_by_some(c):
    cnt = L.Sum(L.n, lambda v: z3.If(L.A(v)[c], z3.IntVal(1), z3.IntVal(0)), "voter", L.I)
    return cnt > 0
