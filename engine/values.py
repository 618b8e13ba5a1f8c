"""Symbolic values of the Python subset."""
import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Imp, Not_, Or_, is_z3


class Unsupported(Exception):
    """the code uses something outside the modelled subset (the function is then undecided, not violated)"""


class Poison:
    def __repr__(self):
        return "POISON"


POISON = Poison()


class Opaque:
    """a value about which nothing is known and nothing may be asked (strings for output, detailed info, ...)"""

    def __init__(self, what="opaque"):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"


class Sym:
    """an opaque symbolic constant that can be compared for identity only (e.g. a score function id)"""

    def __init__(self, name, typ="str"):
        self.name, self.typ = name, typ

    def __repr__(self):
        return f"<{self.typ} {self.name}>"


class Ref:
    def __init__(self, rid):
        self.rid = rid

    def __repr__(self):
        return f"ref{self.rid}"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.rid == self.rid

    def __hash__(self):
        return self.rid


class FuncV:
    def __init__(self, module, node, frame, name):
        self.module, self.node, self.frame, self.name = module, node, frame, name


class BoundV:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PartialV:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class BuiltinV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class ModuleV:
    def __init__(self, name):
        self.name = name


class ClassV:
    def __init__(self, module, node, name, bases=()):
        self.module, self.node, self.name, self.bases = module, node, name, bases


class ExcV:
    def __init__(self, name, bases=()):
        self.name, self.bases = name, bases


class SymFn:
    """symbolic numeric function of one integer (e.g. a marginal score function)"""

    def __init__(self, fn):
        self.fn = fn


class ProfileV:
    """the profile under consideration (read-only)"""


class VoterV:
    def __init__(self, i):
        self.i = i


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class CombV:
    """itertools.combinations of a collection of candidates: every subset of the given size exactly once"""

    def __init__(self, cs, size, is_sorted):
        self.cs, self.size, self.sorted = cs, size, is_sorted


# ---- candidate sets --------------------------------------------------------------------------
ORIGIN = {}       # arrays made as a union of two others


def preimage(x, t):
    """x = K + t (a union): function mapping a set q to q - K, which is t for q = x if K and t are disjoint; or None"""
    o = ORIGIN.get(x.get_id())
    if o is None or not o[0].eq(x):
        return None
    for K, u in ((o[1], o[2]), (o[2], o[1])):
        if u.eq(t) and not L.mentions(K, [t]):
            return lambda q: L.Lam(lambda c: z3.And(L.read(q, c), z3.Not(L.read(K, c))), L.B)
    return None


class CS:
    """content of a duplicate-free collection of candidates: member(c) -> Bool"""

    def __init__(self, member=None, arr=None, size=None):
        self.arr, self._size = arr, size
        self.member = member if member is not None else (lambda c, arr=arr: L.read(arr, c))

    def array(self):
        if self.arr is None:
            self.arr = L.Lam(lambda c: L.zb(self.member(c)), L.B)
            if getattr(self, "union_of", None):
                a, b = self.union_of
                ORIGIN[self.arr.get_id()] = (self.arr, a.array(), b.array())
        return self.arr

    def card(self):
        return self._size if self._size is not None else L.size_of(self.arr) if self.arr is not None else L.Card(self.member)

    def with_size(self, s):
        return CS(self.member, self.arr, s)


class TCom:
    """tuple of distinct candidates; `sorted`: in increasing order (canonical)"""

    def __init__(self, cs, is_sorted=False):
        self.cs, self.sorted = cs, is_sorted


class ApprovedV:
    """approval set of a voter (read-only set)"""

    def __init__(self, i):
        self.i = i
        self.cs = CS(arr=L.A(i))


# ---- heap objects (immutable descriptions; the heap maps references to them) ------------------
class H:
    pass


class LList(H):
    """list with statically known length"""

    def __init__(self, items):
        self.items = tuple(items)


class LSeq(H):
    """list of length n with items get(i)"""

    def __init__(self, n, get, kind="pos"):
        self.n, self.get, self.kind = n, get, kind


class LFilt(H):
    """the items elem(i) for i in [0,N) with cond(i), in this order (unordered: in some order)"""

    def __init__(self, N, cond, elem, kind="pos", ordered=True, own=False):
        self.N, self.cond, self.elem, self.kind, self.ordered, self.own = N, cond, elem, kind, ordered, own


class LApp(H):
    """loop placeholder: unknown prefix plus appended items"""

    def __init__(self, tok, extra=()):
        self.tok, self.extra = tok, tuple(extra)


class LCom(H):
    """list of distinct candidates (order unknown unless sorted)"""

    def __init__(self, cs, is_sorted=False):
        self.cs, self.sorted = cs, is_sorted


class LSorted(H):
    """sorted list of numbers given by (N, cond, elem)"""

    def __init__(self, src, reverse=False):
        self.src, self.reverse = src, reverse


class SCom(H):
    """mutable set of candidates"""

    def __init__(self, cs, cls="set"):
        self.cs, self.cls = cs, cls


class SItems(H):
    """set with statically known elements"""

    def __init__(self, items):
        self.items = tuple(items)


class Bag(H):
    """collection of tuples of z3 terms given by a membership predicate pred(*terms) -> formula.
    shape: how an element looks as a Python value; sorts: kinds of the components; typ: list/set/dict"""

    def __init__(self, pred, shape, typ, size=None, nodup=False, val=None):
        self.pred, self.shape, self.typ, self.size, self.nodup, self.val = pred, shape, typ, size, nodup, val
        self.sortkey = None


class LazyBag(H):
    """made from a collection that is being filled in the current loop: fn(content when the loop is left)"""

    def __init__(self, ref, added, fn):
        self.ref, self.added, self.fn = ref, added, fn


class DMap(H):
    """dict from candidates / voters (ints) : dom(x), get(x)"""

    def __init__(self, dom, get, kind="cand", N=None):
        self.dom, self.get, self.kind, self.N = dom, get, kind, N


class DItems(H):
    """dict with statically known keys"""

    def __init__(self, items):
        self.items = dict(items)


class OObj(H):
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Iter:
    """iterator over elements: index domain [0,N) with cond, elem; or a domain of committees"""

    def __init__(self, N=None, cond=None, elem=None, kind="pos", ordered=True, concrete=None, own=False, dom=None, shape=None, anon=None, valued=True):
        self.N, self.cond, self.elem, self.kind, self.ordered, self.concrete = N, cond, elem, kind, ordered, concrete
        self.own = own          # elem(j) is j
        self.dom, self.shape = dom, shape
        self.anon = anon        # (count) usable when the element itself is not used


def subst1(fn, pairs, *xs):
    """(fn under the substitution) applied to xs, where xs themselves are not substituted"""
    keys = [a for a, _ in pairs]
    if not any(is_z3(x) and L.mentions(x, keys) for x in xs):
        return subst(fn(*xs), pairs)
    fresh = [z3.Const(f"!s{L.uid()}", x.sort()) if is_z3(x) else x for x in xs]
    back = [(a, b) for a, b in zip(fresh, xs) if is_z3(b)]
    return subst(subst(fn(*fresh), pairs), back)


def subst(v, pairs):
    """substitute z3 constants in a value"""
    if not pairs:
        return v
    if is_z3(v):
        return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, All):
        return All(v.kind, lambda x: subst1(v.fn, pairs, x), v.guard and (lambda x: subst1(v.guard, pairs, x)), v.name)
    if isinstance(v, Ex):
        return Ex(v.kind, lambda x: subst1(v.fn, pairs, x), v.guard and (lambda x: subst1(v.guard, pairs, x)), v.name)
    if isinstance(v, L.Trig):
        return v
    if isinstance(v, And_):
        return And_(*[subst(x, pairs) for x in v.fs])
    if isinstance(v, Or_):
        return type(v)(*[subst(x, pairs) for x in v.fs])
    if isinstance(v, Not_):
        return Not_(subst(v.f, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, CS):
        return CS((lambda c: subst1(v.member, pairs, c)) if v.arr is None else None,
                  None if v.arr is None else subst(v.arr, pairs), None if v._size is None else subst(v._size, pairs))
    if isinstance(v, TCom):
        return TCom(subst(v.cs, pairs), v.sorted)
    if isinstance(v, VoterV):
        return VoterV(subst(v.i, pairs))
    if isinstance(v, RangeV):
        return RangeV(subst(v.lo, pairs), subst(v.hi, pairs), v.step)
    if isinstance(v, CombV):
        return CombV(subst(v.cs, pairs), subst(v.size, pairs), v.sorted)
    if isinstance(v, ApprovedV):
        return ApprovedV(subst(v.i, pairs))
    if isinstance(v, LList):
        return LList([subst(x, pairs) for x in v.items])
    if isinstance(v, LSeq):
        return LSeq(subst(v.n, pairs), lambda i: subst1(v.get, pairs, i), v.kind)
    if isinstance(v, LFilt):
        return LFilt(subst(v.N, pairs), lambda i: subst1(v.cond, pairs, i), lambda i: subst1(v.elem, pairs, i), v.kind, v.ordered, v.own)
    if isinstance(v, LCom):
        return LCom(subst(v.cs, pairs), v.sorted)
    if isinstance(v, LSorted):
        return LSorted(subst(v.src, pairs), v.reverse)
    if isinstance(v, SCom):
        return SCom(subst(v.cs, pairs), v.cls)
    if isinstance(v, SItems):
        return SItems([subst(x, pairs) for x in v.items])
    if isinstance(v, Bag):
        return Bag(lambda *t: subst1(v.pred, pairs, *t), v.shape, v.typ, subst(v.size, pairs) if v.size is not None else None, v.nodup,
                   (lambda *t: subst1(v.val, pairs, *t)) if v.val else None)
    if isinstance(v, DMap):
        return DMap(lambda x: subst1(v.dom, pairs, x), lambda x: subst1(v.get, pairs, x), v.kind, subst(v.N, pairs) if v.N is not None else None)
    if isinstance(v, DItems):
        return DItems({a: subst(b, pairs) for a, b in v.items.items()})
    if isinstance(v, OObj):
        return OObj(v.cls, {a: subst(b, pairs) for a, b in v.attrs.items()})
    if isinstance(v, LApp):
        return LApp(v.tok, [subst(x, pairs) for x in v.extra])
    if isinstance(v, Iter):
        raise Unsupported("iterator kept in a variable across a loop")
    return v


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (is_z3(v) and z3.is_arith(v)) or type(v).__name__ == "Fraction"


def is_boolish(v):
    return isinstance(v, (bool, F)) or (is_z3(v) and z3.is_bool(v))
