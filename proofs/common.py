"""Specification vocabulary and argument builders shared by the proof modules."""
import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Iff, Imp, Not_, Or_, Sum, Card, m, n, k, w, A
from engine.values import *
from engine import builtins_ as bi
from engine.driver import Target, Lemma
from engine.interp import RaiseEx

profile = ProfileV()


# ---- arguments
def com(M, name, cls="scom", size=None, is_sorted=False):
    """a committee of distinct existing candidates (set, tuple or list)"""
    arr = M.fresh(name, "com")
    M.assume(All("int", lambda c: z3.Implies(arr[c], z3.And(c >= 0, c < m))))
    cs = CS(arr=arr)
    if size is not None:
        M.assume(cs.card() == size)
    if cls == "tcom":
        return TCom(cs, is_sorted)
    return M.new(LCom(cs, is_sorted) if cls == "lcom" else SCom(cs, "CandidateSet" if cls == "cset" else "set"))


def arr_of(M, v):
    return bi.need_cs(M, v).array()


def bag(M, name, shape=("scom", "set"), typ="list", nonempty=False):
    kinds = bi.bag_kinds(shape)
    P = z3.Function(f"{name}!{L.fuid()}", *([L.SORT[kd] for kd in kinds] + [L.B]))
    b = Bag(lambda *q: P(*q), shape, typ, None, False)
    return M.new(b), P


def total():
    """total weight"""
    return Sum(n, lambda v: w(v), "voter")


def approved(c):
    """some voter approves c"""
    return Sum(n, lambda v: z3.If(A(v)[c], z3.IntVal(1), z3.IntVal(0)), "voter", L.I) > 0


def quota_fact(a, W, q):
    return z3.Implies(z3.And(q > 0, z3.ToReal(a) * q <= W), a <= z3.ToInt(W / q))


def use_quota(M, a, W, q):
    """a*q <= W implies a <= floor(W/q)  (proved by quota_lemma)"""
    M.assume(quota_fact(a, W, q))


def quota_lemma():
    def build(M):
        a, W, q = z3.Int("a"), z3.Real("W"), z3.Real("q")
        x = W / q
        M.assume(z3.And(q > 0, x * q == W))
        M.assume(z3.ToReal(a) * q <= x * q)
        M.oblige("a <= W/q", z3.ToReal(a) <= x)
        M.oblige("a*q <= W implies a <= floor(W/q)", a <= z3.ToInt(x))
    return lemma("bound on the number of quotas", build)


def committeesize(M, lo=1):
    M.assume(z3.And(k >= lo, k <= m))
    # lemma (proved in proofs/C02.py): there is a committee of every size 0..m
    M.assume(Ex("com", lambda C: L.size_of(C) == k))


# ---- definitions
def inter_size(a, b):
    """number of candidates in both sets (arrays)"""
    return Card(lambda c: z3.And(L.read(a, c), L.read(b, c)))


def sat(v, C):
    """number of members of C approved by voter v"""
    return Card(lambda c: z3.And(A(v)[c], L.read(C, c)))


def ham(v, C):
    """Hamming distance of ballot v and committee C"""
    return Card(lambda c: A(v)[c] != L.read(C, c))


def returned(M, out, name="returns normally (no exception)"):
    """the path must not raise; -> value"""
    if out[0] == "raise":
        M.oblige(f"{name}: no {out[1].exc}", False)
        return None
    return out[1]


def iff(M, name, r, f, **kw):
    """r (a truth value of the code) is equivalent to the formula f"""
    r = bi.truth(M, r)
    if isinstance(r, bool):
        M.oblige(name + (" (answer yes)" if r else " (answer no)"), f if r else Not_(f), assume=False, **kw)
    else:
        M.oblige(name + " (yes only if)", Imp(r, f), assume=False, **kw)
        M.oblige(name + " (yes if)", Imp(f, r), assume=False, **kw)


def lemma(name, build, **kw):
    """a lemma: build(M) states facts and obligations (no code involved)"""
    def run(M, f):
        build(M)
        return ("return", None)
    return Target("lemma: " + name, None, None, None, run=run, **kw)
