"""Loops and comprehensions.

A loop over a symbolic collection is handled in one of two ways:
 * summarised: the effect of one generic iteration j is computed for an arbitrary (placeholder) state; every changed
   location must be an accumulation (sum, maximum, append, add/remove, write at its own index, flag) whose value before
   iteration j has a closed form; a final pass runs the body once more with the closed forms and discharges the
   obligations inside the body, for all j.
 * by invariants (InvSpec, given by a proof module): candidate invariants over the changed locations, of which the
   inductive ones are kept (Houdini); the loop is then replaced by the kept invariants."""
import ast

import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Iff, Imp, Not_, Or_, is_z3
from engine.interp import (BreakEx, ContinueEx, Infeasible, Machine, RaiseEx, ReadPoison, ReturnEx)
from engine.values import *
from engine.values import subst, subst1, preimage
from engine import builtins_ as bi
from engine.builtins_ import cnd, BagApp, num, ite, bag_kinds, quant, same_terms, to_bag_elem, from_bag_elem, iter_of


# ------------------------------------------------------------------------------------------------ helpers
def branches(M1, base):
    return [f for kd, f in M1.pc[base:] if kd == "branch"]


def conj(fs):
    fs = [L.zb(f) for f in fs]
    if not fs:
        return z3.BoolVal(True)
    return z3.simplify(z3.And(fs)) if len(fs) > 1 else fs[0]


def disj(fs):
    fs = [L.zb(f) for f in fs]
    return z3.simplify(z3.Or(fs)) if len(fs) != 1 else fs[0]


def exported(M1, base):
    """facts assumed during a path, each under the branches taken before it"""
    out, br = [], []
    for kd, f in M1.pc[base:]:
        if kd == "branch":
            br.append(f)
        else:
            out.append(Imp(conj(br), f) if br else f)
    return out


def sat(*fs):
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*[L.zb(f) for f in fs])
    return s.check()


def valid(f, *hyp):
    f = z3.simplify(L.zb(f))
    if z3.is_true(f):
        return True
    return sat(z3.Not(f), *hyp) == z3.unsat


def merge(pairs):
    """value given by [(condition, value)] (conditions exclusive and exhaustive); equal values are grouped"""
    groups = []
    for c, v in pairs:
        for g in groups:
            if same_value(g[1], v):
                g[0].append(c)
                break
        else:
            groups.append([[c], v])
    if len(groups) == 1:
        return groups[0][1]
    r = groups[-1][1]
    for cs, v in reversed(groups[:-1]):
        r = ite(disj(cs), v, r)
    return r


def same_value(a, b):
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if is_z3(a) or is_z3(b):
        return False
    if isinstance(a, (int, float, str, bool, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, VoterV) and isinstance(b, VoterV):
        return a.i.eq(b.i)
    return False


def deep(M, v):
    """value without references to mutable objects (for elements of comprehensions)"""
    if isinstance(v, Ref):
        o = M.heap[v.rid]
        if isinstance(o, (LList,)):
            return LList([deep(M, x) for x in o.items])
        return o
    if isinstance(v, tuple):
        return tuple(deep(M, x) for x in v)
    return v


# ------------------------------------------------------------------------------------------------ comprehensions
def comprehension(M, e, kind):
    if len(e.generators) == 2:
        return comp2(M, e, kind)
    if len(e.generators) != 1:
        raise Unsupported("nested comprehension")
    g = e.generators[0]
    it = iter_of(M, M.eval(g.iter))
    # own scope for the loop variable
    cur = M.cur
    fid = M.new_frame(cur)
    M.cur = fid
    try:
        return comp_body(M, e, kind, g, it)
    finally:
        M.cur = cur
        M.frames.pop(fid, None)


def comp2(M, e, kind):
    g1, g2 = e.generators
    it = iter_of(M, M.eval(g1.iter))
    if it.concrete is None:
        raise Unsupported("nested comprehension")
    cur = M.cur
    fid = M.new_frame(cur)
    M.cur = fid
    try:
        out = []
        for x in it.concrete:
            M.assign(g1.target, x)
            if not all(M.branch(M.truth(M.eval(c))) for c in g1.ifs):
                continue
            it2 = iter_of(M, M.eval(g2.iter))
            if it2.concrete is None:
                raise Unsupported("nested comprehension")
            for y in it2.concrete:
                M.assign(g2.target, y)
                if all(M.branch(M.truth(M.eval(c))) for c in g2.ifs):
                    out.append(M.eval(e.elt))
        return finish(M, kind, out)
    finally:
        M.cur = cur
        M.frames.pop(fid, None)


def finish(M, kind, out):
    if kind == "list":
        return M.new(LList(out))
    if kind == "gen":
        return Iter(concrete=out)
    return bi.listify(M, LList(out), "set")


def comp_body(M, e, kind, g, it):
    if it.concrete is not None:
        out = []
        for x in it.concrete:
            M.assign(g.target, x)
            if all(M.branch(M.truth(M.eval(c))) for c in g.ifs):
                out.append((M.eval(e.key), M.eval(e.value)) if kind == "dict" else M.eval(e.elt))
        if kind == "dict":
            if all(isinstance(a, (str, int)) for a, _ in out):
                return M.new(DItems(dict(out)))
            raise Unsupported("dict comprehension")
        return finish(M, kind, out)
    if it.dom is not None:
        return comp_dom(M, e, kind, g, it)
    j = z3.Int(f"j!{L.fuid()}")
    base = len(M.pc)

    def setup(M1):
        M1.idx = M.idx + (j,)
        M1.pool(it.kind, j)
        M1.pc.append(("dom", z3.And(j >= 0, j < it.N)))
        c = cnd(it.cond(j))
        if c is not True:
            M1.pc.append(("dom", c))
        M1.base0 = len(M1.pc)

    def thunk(M1):
        M1.assign(g.target, it.elem(j))
        for c in g.ifs:
            if not M1.branch(M1.truth(M1.eval(c))):
                return ("skip",)
        if kind == "dict":
            return ("elem", (deep(M1, M1.eval(e.key)), deep(M1, M1.eval(e.value))))
        return ("elem", deep(M1, M1.eval(e.elt)))
    # conditions without side effects are evaluated to one formula where possible
    paths = M.explore(thunk, setup)
    keep, raises = [], []
    for M1, (how, val) in paths:
        b = M1.base0
        pcs = branches(M1, b)
        ex = exported(M1, b)
        if how == "raise":
            raises.append((M1, pcs, val, ex))
            continue
        if how != "next":
            raise Unsupported("exit from a comprehension")
        changed = [r for r in M.heap if M1.heap.get(r) is not M.heap[r]]
        if changed:
            raise Unsupported("side effect in a comprehension")
        keep.append((conj(pcs), val, ex))
        M.frozen |= M1.frozen & set(M.heap)
    dom = lambda i: And_(z3.And(i >= 0, i < it.N), cnd(it.cond(i)))
    allfacts = [f for _, _, ex in keep for f in ex] + [f for r in raises for f in r[3]]
    for f in allfacts:
        M.assume(All(it.kind, lambda i, f=f: Imp(dom(i), subst(f, [(j, i)]))))
    for M1, pcs, val, ex in raises:
        pc = conj(pcs)
        if M.branch(Ex(it.kind, lambda i: And_(dom(i), subst(pc, [(j, i)])))):
            raise val
    els = [(c, v[1]) for c, v, _ in keep if v[0] == "elem"]
    if not els:
        return finish(M, kind, []) if kind != "dict" else M.new(DItems({}))
    ec = disj([c for c, _ in els]) if len(els) < len(keep) else z3.BoolVal(True)
    ev = merge(els)
    always = z3.is_true(ec)

    def cond(i):
        c = cnd(it.cond(i))
        if always:
            return c
        c2 = subst(ec, [(j, i)])
        return c2 if c is True else (z3.And(L.zb(c), c2) if not isinstance(c, F) else And_(c, c2))

    def elem(i):
        return subst(ev, [(j, i)])
    if kind == "dict":
        kk = ev[0]
        if not (is_z3(kk) and kk.eq(j)):
            raise Unsupported("dict comprehension key")
        kd = it.kind
        N = it.N
        vv = ev[1]
        full = cond(z3.Int("!probe")) is True
        return M.new(DMap(lambda i: z3.And(i >= 0, i < N, L.zb(cnd(cond(i)))), lambda i: subst(vv, [(j, i)]), kd, N))
    own = is_z3(ev) and ev.eq(j)
    res = Iter(it.N, cond, elem, it.kind, it.ordered, own=own)
    if kind == "gen":
        return res
    if kind == "list":
        o = bi.iter_to_list(M, res)
        return M.new(o)
    # set
    if own:
        return M.new(SCom(CS(lambda c: z3.And(c >= 0, c < it.N, L.zb(cnd(cond(c)))))))
    return bi.listify(M, bi.iter_to_list(M, res), "set")


def comp_dom(M, e, kind, g, it):
    kinds = bag_kinds(it.shape)
    ts = [z3.Const(f"t!{L.fuid()}", L.SORT[kd]) for kd in kinds]

    def setup(M1):
        M1.idx = M.idx + tuple(ts)
        for kd, t in zip(kinds, ts):
            M1.pool(kd, t)
        M1.pc.append(("dom", cnd(it.dom(*ts))))
        M1.base0 = len(M1.pc)

    def thunk(M1):
        v = it.elem(*ts) if it.elem else from_bag_elem(M1, it.shape, ts)
        M1.assign(g.target, v)
        for c in g.ifs:
            if not M1.branch(M1.truth(M1.eval(c))):
                return ("skip",)
        if kind == "dict":
            raise Unsupported("dict comprehension over committees")
        v = M1.eval(e.elt)
        return ("elem", v)
    paths = M.explore(thunk, setup)
    preds, sh, bools, nums = [], None, [], []
    for M1, (how, val) in paths:
        b = M1.base0
        if how != "next":
            raise Unsupported("exit from a comprehension")
        pc = conj(branches(M1, b))
        for f in exported(M1, b):
            M.assume(quant(All, kinds, lambda *t, f=f: Imp(cnd(it.dom(*t)), subst(f, list(zip(ts, t))))))
        if val[0] == "skip":
            continue
        v = val[1]
        if is_boolish(v):
            bools.append((pc, v))
            continue
        if is_num(v):
            nums.append((pc, v))
            continue
        el = to_bag_elem(M1, v)
        if el is None:
            raise Unsupported("element of a comprehension over committees")
        shape, terms, ks = el
        sh = bi.join_shape(sh, shape)
        preds.append((pc, terms, ks, inverse(M, it.dom, kinds, ts, terms)))
    if bools and not preds and not nums:
        # generator of truth values (all/any)
        def el(*t):
            return And_(*[Imp(subst(pc, list(zip(ts, t))), subst(v, list(zip(ts, t)))) for pc, v in bools])
        cover = disj([pc for pc, _ in bools])
        return Iter(dom=lambda *t: And_(cnd(it.dom(*t)), subst(cover, list(zip(ts, t)))), shape=it.shape, elem=el)
    if nums and not preds and not bools:
        mv = merge(nums)
        cover = disj([pc for pc, _ in nums])
        return Iter(dom=lambda *t: And_(cnd(it.dom(*t)), subst(cover, list(zip(ts, t)))), shape=it.shape,
                    elem=lambda *t: subst(mv, list(zip(ts, t))))
    if bools or nums:
        raise Unsupported("mixed comprehension")
    if not preds:
        return finish(M, kind, [])

    def pred(*t):
        out = []
        for pc, terms, ks, h in preds:
            if len(terms) == len(ts) and all(a.eq(b) for a, b in zip(terms, ts)):
                out.append(And_(cnd(it.dom(*t)), subst(pc, list(zip(ts, t)))))
            else:
                def inner(*u, terms=terms, pc=pc, ks=ks):
                    sub = list(zip(ts, u))
                    return And_(cnd(it.dom(*u)), subst(pc, sub), same_terms(t, [subst(x, sub) for x in terms], ks))
                out.append(image(kinds, ts, terms, inner, t, h))
        return out[0] if len(out) == 1 else Or_(*out)
    ident = len(preds) == 1 and all(a.eq(b) for a, b in zip(preds[0][1], ts)) and len(preds[0][1]) == len(ts)
    injective = not ident and getattr(it, "nodup", False) and len(preds) == 1 and preds[0][3] is not None
    typ = "set" if kind == "set" else "list"
    if typ == "set" and not bi.canonical(sh):
        raise Unsupported("non-canonical elements in a set")
    total = (ident or typ == "list" or injective) and not g.ifs and len(preds) == 1 and z3.is_true(preds[0][0])
    b = Bag(pred, sh, typ, getattr(it, "size", None) if total else None, typ == "set" or injective or (ident and getattr(it, "nodup", False)))
    if kind == "gen":
        r = Iter(dom=b.pred, shape=b.shape)
        r.nodup, r.size = b.nodup, b.size
        return r
    return M.new(b)


# ------------------------------------------------------------------------------------------------ for
def continue_with(M, s, hit):
    """continue with one of the outcomes of a loop"""
    opts, cnt = hit
    if not opts:
        raise Infeasible()
    k_ = M.choose(len(opts))
    Mo, out = opts[k_]
    M.become(Mo.fork())
    L.set_fcount(cnt)
    if out[0] == "next":
        M.exec_block(s.orelse)
        return
    if out[0] == "break":
        return
    if out[0] == "return":
        raise ReturnEx(out[1])
    if out[0] == "raise":
        raise out[1]
    raise Unsupported("loop exit")


def decisions(M, opts):
    """inside another loop: which way a loop is left is a decision of the path (facts hold only under it)"""
    if not M.idx or len(opts) < 2:
        return opts
    base = len(M.pc)
    tks = [M.fresh("way", L.B) for _ in opts]
    one = z3.Or(tks)
    for (Mo, _), tk in zip(opts, tks):
        Mo.pc[base:] = [("fact", one), ("branch", tk)] + [(("fact" if kd == "branch" else kd), f) for kd, f in Mo.pc[base:]]
    return opts


def exec_for(M, s):
    it = iter_of(M, M.eval(s.iter))
    if it.concrete is not None:
        for x in it.concrete:
            M.assign(s.target, x)
            try:
                M.exec_block(s.body)
            except BreakEx:
                break
            except ContinueEx:
                continue
        else:
            M.exec_block(s.orelse)
        return
    if it.anon is not None and not it.ordered and isinstance(s.target, ast.Name) and not any(
            isinstance(nd, ast.Name) and nd.id == s.target.id and isinstance(nd.ctx, ast.Load) for b in s.body for nd in ast.walk(b)):
        # the elements are not used, only their number matters
        it = Iter(it.anon(), lambda j: True, lambda j: Opaque("element"), "pos")
    for spec in M.S.loop_specs:
        if spec.for_loop(M, s, it):
            return
    Summary(M, s, it).run()


def assigned_names(body):
    out = set()
    for b in body:
        for nd in ast.walk(b):
            if isinstance(nd, ast.Name) and isinstance(nd.ctx, (ast.Store, ast.Del)):
                out.add(nd.id)
    return out


class Cell:
    """a location changed by a loop: ("name", frame, name) or ("ref", rid)"""

    def __init__(self, loc, v0):
        self.loc, self.v0 = loc, v0
        self.sort = None
        self.ph = None
        self.form = None


def get_loc(M, loc):
    if loc[0] == "name":
        return M.frames[loc[1]].get(loc[2], POISON)
    return M.heap[loc[1]]


def put_loc(M, loc, v):
    if loc[0] == "name":
        M.frames[loc[1]][loc[2]] = v
    else:
        M.heap[loc[1]] = v


def diff(M, M1):
    """locations existing in M whose content differs in M1"""
    out = []
    for fid, fr in M.frames.items():
        fr1 = M1.frames.get(fid)
        if fr1 is None:
            continue
        for nm in set(fr) | set(fr1):
            if nm.startswith("!"):
                continue
            a, b = fr.get(nm, POISON), fr1.get(nm, POISON)
            if not same_value(a, b) and not (isinstance(a, Ref) and isinstance(b, Ref) and a == b):
                out.append(("name", fid, nm))
    for r, o in M.heap.items():
        if M1.heap.get(r) is not o:
            out.append(("ref", r))
    return out


class Need(Exception):
    """restart of the classification with other placeholders"""


def value_obj(M1, v):
    return M1.heap[v.rid] if isinstance(v, Ref) else v


class Summary:
    def __init__(self, M, s, it):
        self.M, self.s, self.it = M, s, it
        self.isdom = it.dom is not None
        if self.isdom:
            self.kinds = bag_kinds(it.shape)
            self.ts = [z3.Const(f"t!{L.fuid()}", L.SORT[kd]) for kd in self.kinds]
        else:
            self.kinds = [it.kind]
            self.ts = [z3.Int(f"j!{L.fuid()}")]
        self.cells = {}        # loc -> Cell (placeholder)
        self.temps = set()     # names that are poisoned at the start of an iteration
        self.modes = {}        # loc -> forced placeholder type
        self.invs = []

    # -- domain
    def dom(self, *t):
        it = self.it
        if self.isdom:
            return cnd(it.dom(*t))
        c = cnd(it.cond(t[0]))
        r = z3.And(t[0] >= 0, t[0] < it.N)
        return r if c is True else And_(r, c)

    def element(self, M1, ts):
        it = self.it
        if self.isdom:
            return it.elem(*ts) if it.elem else from_bag_elem(M1, it.shape, ts)
        return it.elem(ts[0])

    # -- exploration of one iteration
    def explore(self, place, dry, before=None):
        M = self.M
        if dry:
            M.S.dry += 1

        def setup(M1):
            M1.idx = M.idx + tuple(self.ts)
            for kd, t in zip(self.kinds, self.ts):
                M1.pool(kd, t)
            M1.pc.append(("dom", self.dom(*self.ts)))
            place(M1)
            if before:
                before(M1)
            M1.start = (dict(M1.heap), {a: dict(b) for a, b in M1.frames.items()})
            M1.base0 = len(M1.pc)

        def thunk(M1):
            M1.assign(self.s.target, self.element(M1, self.ts))
            M1.exec_block(self.s.body)
        try:
            return M.explore(thunk, setup)
        finally:
            if dry:
                M.S.dry -= 1

    def place(self, M1):
        for t in self.temps:
            put_loc(M1, t, POISON)
        for loc, c in self.cells.items():
            put_loc(M1, loc, c.ph)

    def discover(self):
        M = self.M
        tgt = set()
        for nd in ast.walk(self.s.target):
            if isinstance(nd, ast.Name):
                tgt.add(("name", M.cur, nd.id))
        self.temps = set(tgt)
        for _ in range(25):
            try:
                M.S.discovering += 1
                try:
                    paths = self.explore(self.place, True)
                finally:
                    M.S.discovering -= 1
                    if not M.S.discovering:
                        M.S.assumed = False
            except ReadPoison as e:
                loc = ("name",) + e.name
                if loc not in tgt and (e.name[0] not in M.frames or get_loc(M, loc) is POISON):
                    raise
                if loc in self.temps and loc not in tgt:
                    self.temps.discard(loc)
                    self.cells[loc] = self.cell(loc, None)
                    continue
                raise Unsupported(f"variable {e.name[1]} may be read before it is assigned")
            new = False
            for M1, out in paths:
                if out[0] != "next":
                    continue        # the loop ends in this state
                St = Machine(M.S)
                St.heap, St.frames = M1.start
                for loc in diff(St, M1):
                    if loc in self.cells or loc in self.temps:
                        continue
                    new = True
                    if loc[0] == "name":
                        self.temps.add(loc)
                    else:
                        self.cells[loc] = self.cell(loc, M1)
            if not new:
                for M1, out in paths:
                    if any(("ref", r) in self.cells for r in M1.frozen - M.frozen):
                        raise Unsupported("object stored in a collection is changed in a later iteration")
                return paths
        raise Unsupported("loop discovery")

    def cell(self, loc, M1):
        c = Cell(loc, get_loc(self.M, loc))
        c.ph = self.placeholder(c, M1)
        return c

    def placeholder(self, c, M1):
        v = c.v0
        u = L.fuid()
        mode = self.modes.get(c.loc)
        end = None
        if M1 is not None and c.loc[0] == "ref":
            end = M1.heap[c.loc[1]]
        if mode == "opaque":
            c.sort = "opaque"
            return Opaque("loop")
        if isinstance(v, bool) or is_z3(v) and z3.is_bool(v):
            c.sort = "bool"
            c.p = z3.Bool(f"P!{u}")
            return c.p
        if is_num(v):
            c.sort = "num"
            isint = isinstance(v, int) or is_z3(v) and v.sort() == L.I
            srt = L.I if isint and mode != "real" else L.R
            c.p = z3.Const(f"P!{u}", srt)
            return c.p
        if c.loc[0] == "name":
            if isinstance(v, TCom) or v == ():
                c.sort = "com"
                c.p = z3.Const(f"P!{u}", L.COM)
                c.mk = lambda a: TCom(CS(arr=a), False)
                return c.mk(c.p)
            if isinstance(v, Ref):
                o = self.M.heap[v.rid]
                if isinstance(o, (LCom, SCom, SItems)) or isinstance(o, LList) and not o.items:
                    c.sort = "com"
                    c.isref = True
                    c.p = z3.Const(f"P!{u}", L.COM)
                    raise Unsupported("collection rebound in a loop")
            c.sort = "opaque"
            return Opaque("loop")
        if isinstance(v, LSeq):
            pr = v.get(z3.Int("!probe"))
            if not is_num(pr) and not is_boolish(pr):
                c.sort = "opaque"
                return Opaque("loop")
            srt = L.B if is_boolish(pr) else L.R
            c.sort = "arr"
            c.p = z3.Const(f"P!{u}", z3.ArraySort(L.I, srt))
            c.mk = lambda a: LSeq(v.n, lambda i: L.read(a, i), v.kind)
            c.at = lambda o, i: o.get(i)
            return c.mk(c.p)
        if isinstance(v, DMap) or isinstance(v, DItems) and not v.items and isinstance(end, DMap):
            src = v if isinstance(v, DMap) else end
            pr = src.get(z3.Int("!probe"))
            if is_num(pr):
                c.sort = "map"
                c.p = z3.Const(f"P!{u}", L.RARR)
                c.d = z3.Const(f"D!{u}", L.COM)
                kd, N = src.kind, src.N
                if isinstance(v, DItems):
                    N = {"cand": L.m, "voter": L.n}.get(self.it.kind) if not self.isdom else None
                    if N is not None:
                        kd = self.it.kind
                c.mk = lambda d, a: DMap(d, lambda i: L.read(a, i), kd, N)
                c.at = lambda o, i: o.get(i)
                c.domfix = isinstance(v, DMap) and mode != "domchange"
                if c.domfix:
                    return c.mk(v.dom, c.p)
                return c.mk(lambda i: L.read(c.d, i), c.p)
            c.sort = "opaque"
            return Opaque("loop")
        if isinstance(v, (LCom, SCom)) or isinstance(v, SItems) and isinstance(end, SCom) or mode == "com":
            c.sort = "com"
            c.p = z3.Const(f"P!{u}", L.COM)
            if isinstance(v, (LCom, LList)):
                c.mk = lambda a: LCom(CS(arr=a), False)
            else:
                cls = v.cls if isinstance(v, SCom) else "set"
                c.mk = lambda a: SCom(CS(arr=a), cls)
            return c.mk(c.p)
        if isinstance(v, Bag) or isinstance(v, (SItems, DItems)) and isinstance(end, Bag) or isinstance(v, LList) and self.isdom \
                or isinstance(v, BagApp) or mode == "bag":
            typ = v.typ if isinstance(v, (Bag, BagApp)) else {SItems: "set", DItems: "dict", LList: "list"}[type(v)]
            c.sort = "bag"
            c.p = z3.Int(f"size!{u}")
            c.typ = typ
            sh = v.shape if isinstance(v, (Bag, BagApp)) else None
            return BagApp(c, c.p, typ, (), sh)
        if isinstance(v, LList) and (not v.items):
            c.sort = "app"
            c.p = None
            return LApp(c)
        if isinstance(v, LList) and all(is_num(x) for x in v.items):
            c.sort = "nums"
            c.ps = [z3.Const(f"P!{L.fuid()}", L.R) for _ in v.items]
            return LList(c.ps)
        if isinstance(v, LApp):
            # a list that is appended to in an enclosing loop
            c.sort = "app"
            c.p = None
            return LApp(c)
        c.sort = "opaque"
        return Opaque("loop")

    def consts(self):
        out = []
        for c in self.cells.values():
            out += self.cell_consts(c)
        return out

    def cell_consts(self, c):
        out = []
        if c.sort in ("bool", "num", "arr", "com", "map", "bag"):
            out.append(c.p)
        if c.sort == "map" and not c.domfix:
            out.append(c.d)
        if c.sort == "nums":
            out += c.ps
        return out

    # -- classification
    def run(self):
        """execute the loop: compute the possible outcomes once, then continue with one of them"""
        M = self.M
        key = M.key(("loop", id(self.s)))
        hit = M.S.loopcache.get(key)
        if hit is None:
            opts = decisions(M, self.options())
            hit = (opts, L.fcount())
            if not M.S.assumed:
                M.S.loopcache[key] = hit
        continue_with(M, self.s, hit)

    def options(self):
        for _ in range(12):
            try:
                paths = self.discover()
                self.classify(paths)
                return self.finish()
            except Need:
                self.cells = {}
                self._cache = {}
        raise Unsupported("loop classification")

    def force(self, c, mode):
        self.modes[c.loc] = mode
        raise Need()

    def classify(self, paths):
        base = [(M1, out, conj(branches(M1, M1.base0))) for M1, out in paths]
        nxt = [(M1, pc) for M1, out, pc in base if out[0] == "next"]
        self.has_exit = any(out[0] != "next" for _, out, _ in base)
        self.order = []
        if not nxt:
            for c in self.cells.values():
                c.form = lambda t, c=c: c.ph
            return
        pending = list(self.cells.values())
        # bags and lists of appended items depend on nothing else reading them
        self.info = {}
        for c in pending:
            self.info[c.loc] = self.update(c, nxt)
        # dependencies
        todo = list(self.cells.values())
        while todo:
            prog = False
            for c in list(todo):
                deps = self.deps(c, todo)
                if not deps - {c.loc}:
                    self.order.append(c)
                    todo.remove(c)
                    prog = True
            if not prog:
                # break cycles: the first location becomes unknown
                for c in todo:
                    if c.sort != "opaque" and c.sort != "bag":
                        self.force(c, "opaque")
                raise Unsupported("mutually dependent locations in a loop")
        self.nxt = nxt

    def deps(self, c, among):
        u = self.info[c.loc]
        out = set()
        for d in among:
            cs = self.cell_consts(d)
            if cs and any(L.mentions(x, cs) for x in u["terms"] if is_z3(x)):
                out.add(d.loc)
        return out

    def update(self, c, nxt):
        """how the location changes in one iteration"""
        P = getattr(c, "p", None)
        own = self.cell_consts(c)
        pcs = [pc for _, pc in nxt]
        if c.sort == "opaque":
            return {"kind": "opaque", "terms": []}
        if c.sort == "num":
            vals = [get_loc(M1, c.loc) for M1, _ in nxt]
            if any(not is_num(v) for v in vals):
                self.force(c, "opaque")
            vals = [num(v) for v in vals]
            if c.p.sort() == L.I and any(is_z3(v) and v.sort() == L.R or not is_z3(v) and not isinstance(v, int) for v in vals):
                self.force(c, "real")
            ds = [z3.simplify(L.tosort(v, P.sort()) - P) for v in vals]
            if not any(L.mentions(d, own) for d in ds):
                delta = merge([(pc, d) for pc, d in zip(pcs, ds)])
                if not L.mentions(delta, own):
                    return {"kind": "add", "delta": delta, "terms": [delta]}
            mv = merge([(pc, L.tosort(v, P.sort())) for pc, v in zip(pcs, vals)])
            r = self.maxlike(c, nxt, vals, mv, own)
            if r:
                return r
            self.force(c, "opaque")
        if c.sort == "bool":
            vals = [L.zb(get_loc(M1, c.loc)) for M1, _ in nxt]
            mv = merge([(pc, v) for pc, v in zip(pcs, vals)])
            lo = z3.simplify(z3.substitute(mv, (P, z3.BoolVal(False))))
            hi = z3.simplify(z3.substitute(mv, (P, z3.BoolVal(True))))
            if z3.is_true(hi):
                return {"kind": "or", "c": lo, "terms": [lo]}
            if z3.is_false(lo):
                return {"kind": "and", "c": hi, "terms": [hi]}
            self.force(c, "opaque")
        if c.sort in ("arr", "map"):
            i = z3.Int(f"i!{L.fuid()}")
            objs = [M1.heap[c.loc[1]] for M1, _ in nxt]
            if any(not isinstance(o, (LSeq, DMap)) for o in objs):
                self.force(c, "opaque")
            if c.sort == "map" and c.domfix:
                for o in objs:
                    d0, d1 = c.v0.dom(i), o.dom(i)
                    if not valid(L.zb(cnd(d0)) == L.zb(cnd(d1)), *[]):
                        # dom(i) is unchanged if the written key is contained
                        j = self.ts[0]
                        if not self.M.prove(All("int", lambda x: Imp(L.zb(cnd(o.dom(x))), L.zb(cnd(c.v0.dom(x))))))[0] == "proved":
                            hyp = [self.dom(*self.ts)] + [pc for pc in pcs]
                            # the write itself was checked against the domain (KeyError) or extends it
                            self.force(c, "domchange")
            if isinstance(objs[0], LSeq) and any(not L.simp(o.n).eq(L.simp(c.v0.n)) for o in objs):
                self.force(c, "opaque")
            srt = c.p.sort().range()
            old = z3.Select(c.p, i)
            if srt == L.B:
                vals = [L.zb(c.at(o, i)) for o in objs]
            else:
                vals = [L.tosort(num(c.at(o, i)), L.R) for o in objs]
            mv = merge([(pc, v) for pc, v in zip(pcs, vals)])
            if srt != L.B:
                d = z3.simplify(merge([(pc, z3.simplify(v - old)) for pc, v in zip(pcs, vals)]), push_ite_arith=False)
                if L.mentions(d, own):
                    d = z3.simplify(self.pull(mv, old))
                if not L.mentions(d, own):
                    return {"kind": "padd", "i": i, "delta": d, "terms": [d] + self.domterms(c, objs, pcs, i)}
            if not self.isdom:
                j = self.ts[0]
                if valid(mv == old, i != j):
                    v = z3.simplify(z3.substitute(mv, (i, j)))
                    x = z3.Const(f"x!{L.fuid()}", srt)
                    v2 = z3.substitute(v, (z3.Select(c.p, j), x))
                    if not L.mentions(v2, own):
                        return {"kind": "pown", "v": v2, "x": x, "terms": [v2] + self.domterms(c, objs, pcs, i)}
            self.force(c, "opaque")
        if c.sort == "com":
            i = z3.Int(f"i!{L.fuid()}")
            objs = [get_loc(M1, c.loc) for M1, _ in nxt]
            mems = []
            for (M1, _), o in zip(nxt, objs):
                cs = bi.as_cs(M1, o)
                if cs is None:
                    self.force(c, "opaque")
                mems.append(L.zb(cs.member(i)))
            mv = merge(list(zip(pcs, mems)))
            old = z3.Select(c.p, i)
            f = z3.simplify(z3.substitute(mv, (old, z3.BoolVal(False))))
            t = z3.simplify(z3.substitute(mv, (old, z3.BoolVal(True))))
            if not L.mentions(f, own) and valid(t):
                return {"kind": "cadd", "i": i, "g": f, "terms": [f]}
            if not L.mentions(t, own) and valid(z3.Not(f)):
                return {"kind": "crem", "i": i, "g": t, "terms": [t]}
            self.force(c, "opaque")
        if c.sort == "app":
            items = []
            for M1, pc in nxt:
                o = M1.heap[c.loc[1]]
                if not isinstance(o, LApp) or o.tok is not c:
                    self.force(c, "opaque")
                if len(o.extra) > 1:
                    self.force(c, "opaque")
                items.append((pc, tuple(deep(M1, x) for x in o.extra)))
            if self.isdom:
                raise Unsupported("list of values per committee")
            app = [(pc, x[0]) for pc, x in items if x]
            if not app:
                return {"kind": "same", "terms": []}
            cond = disj([pc for pc, _ in app]) if len(app) < len(items) else z3.BoolVal(True)
            if any(isinstance(v, Opaque) for _, v in app):
                self.force(c, "opaque")
            v = merge(app)
            terms = [cond] + self.value_terms(v)
            return {"kind": "app", "cond": cond, "v": v, "terms": terms}
        if c.sort == "nums":
            k_ = len(c.ps)
            out = []
            terms = []
            for q in range(k_):
                vals = []
                for M1, _ in nxt:
                    o = M1.heap[c.loc[1]]
                    if not isinstance(o, LList) or len(o.items) != k_ or not is_num(o.items[q]):
                        self.force(c, "opaque")
                    vals.append(L.tosort(num(o.items[q]), L.R))
                d = merge([(pc, z3.simplify(v - c.ps[q])) for pc, v in zip(pcs, vals)])
                if L.mentions(d, own):
                    self.force(c, "opaque")
                out.append(d)
                terms.append(d)
            return {"kind": "nadd", "deltas": out, "terms": terms}
        if c.sort == "bag":
            adds, terms = [], []
            shape = c.ph.shape
            sizes = []
            for M1, pc in nxt:
                o = M1.heap[c.loc[1]]
                if not isinstance(o, BagApp) or o.tok is not c:
                    self.force(c, "opaque")
                for (sh, ts, ks), how in o.extra:
                    shape = bi.join_shape(shape, sh)
                    adds.append((pc, ts, ks))
                    terms += [pc] + (how[1] if callable(ts) else list(ts))
                sizes.append((pc, o.size))
            return {"kind": "bag", "adds": adds, "shape": shape, "terms": terms, "sizes": sizes}
        raise Unsupported(f"location {c.sort}")

    def domterms(self, c, objs, pcs, i):
        if c.sort != "map" or c.domfix:
            return []
        mv = merge([(pc, L.zb(cnd(o.dom(i)))) for pc, o in zip(pcs, objs)])
        old = z3.Select(c.d, i)
        f = z3.simplify(z3.substitute(mv, (old, z3.BoolVal(False))))
        t = z3.simplify(z3.substitute(mv, (old, z3.BoolVal(True))))
        if L.mentions(f, [c.d, c.p]) or not valid(t):
            self.force(c, "opaque")
        c.dg = (i, f)
        return [f]

    def pull(self, mv, old):
        """difference mv - old with ite branches treated separately"""
        if z3.is_app(mv) and mv.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(mv.arg(0), self.pull(mv.arg(1), old), self.pull(mv.arg(2), old))
        return z3.simplify(mv - old)

    def value_terms(self, v):
        if is_z3(v):
            return [v]
        if isinstance(v, tuple):
            return [t for x in v for t in self.value_terms(x)]
        if isinstance(v, TCom):
            return [v.cs.array()]
        if isinstance(v, (LCom, SCom)):
            return [v.cs.array()]
        if isinstance(v, VoterV):
            return [v.i]
        if isinstance(v, LSeq):
            return [L.zb(v.get(z3.Int("!probe"))) if is_boolish(v.get(z3.Int("!probe"))) else L.tosort(num(v.get(z3.Int("!probe"))), L.R), L.tosort(v.n, L.I)]
        if isinstance(v, LList):
            return [t for x in v.items for t in self.value_terms(x)]
        if isinstance(v, DMap):
            return [L.tosort(num(v.get(z3.Int("!probe"))), L.R)]
        return []

    def maxlike(self, c, nxt, vals, mv, own):
        P = c.p
        ups = []
        for (M1, pc), v in zip(nxt, vals):
            v = L.tosort(v, P.sort())
            if v.eq(P):
                continue
            if L.mentions(v, own):
                # max(P, e) written with an ite
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                    a, b = v.arg(1), v.arg(2)
                    e = b if a.eq(P) else a
                    if not L.mentions(e, own):
                        ups.append((branches(M1, M1.base0), e))
                        continue
                return None
            ups.append((branches(M1, M1.base0), v))
        if not ups:
            return None
        e = merge([(conj([b for b in bs if not L.mentions(b, own)]), v) for bs, v in ups])
        cond = disj([conj([b for b in bs if not L.mentions(b, own)]) for bs, v in ups])
        for rel, nm, strict in ((lambda: e > P, "max", True), (lambda: e >= P, "max", False), (lambda: e < P, "min", True), (lambda: e <= P, "min", False)):
            if valid(mv == z3.If(z3.And(cond, rel()), e, P)):
                return {"kind": nm, "e": e, "c": cond, "terms": [e, cond], "upd": z3.And(cond, rel())}
        return None

    # -- closed forms
    def finish(self):
        M, it, s = self.M, self.it, self.s
        base = M
        self.sub_at = {}
        self._cache = {}
        self.v0s = {loc: get_loc(M, loc) for loc in self.temps}
        self.inv_formulas = []
        if self.cells:
            for f in M.S.cand_invs:
                self.inv_formulas += list(f(M, self))
        self.kept_invs = self.houdini()
        ts = self.ts
        for c in self.order:
            self.value(c, ts)

        def place(M1):
            for t in self.temps:
                put_loc(M1, t, POISON)
            for c in self.order:
                put_loc(M1, c.loc, self.value(c, ts))
            for c in self.cells.values():
                if c not in self.order:
                    put_loc(M1, c.loc, c.ph)
        def before(M1):
            M1.head = [fn(self.state_view(M1)) for _, fn in self.kept_invs]
            for f in M1.head:
                M1.assume(f)
        real = self.explore(place, False, before=before)
        exits, nexts = [], []
        for M1, out in real:
            (nexts if out[0] == "next" else exits).append((M1, out, conj(branches(M1, M1.base0))))
        if nexts:
            # the added elements in terms of this execution (whose facts are exported); iterations before the last leave
            # the loop under no condition
            no = [(pc, z3.BoolVal(False)) for _, _, pc in exits if not z3.is_true(pc)]
            if no:
                nexts = [(M1, out, L.bsimp(z3.substitute(pc, *no))) for M1, out, pc in nexts]
            for c in self.cells.values():
                if c.sort == "bag" and self.info.get(c.loc, {}).get("kind") == "bag":
                    self.info[c.loc] = self.update(c, [(M1, pc) for M1, _, pc in nexts])
        facts = []
        for M1, out in real:
            facts += exported(M1, M1.base0)
        kinds = self.kinds
        ordered = not self.isdom and it.ordered

        def all_facts(Mo, guard):
            for f in facts:
                Mo.assume(quant(All, kinds, lambda *t, f=f: Imp(And_(self.dom(*t), guard(*t)), subst(f, list(zip(ts, t))))))

        def noexit(*t):
            return And_(*[Not_(subst(pc, list(zip(ts, t)))) for _, _, pc in exits]) if exits else True
        opts = []
        if nexts or not exits:
            Mo = base.fork()
            self.M = Mo
            all_facts(Mo, lambda *t: True)
            if exits:
                Mo.assume(quant(All, kinds, lambda *t: Imp(self.dom(*t), noexit(*t))))
            self.apply_final(nexts)
            if not exits or not Mo.impossible():
                opts.append((Mo, ("next", None)))
        else:
            # every iteration leaves the loop: the collection is empty
            Mo = base.fork()
            self.M = Mo
            Mo.assume(quant(All, kinds, lambda *t: Not_(self.dom(*t))))
            for loc in self.temps:
                put_loc(Mo, loc, self.v0s[loc])
            if not Mo.impossible():
                opts.append((Mo, ("next", None)))
        for M1, out, pc in exits:
            Mo = base.fork()
            self.M = Mo
            if ordered:
                js = Mo.fresh("exit", it.kind)
                st = [js]
                Mo.assume(self.dom(js))
                all_facts(Mo, lambda t, js=js: t <= js)
                Mo.assume(All(it.kind, lambda i, js=js: Imp(And_(self.dom(i), i < js), noexit(i))))
            else:
                st = [Mo.fresh("exit", kd) for kd in kinds]
                Mo.assume(self.dom(*st))
                all_facts(Mo, lambda *t: True)
            sub = list(zip(ts, st))
            for f in M1.head:
                Mo.assume(subst(f, sub))
            for kd, f in M1.pc[M1.base0:]:
                Mo.pc.append((kd, subst(f, sub)))
            if Mo.impossible():
                continue
            for r, o in M1.heap.items():
                Mo.heap[r] = subst(o, sub) if r not in base.heap or base.heap[r] is not o else o
            for fid, fr in M1.frames.items():
                Mo.frames[fid] = {a: (subst(b, sub) if not a.startswith("!") and not isinstance(b, Ref) else b) for a, b in fr.items()}
            Mo.next_id = max(Mo.next_id, M1.next_id)
            Mo.frozen |= M1.frozen
            if hasattr(self, "info"):
                for c in self.cells.values():
                    if self.info.get(c.loc, {}).get("kind") == "bag":
                        nadd = len(M1.heap[c.loc[1]].extra) if isinstance(M1.heap[c.loc[1]], BagApp) else None
                        self.bag_exit(c, M1, sub, ordered, st)
                        for r, o in list(Mo.heap.items()):
                            if isinstance(o, LazyBag) and o.ref.rid == c.loc[1]:
                                if o.added != nadd or not isinstance(Mo.heap[c.loc[1]], Bag):
                                    raise Unsupported("collection changed after its use")
                                Mo.heap[r] = o.fn(Mo.heap[c.loc[1]])
            v = out[1]
            opts.append((Mo, (out[0], v if isinstance(v, Ref) or out[0] == "raise" else subst(v, sub))))
        self.M = base
        return opts

    def state_view(self, M1):
        return {c.loc: get_loc(M1, c.loc) for c in self.cells.values()}

    def houdini(self):
        """candidate invariants over the placeholders that hold initially and are preserved"""
        M = self.M
        cand = []
        init = {c.loc: get_loc(M, c.loc) for c in self.cells.values()}
        for name, fn in self.inv_formulas:
            try:
                f = fn(init)
            except Unsupported:
                continue
            if M.prove(f, timeout=3000)[0] == "proved":
                cand.append((name, fn))
        while cand:
            paths = self.explore(self.place, True, before=lambda M1: [M1.assume(fn(self.state_view(M1))) for _, fn in cand])
            bad = []
            for name, fn in cand:
                for M1, out in paths:
                    if out[0] != "next":
                        continue
                    if M1.prove(fn(self.state_view(M1)), timeout=3000)[0] != "proved":
                        bad.append(name)
                        break
            if not bad:
                return cand
            cand = [(a, b) for a, b in cand if a not in bad]
        return []

    def clean(self, e, upto):
        """replace placeholders of earlier-ordered cells in e (an expression of iteration self.ts) by their closed forms"""
        sub = []
        for d in self.order:
            if d.loc == upto.loc and d.sort != "bag":
                break
            cs = self.cell_consts(d)
            if cs and (is_z3(e) and L.mentions(e, cs) or not is_z3(e)):
                sub += self.bag_before(d, self.ts)[0] if d.loc == upto.loc else self.closed(d, self.ts)[0]
            if d.loc == upto.loc:
                break
        return subst(e, sub) if sub else e

    def closed(self, c, t):
        """closed form of the location before iteration t (t = None: after the loop): (pairs, value)"""
        key = (c.loc, None if t is None else tuple(x.get_id() for x in t), id(self.M) if t is None else 0)
        if key not in self._cache:
            self._cache[key] = self.closed_(c, t)
        return self._cache[key]

    def closed_(self, c, t):
        M, it = self.M, self.it
        u = self.info[c.loc]
        k = u["kind"]
        ts = self.ts
        if t is not None and (not it.ordered or self.isdom) and k in ("max", "min", "or", "and", "add", "padd", "cadd", "crem", "app", "bag", "nadd"):
            if k == "bag":
                return self.bag_before(c, t)
            # arbitrary set of earlier iterations: unknown value, except at its own index
            if k in ("padd",) and self.own_delta(c, u):
                pass
            else:
                return [], c.ph
        if k == "opaque":
            return [], Opaque("loop")
        if k == "same":
            return [], (c.v0 if t is None else c.ph)
        if self.isdom:
            return self.closed_dom(c, t, u, k)
        j = ts[0]
        e_ = t[0] if t is not None else it.N
        cond = lambda i: L.zb(cnd(it.cond(i)))
        rest = lambda i: z3.And(i >= 0, i < e_, cond(i))
        at = lambda x, i: z3.substitute(x, (j, i))
        if k == "add":
            d = self.clean(u["delta"], c)
            srt = c.p.sort()
            tr = cnd(it.cond(j)) is True
            if L.const_num(d) and tr:
                v = L.tosort(num(c.v0), srt) + d * L.tosort(e_, srt)
            elif not L.mentions(d, [j]) and not tr and it.own and it.anon is not None and t is None:
                v = L.tosort(num(c.v0), srt) + d * L.tosort(it.anon(), srt)
            else:
                v = L.tosort(num(c.v0), srt) + L.Sum(e_, lambda i: at(d, i) if tr else z3.If(cond(i), at(d, i), L.tosort(0, srt)), it.kind, srt)
            v = L.simp(v)
            return [(c.p, v)], v
        if k in ("max", "min"):
            e, cc = self.clean(u["e"], c), self.clean(u["c"], c)
            srt = c.p.sort()
            v0 = L.tosort(num(c.v0), srt)
            x = self.fresh_like(t, srt)
            le = (lambda a, b: a <= b) if k == "max" else (lambda a, b: a >= b)
            self.post_fact(t, And_(le(v0, x), All(it.kind, lambda i: Imp(z3.And(rest(i), at(cc, i)), le(at(e, i), x))),
                                   Or_(x == v0, Ex(it.kind, lambda i: And_(z3.And(rest(i), at(cc, i)), at(e, i) == x)))))
            return [(c.p, x)], x
        if k in ("or", "and"):
            cc = self.clean(u["c"], c)
            b = self.fresh_like(t, L.B)
            if k == "or":
                self.post_fact(t, Iff(b, Or_(L.zb(c.v0), Ex(it.kind, lambda i: And_(rest(i), at(cc, i))))))
            else:
                self.post_fact(t, Iff(b, And_(L.zb(c.v0), All(it.kind, lambda i: Imp(rest(i), at(cc, i))))))
            return [(c.p, b)], b
        if k == "padd":
            d = self.clean(u["delta"], c)
            i0 = u["i"]
            g = lambda i, x: z3.substitute(d, (j, i), (i0, x))
            own = self.own_delta(c, u)
            old = lambda x: L.tosort(num(c.at(c.v0, x)), L.R) if not isinstance(c.v0, DItems) else L.tosort(0, L.R)
            if own:
                fn = lambda x: old(x) + z3.If(rest(x), g(x, x), z3.RealVal(0))
            else:
                tr = cnd(it.cond(j)) is True
                fn = lambda x: old(x) + L.Sum(e_, lambda i: g(i, x) if tr else z3.If(cond(i), g(i, x), z3.RealVal(0)), it.kind, L.R)
            arr = L.Lam(fn, L.R)
            return self.arrpair(c, arr, rest, t)
        if k == "pown":
            v = self.clean(u["v"], c)
            x = u["x"]
            srt = c.p.sort().range()
            if isinstance(c.v0, DItems):
                old = lambda y: z3.RealVal(0)
            elif srt == L.B:
                old = lambda y: L.zb(c.at(c.v0, y))
            else:
                old = lambda y: L.tosort(num(c.at(c.v0, y)), L.R)
            fn = lambda y: z3.If(rest(y), z3.substitute(z3.substitute(v, (j, y)), (x, old(y))), old(y))
            arr = L.Lam(fn, srt)
            return self.arrpair(c, arr, rest, t)
        if k in ("cadd", "crem"):
            g0 = self.clean(u["g"], c)
            i0 = u["i"]
            g = lambda i, x: z3.substitute(g0, (j, i), (i0, x))
            cs0 = bi.need_cs(M, c.v0)
            a, b = z3.Int("!o1"), z3.Int("!o2")
            if k == "cadd":
                if valid(z3.Implies(g(a, b), a == b)):
                    fn = lambda x: z3.Or(L.zb(cs0.member(x)), z3.And(rest(x), g(x, x)))
                else:
                    pm = self.fresh_fn(t, [L.I], L.B)
                    self.post_fact(t, All("cand", lambda x: Iff(pm(x), Or_(L.zb(cs0.member(x)), Ex(it.kind, lambda i: And_(rest(i), g(i, x)))))))
                    fn = pm
            else:
                if valid(z3.Implies(z3.Not(g(a, b)), a == b)):
                    fn = lambda x: z3.And(L.zb(cs0.member(x)), z3.Implies(rest(x), g(x, x)))
                else:
                    pm = self.fresh_fn(t, [L.I], L.B)
                    self.post_fact(t, All("cand", lambda x: Iff(pm(x), And_(L.zb(cs0.member(x)), All(it.kind, lambda i: Imp(rest(i), g(i, x)))))))
                    fn = pm
            arr = L.Lam(fn, L.B)
            return [(c.p, arr)], c.mk(arr)
        if k == "nadd":
            prs, items = [], []
            for q, d in enumerate(u["deltas"]):
                d = self.clean(d, c)
                tr = cnd(it.cond(j)) is True
                v = L.tosort(num(c.v0.items[q]), L.R) + L.Sum(e_, lambda i: at(d, i) if tr else z3.If(cond(i), at(d, i), z3.RealVal(0)), it.kind, L.R)
                prs.append((c.ps[q], v))
                items.append(v)
            return prs, LList(items)
        if k == "app":
            cc = self.clean(u["cond"], c)
            v = self.clean(u["v"], c)
            tr = z3.is_true(cc) and cnd(it.cond(j)) is True
            elem = lambda i: subst(v, [(j, i)])
            if t is not None:
                return [], c.ph
            if isinstance(c.v0, LApp):
                raise Unsupported("list appended to in nested loops")
            own = is_z3(v) and v.eq(j)
            if tr and not own and is_num(v):
                return [], LSeq(it.N, elem, it.kind)
            return [], LFilt(it.N, lambda i: z3.And(cond(i), at(cc, i)), elem, it.kind, it.ordered, own)
        if k == "bag":
            if t is not None:
                return self.bag_before(c, t)
            adds = self.cleaned_adds(c, u)

            def new(*q):
                return Or_(*[Ex(it.kind, lambda i, pc=pc, tt=tt, ks=ks: And_(rest(i), at(pc, i), hit(q, tt, ks, [(j, i)]))) for pc, tt, ks in adds])
            return [], self.bag_final(c, u, new, adds)
        raise Unsupported(k)

    def cleaned_adds(self, c, u):
        return [(self.clean(pc, c), (lambda *q, tt=tt: self.clean(tt(*q), c)) if callable(tt) else [self.clean(x, c) for x in tt], ks) for pc, tt, ks in u["adds"]]

    def bag_before(self, c, t):
        """the collection before iteration t: its number of elements is an (unknown) function of t"""
        if not hasattr(c, "sizefn"):
            c.sizefn = z3.Function(f"sizebefore!{L.fuid()}", *([i.sort() for i in self.M.idx] + [x.sort() for x in t] + [L.I]))
        sz = c.sizefn(*(list(self.M.idx) + list(t)))
        return [(c.p, sz)], BagApp(c, sz, c.ph.typ, (), c.ph.shape)

    def inverse(self, tt):
        """pre-images of the elements added (see inverse)"""
        if callable(tt) or len(tt) != 1:
            return None
        key = ("inv", tt[0].get_id())
        if key not in self._cache:
            self._cache[key] = (inverse(self.M, self.dom, self.kinds, self.ts, tt), tt)
        return self._cache[key][0]

    def distinct(self, c, adds):
        """the elements added in different iterations are different, and there were none before"""
        o = c.v0
        if not (isinstance(o, (LList, SItems, DItems)) and not o.items) or len(adds) != 1 or not self.isdom or not getattr(self.it, "nodup", False):
            return False
        tt = adds[0][1]
        return not callable(tt) and (len(tt) == len(self.ts) and all(a.eq(b) for a, b in zip(tt, self.ts)) or self.inverse(tt) is not None)

    def bag_final(self, c, u, new, adds, distinct=False):
        if isinstance(c.v0, BagApp):
            # filled in an enclosing loop, too: the elements added here are described by a predicate
            o, sh = c.v0, u["shape"]
            if not adds:
                return o
            if o.typ in ("set", "dict") and not bi.canonical(sh):
                raise Unsupported("non-canonical elements in a set or as dict keys")
            kinds = bag_kinds(sh)
            size = self.M.fresh("size", "int")
            self.M.assume(size >= o.size)
            self.M.assume(Iff(size > 0, Or_(o.size > 0, quant(Ex, kinds, new))))
            deps = [x for x in [self.dom(*self.ts)] if is_z3(x)]
            for pc, tt, ks in u["adds"]:
                deps += [pc] + ([] if callable(tt) else list(tt))
            return BagApp(o.tok, size, o.typ, o.extra + (((sh, new, kinds), ("group", deps)),), bi.join_shape(o.shape, sh))
        b0 = bi.to_bag(self.M, c.v0)
        if isinstance(c.v0, DItems):
            b0 = Bag(lambda *t: False, None, "dict")
        if b0 is None:
            raise Unsupported("collection")
        sh = u["shape"]
        if c.typ in ("set", "dict") and sh is not None and not bi.canonical(sh):
            raise Unsupported("non-canonical elements in a set or as dict keys")
        size = self.M.fresh("size", "int")
        self.final_sizes = getattr(self, "final_sizes", {})
        self.final_sizes[c.loc] = size
        pred = (lambda *q: Or_(cnd(b0.pred(*q)), new(*q))) if b0.shape is not None else new
        r = Bag(pred, sh, c.typ, size, distinct or c.typ in ("set", "dict"))
        if sh is not None:
            self.M.assume(Iff(size > 0, bi.bag_nonempty(r)))
        self.M.assume(size >= 0)
        return r

    def bag_exit(self, c, M1, sub, ordered, st):
        """content of a collection when the loop is left early"""
        M = self.M
        u = self.info[c.loc]
        o = M.heap[c.loc[1]]
        if not isinstance(o, BagApp):
            return
        it = self.it
        ts = self.ts
        extra = [(sh, (lambda *q, tt=tt: subst(tt(*q), sub)) if callable(tt) else [subst(x, sub) for x in tt], ks) for (sh, tt, ks), how in M1.heap[c.loc[1]].extra]
        b0 = bi.to_bag(M, c.v0) if not isinstance(c.v0, DItems) else Bag(lambda *t: False, None, "dict")
        if b0 is None or isinstance(c.v0, BagApp):
            raise Unsupported("collection filled in nested loops")
        sh = u["shape"]
        for e in extra:
            sh = bi.join_shape(sh, e[0])
        kinds = bag_kinds(sh)
        adds = self.cleaned_adds(c, u)
        inv = [None if ordered else self.inverse(tt) for _, tt, _ in adds]
        # the iteration left early adds in the same way as those before
        distinct = self.distinct(c, adds) and len(extra) == 1 and not callable(extra[0][1]) and all(a.eq(subst(b, sub)) for a, b in zip(extra[0][1], adds[0][1]))

        def earlier(*q):
            parts = []
            for (pc, tt, ks), h in zip(adds, inv):
                def f(*t, pc=pc, tt=tt, ks=ks):
                    s2 = list(zip(ts, t))
                    g = [self.dom(*t), subst(pc, s2), hit(q, tt, ks, s2)]
                    if ordered:
                        g.append(t[0] < st[0])
                    return And_(*g)
                parts.append(image(self.kinds, ts, tt, f, q, h))
            return Or_(*parts) if parts else False
        size = subst(o.size, sub)
        if ordered:
            pred = lambda *q: Or_(cnd(b0.pred(*q)) if b0.shape is not None else False, earlier(*q), *[hit(q, tt, ks, []) for _, tt, ks in extra])
        else:
            P = z3.Function(f"part!{L.fuid()}", *([i.sort() for i in M.idx] + [L.SORT[kd] for kd in kinds] + [L.B]))
            idx = list(M.idx)
            M.assume(quant(All, kinds, lambda *q: Imp(P(*(idx + list(q))), Or_(cnd(b0.pred(*q)) if b0.shape is not None else False, earlier(*q),
                                                                              *[hit(q, tt, ks, []) for _, tt, ks in extra]))))
            for _, tt, ks in extra:
                if callable(tt):
                    M.assume(quant(All, kinds, lambda *q, tt=tt: Imp(tt(*q), P(*(idx + list(q))))))
                    continue
                M.assume(P(*(idx + list(tt))))
            pred = lambda *q: P(*(idx + list(q)))
        r = Bag(pred, sh, c.typ, size, distinct or c.typ in ("set", "dict"))
        M.assume(Iff(size > 0, bi.bag_nonempty(r)))
        M.heap[c.loc[1]] = r

    def closed_dom(self, c, t, u, k):
        M, it = self.M, self.it
        ts, kinds = self.ts, self.kinds
        if t is not None:
            return self.bag_before(c, t) if k == "bag" else ([], c.ph)
        if k == "bag":
            adds = self.cleaned_adds(c, u)
            inv = [self.inverse(tt) for _, tt, _ in adds]

            def new(*q):
                parts = []
                for (pc, tt, ks), h in zip(adds, inv):
                    if not callable(tt) and len(tt) == len(ts) and all(a.eq(b) for a, b in zip(tt, ts)):
                        parts.append(And_(self.dom(*q), subst(pc, list(zip(ts, q)))))
                        continue

                    def f(*x, pc=pc, tt=tt, ks=ks):
                        s2 = list(zip(ts, x))
                        return And_(self.dom(*x), subst(pc, s2), hit(q, tt, ks, s2))
                    parts.append(image(kinds, ts, tt, f, q, h))
                return Or_(*parts) if parts else False
            return [], self.bag_final(c, u, new, adds, self.distinct(c, adds))
        if k in ("max", "min"):
            e, cc = self.clean(u["e"], c), self.clean(u["c"], c)
            srt = c.p.sort()
            v0 = L.tosort(num(c.v0), srt)
            x = M.fresh("mx", srt)
            le = (lambda a, b: a <= b) if k == "max" else (lambda a, b: a >= b)
            at = lambda y, q: subst(y, list(zip(ts, q)))
            M.assume(le(v0, x))
            M.assume(quant(All, kinds, lambda *q: Imp(And_(self.dom(*q), at(cc, q)), le(at(e, q), x))))
            M.assume(Or_(x == v0, quant(Ex, kinds, lambda *q: And_(self.dom(*q), at(cc, q), at(e, q) == x))))
            return [(c.p, x)], x
        if k in ("or", "and"):
            cc = self.clean(u["c"], c)
            b = M.fresh("flag", L.B)
            at = lambda y, q: subst(y, list(zip(ts, q)))
            if k == "or":
                M.assume(Iff(b, Or_(L.zb(c.v0), quant(Ex, kinds, lambda *q: And_(self.dom(*q), at(cc, q))))))
            else:
                M.assume(Iff(b, And_(L.zb(c.v0), quant(All, kinds, lambda *q: Imp(self.dom(*q), at(cc, q))))))
            return [(c.p, b)], b
        return [], Opaque("loop")

    def arrpair(self, c, arr, rest, t):
        if c.sort == "map" and not c.domfix:
            i0, g0 = c.dg
            j = self.ts[0]
            g0 = self.clean(g0, c)
            a, b = z3.Int("!o1"), z3.Int("!o2")
            g = lambda i, x: z3.substitute(g0, (j, i), (i0, x))
            if not valid(z3.Implies(g(a, b), a == b)):
                self.force(c, "opaque")
            d0 = (lambda x: False) if isinstance(c.v0, DItems) else c.v0.dom
            darr = L.Lam(lambda x: z3.Or(L.zb(cnd(d0(x))), z3.And(rest(x), g(x, x))), L.B)
            return [(c.p, arr), (c.d, darr)], c.mk(lambda x: L.read(darr, x), arr)
        if c.sort == "map":
            return [(c.p, arr)], c.mk(c.v0.dom, arr)
        return [(c.p, arr)], c.mk(arr)

    def own_delta(self, c, u):
        if self.isdom or u["kind"] != "padd":
            return False
        j, i0 = self.ts[0], u["i"]
        return valid(z3.Implies(j != i0, u["delta"] == 0))

    def fresh_like(self, t, sort):
        M = self.M
        if t is None:
            return M.fresh("acc", sort)
        fn = z3.Function(f"acc!{L.fuid()}", *([i.sort() for i in M.idx] + [x.sort() for x in t] + [sort]))
        return fn(*(list(M.idx) + list(t)))

    def fresh_fn(self, t, args, sort):
        M = self.M
        pre = list(M.idx) + (list(t) if t is not None else [])
        fn = z3.Function(f"acc!{L.fuid()}", *([i.sort() for i in pre] + list(args) + [sort]))
        return lambda *x: fn(*(pre + list(x)))

    def post_fact(self, t, f):
        if t is None:
            self.M.assume(f)
        else:
            self.pre_facts = getattr(self, "pre_facts", [])
            self.M.assume(All(self.it.kind, lambda x: Imp(self.dom(x), subst(f, [(self.ts[0], x)]))) if t[0].eq(self.ts[0]) else f)

    def value(self, c, t, M1=None):
        return self.closed(c, t)[1]

    def apply_final(self, nexts):
        M, it = self.M, self.it
        latches = {}
        for loc in self.temps:
            put_loc(M, loc, POISON)
        for c in self.order:
            put_loc(M, c.loc, self.closed(c, None)[1])
        for c in self.cells.values():
            if c not in self.order:
                put_loc(M, c.loc, c.v0)
        for M1, out, pc in nexts:
            M.frozen |= M1.frozen & set(M.heap)
        for name, fn in self.kept_invs:
            M.assume(fn(self.state_view(M)))
        self.latch(nexts)
        self.rebound(nexts)

    def rebound(self, nexts):
        """a name bound to the same object in every iteration refers to it after the loop, if there is an iteration"""
        M = self.M
        some = None
        for loc in self.temps:
            if loc[0] != "name" or not nexts or loc[1] not in M.frames or get_loc(M, loc) is not POISON:
                continue
            vals = [get_loc(M1, loc) for M1, _, _ in nexts]
            v = vals[0]
            if isinstance(v, Ref) and v.rid in M.heap and all(isinstance(x, Ref) and x.rid == v.rid for x in vals):
                if some is None:
                    # (while the kinds of the changed objects are determined, this is assumed)
                    some = M.S.optimistic() or M.prove(quant(Ex, self.kinds, lambda *t: self.dom(*t)), timeout=3000)[0] == "proved"
                if some:
                    put_loc(M, loc, v)

    def latch(self, nexts):
        """names assigned exactly when a running maximum/minimum is updated keep the value of a best iteration"""
        M, it = self.M, self.it
        names = [loc for loc in self.temps if loc[0] == "name" and loc[1] in M.frames]
        for c in self.order:
            u = self.info[c.loc]
            if u["kind"] not in ("max", "min"):
                continue
            comp = []
            for loc in names:
                v = self.dry_vals(loc, c)
                if v is not None:
                    comp.append((loc, v))
            if not comp:
                continue
            e, cc = self.clean(u["e"], c), self.clean(u["c"], c)
            x = get_loc(M, c.loc)
            v0 = L.tosort(num(c.v0), c.p.sort())
            st = [M.fresh("best", kd) for kd in self.kinds]
            sub = list(zip(self.ts, st))
            # the companion has the value of a best iteration if some iteration improves on the initial value
            better = (x > v0) if u["kind"] == "max" else (x < v0)
            M.assume(Imp(better, And_(self.dom(*st), subst(cc, sub), subst(e, sub) == x)))
            for loc, v in comp:
                nv = subst(v, sub)
                old = self.v0s.get(loc, POISON)
                if is_num(nv):
                    r = M.fresh("companion", nv.sort() if is_z3(nv) else L.I)
                    M.assume(Imp(better, r == nv))
                    if is_num(old):
                        M.assume(Imp(Not_(better), r == old))
                    put_loc(M, loc, r)

    def dry_vals(self, loc, c):
        """value assigned to a name exactly in the iterations that update the maximum c"""
        own = self.cell_consts(c)
        u = self.info[c.loc]
        upd = []
        for M1, pc in self.nxt:
            v = M1.frames.get(loc[1], {}).get(loc[2], POISON)
            x1 = get_loc(M1, c.loc)
            changed = not (is_z3(x1) and x1.eq(c.p))
            if (v is not POISON) != changed:
                return None
            if changed:
                upd.append((conj([b for b in branches(M1, M1.base0) if not L.mentions(b, own)]), v))
        if not upd:
            return None
        v = merge(upd)
        return self.clean(v, c) if is_z3(v) else v


# ------------------------------------------------------------------------------------------------ loops with invariants
def exec_while(M, s):
    # concrete conditions: unrolled
    for _ in range(64):
        st = M.fork()
        t = M.truth(M.eval(s.test))
        if isinstance(t, F) or is_z3(t) and not (z3.is_true(z3.simplify(t)) or z3.is_false(z3.simplify(t))) or \
                (t is True and any(True for _ in M.S.loop_specs)) or not isinstance(t, bool):
            for spec in M.S.loop_specs:
                if spec.while_loop(M, s):
                    return
            if is_z3(t) and not isinstance(t, F):
                t = z3.simplify(t)
                if z3.is_false(t):
                    break
                if z3.is_true(t):
                    t = True
            if t is not True:
                raise Unsupported("while loop without invariant")
        if t is False:
            break
        try:
            M.exec_block(s.body)
        except BreakEx:
            return
        except ContinueEx:
            continue
    else:
        raise Unsupported("while loop")
    M.exec_block(s.orelse)


def inverse(M, dom, kinds, ts, terms):
    """the function mapping images to pre-images, if the elements of the domain have different images; else None"""
    if len(ts) != 1 or callable(terms) or len(terms) != 1 or kinds != ["com"]:
        return None
    h = preimage(terms[0], ts[0])
    if h is None:
        return None
    f = All("com", lambda u: Imp(cnd(dom(u)), h(subst(terms[0], [(ts[0], u)])) == u))
    return h if M.prove(f)[0] == "proved" else None


def image(kinds, ts, terms, f, q, h):
    """some element u satisfies f(u) (f includes: u is in the domain, q is the image of u)"""
    return f(h(q[0])) if h is not None else quant(Ex, kinds, f)


def hit(q, tt, ks, pairs):
    """q is an added element: tt are its terms, or a predicate describing several added elements"""
    if callable(tt):
        return subst1(tt, pairs, *q) if pairs else tt(*q)
    return same_terms(q, [subst(x, pairs) for x in tt] if pairs else tt, ks)


class InvSpec:
    """candidate invariants for loops.  cands(ctx) -> [(name, fn(view) -> formula)]; ctx: the InvLoop;
    view[loc] is the (dereferenced) value of a changed location, view.j the number of finished iterations,
    view.done the predicate of processed elements"""

    def __init__(self, cands, applies=None, kind=None):
        self.cands, self.applies, self.kind = cands, applies, kind

    def for_loop(self, M, s, it):
        if self.kind == "while" or it.concrete is not None:
            return False
        if self.kind == "dom" and it.dom is None or self.kind == "for" and it.dom is not None:
            return False
        if self.applies is not None and not self.applies(M, s, it):
            return False
        InvLoop(M, s, it, self).run()
        return True

    def while_loop(self, M, s):
        if self.kind not in (None, "while"):
            return False
        if self.applies is not None and not self.applies(M, s, None):
            return False
        InvLoop(M, s, None, self).run()
        return True


class View:
    def __init__(self, M, locs, j=None, done=None):
        self.M, self.j, self.done = M, j, done
        self.vals = {}
        for loc in locs:
            v = M.deref(get_loc(M, loc))
            if isinstance(v, LSorted):
                try:
                    v = bi.sorted_seq(M, v)
                except Unsupported:
                    pass
            self.vals[loc] = v

    def __getitem__(self, loc):
        return self.vals[loc]


class Template:
    """kind of value of a location at the head of a loop"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw

    def same(self, o):
        return self.kind == o.kind and all(same_tv(self.kw.get(a), o.kw.get(a)) for a in set(self.kw) | set(o.kw) if a != "cls")

    def __repr__(self):
        return f"{self.kind}{self.kw}"


def same_tv(a, b):
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_tv(x, y) for x, y in zip(a, b))
    if is_z3(a) or is_z3(b):
        return False
    return a == b


def template(M, v, entry=False):
    o = M.deref(v)
    if isinstance(o, bool) or is_z3(o) and z3.is_bool(o):
        return Template("bool")
    if is_num(o):
        return Template("num", sort="I" if isinstance(o, int) or is_z3(o) and o.sort() == L.I else "R")
    if isinstance(o, TCom):
        return Template("tcom", sorted=o.sorted)
    if isinstance(o, LCom):
        return Template("lcom", sorted=o.sorted)
    if isinstance(o, SCom):
        return Template("scom", cls=o.cls)
    if isinstance(o, LSeq):
        pr = o.get(z3.Int("!probe"))
        if is_num(pr):
            return Template("arr", n=L.simp(o.n), kind_=o.kind)
        return Template("opaque")
    if isinstance(o, LSorted):
        return Template("arr", n=L.simp(bi.length(M, o)), kind_=bi.src_parts(o.src)[3])
    if isinstance(o, DMap):
        pr = o.get(z3.Int("!probe"))
        if is_num(pr):
            return Template("map", N=o.N, kind_=o.kind)
        return Template("opaque")
    if isinstance(o, Bag):
        return Template("bag", typ=o.typ, shape=o.shape)
    if isinstance(o, (tuple,)) and not o:
        return Template("tcom", sorted=True)
    if isinstance(o, LList) and not o.items:
        return Template("emptylist")
    if isinstance(o, SItems) and not o.items:
        return Template("emptyset")
    if isinstance(o, DItems) and not o.items:
        return Template("emptydict")
    if isinstance(o, (LList, tuple, SItems)):
        items = o if isinstance(o, tuple) else o.items
        if all(is_z3(x) and x.sort() == L.I for x in items):
            if bi.as_cs(M, o) is not None:
                return Template("scom", cls="set") if isinstance(o, SItems) else Template("tcom" if isinstance(o, tuple) else "lcom", sorted=len(items) <= 1)
        if all(is_num(x) for x in items) and isinstance(o, LList):
            return Template("arr", n=z3.IntVal(len(items)), kind_="pos")
        if isinstance(o, (LList, SItems)) and not all(is_num(x) for x in items):
            try:
                b = bi.to_bag(M, v)
            except Unsupported:
                b = None
            if b is not None:
                return Template("bag", typ="set" if isinstance(o, SItems) else "list", shape=b.shape)
        return Template("opaque")
    if isinstance(o, LFilt):
        try:
            b = bi.to_bag(M, v)
        except Unsupported:
            b = None
        if b is not None:
            return Template("bag", typ="list", shape=b.shape)
        if o.own:
            return Template("lcom", sorted=o.ordered)
    if o is None:
        return Template("none")
    return Template("opaque")


def join(a, b):
    if a is None:
        return b
    if b is None or a.same(b):
        return a
    for x, y in ((a, b), (b, a)):
        if x.kind == "emptylist" and y.kind in ("lcom", "bag", "arr"):
            if y.kind == "bag" and y.kw["typ"] != "list" or y.kind == "arr":
                continue
            return y
        if x.kind == "emptyset" and (y.kind == "scom" or y.kind == "bag" and y.kw["typ"] == "set"):
            return y
        if x.kind == "emptydict" and (y.kind == "map" or y.kind == "bag" and y.kw["typ"] == "dict"):
            return y
    if a.kind == b.kind:
        if a.kind == "num":
            return Template("num", sort="R")
        if a.kind in ("tcom", "lcom"):
            return Template(a.kind, sorted=a.kw["sorted"] and b.kw["sorted"])
        if a.kind == "scom":
            return Template("scom", cls="set")
        if a.kind == "bag" and a.kw["typ"] == b.kw["typ"]:
            try:
                return Template("bag", typ=a.kw["typ"], shape=bi.join_shape(a.kw["shape"], b.kw["shape"]))
            except Unsupported:
                return Template("opaque")
    return Template("opaque")


def havoc(M, t, name="h"):
    """arbitrary value of the kind"""
    kd = t.kind
    if kd == "bool":
        return M.fresh(name, L.B)
    if kd == "num":
        return M.fresh(name, L.I if t.kw["sort"] == "I" else L.R)
    if kd in ("tcom", "lcom", "scom"):
        a = M.fresh(name, "com")
        M.assume(All("int", lambda c: z3.Implies(a[c], z3.And(c >= 0, c < L.m))))
        if kd == "tcom":
            return TCom(CS(arr=a), t.kw["sorted"])
        return M.new(LCom(CS(arr=a), t.kw["sorted"]) if kd == "lcom" else SCom(CS(arr=a), t.kw["cls"]))
    if kd == "arr":
        a = M.fresh(name, "rarr")
        return M.new(LSeq(t.kw["n"], lambda i: L.read(a, i), t.kw["kind_"]))
    if kd == "map":
        a = M.fresh(name, "rarr")
        N = t.kw["N"]
        if N is not None:
            return M.new(DMap(lambda i: z3.And(i >= 0, i < N), lambda i: L.read(a, i), t.kw["kind_"], N))
        d = M.fresh(name, "com")
        return M.new(DMap(lambda i: L.read(d, i), lambda i: L.read(a, i), t.kw["kind_"], N))
    if kd == "bag":
        sh = t.kw["shape"]
        if sh is None:
            return M.new({"list": LList(()), "set": SItems(()), "dict": DItems({})}[t.kw["typ"]])
        kinds = bag_kinds(sh)
        P = z3.Function(f"{name}!{L.fuid()}", *([i.sort() for i in M.idx] + [L.SORT[k_] for k_ in kinds] + [L.B]))
        idx = list(M.idx)
        size = M.fresh("size", "int")
        r = Bag(lambda *q: P(*(idx + list(q))), sh, t.kw["typ"], size, t.kw["typ"] in ("set", "dict"), (lambda *q: Opaque()) if t.kw["typ"] == "dict" else None)
        M.assume(size >= 0)
        M.assume(Iff(size > 0, bi.bag_nonempty(r)))
        return M.new(r)
    if kd == "emptylist":
        return M.new(LList(()))
    if kd == "emptyset":
        return M.new(SItems(()))
    if kd == "emptydict":
        return M.new(DItems({}))
    if kd == "none":
        return None
    return Opaque("loop")


def refs_in(x):
    """references contained in a value"""
    if isinstance(x, Ref):
        return {x.rid}
    if isinstance(x, (tuple, list)):
        return set().union(*[refs_in(y) for y in x]) if x else set()
    if isinstance(x, (LList, SItems)):
        return refs_in(tuple(x.items))
    if isinstance(x, DItems):
        return refs_in(tuple(x.items.values()))
    if isinstance(x, OObj):
        return refs_in(tuple(x.attrs.values()))
    if isinstance(x, PartialV):
        return refs_in(tuple(x.args) + tuple(x.kw.values()))
    return set()


def is_nodup(M, v):
    o = M.deref(v)
    if isinstance(o, (LList, SItems)) and len(o.items) <= 1:
        return True
    return isinstance(o, Bag) and bool(o.nodup)


class InvLoop:
    def __init__(self, M, s, it, spec):
        self.M, self.s, self.it, self.spec = M, s, it, spec
        self.isdom = it is not None and it.dom is not None
        self.templates = {}      # loc -> Template
        self.nodups = {}         # loc -> the list is assumed (and checked) to contain no committee twice

    def run(self):
        M = self.M
        key = M.key(("loop", id(self.s)))
        hit = M.S.loopcache.get(key)
        if hit is None:
            opts = decisions(M, self.options())
            hit = (opts, L.fcount())
            if not M.S.assumed:
                M.S.loopcache[key] = hit
        continue_with(M, self.s, hit)

    # one iteration from the havocked state
    def explore(self, dry, kept=(), havocked=True):
        M, it, s = self.M, self.it, self.s
        if dry:
            M.S.dry += 1

        def setup(M1):
            self.pre(M1, havocked)
            for name, fn in kept:
                M1.assume(fn(M1.view0))
            if it is not None:
                if self.isdom:
                    kinds = bag_kinds(it.shape)
                    ts = [M1.fresh("T", kd) for kd in kinds]
                    M1.assume(cnd(it.dom(*ts)))
                    if getattr(it, "nodup", False) and M1.view0.done is not None:
                        M1.assume(Not_(M1.view0.done(*ts)))
                    M1.cur_el = ts
                else:
                    j = M1.view0.j if M1.view0.j is not None else M1.fresh("J", "pos")
                    M1.assume(z3.And(j >= 0, j < it.N))
                    c = cnd(it.cond(j))
                    if c is not True:
                        M1.assume(c)
                    M1.pool(it.kind, j)
                    M1.cur_el = (j,)
            M1.start = (dict(M1.heap), {a: dict(b) for a, b in M1.frames.items()})
            M1.base0 = len(M1.pc)

        def thunk(M1):
            if it is None:
                if not M1.branch(M1.truth(M1.eval(s.test))):
                    return "exit"
            else:
                v = (it.elem(*M1.cur_el) if it.elem else from_bag_elem(M1, it.shape, M1.cur_el)) if self.isdom else it.elem(M1.cur_el[0])
                M1.assign(s.target, v)
            M1.exec_block(s.body)
            return "next"
        try:
            return M.explore(thunk, setup)
        finally:
            if dry:
                M.S.dry -= 1

    def pre(self, M1, havocked):
        """state at the head of the loop"""
        for loc in self.temps:
            put_loc(M1, loc, POISON)
        if havocked:
            for loc, t in self.templates.items():
                self.put(M1, loc, t)
        j = done = None
        if self.it is not None:
            if self.isdom:
                kinds = bag_kinds(self.it.shape)
                D = z3.Function(f"done!{L.fuid()}", *([i.sort() for i in M1.idx] + [L.SORT[k_] for k_ in kinds] + [L.B]))
                idx = list(M1.idx)
                done = lambda *q: D(*(idx + list(q)))
                M1.assume(quant(All, kinds, lambda *q: Imp(done(*q), cnd(self.it.dom(*q)))))
            elif self.it.ordered and cnd(self.it.cond(z3.Int("!probe"))) is True:
                j = M1.fresh("J", "pos")
        M1.view0 = View(M1, self.templates, j, done)

    def put(self, M1, loc, t):
        v = havoc(M1, t)
        if self.nodups.get(loc) and isinstance(v, Ref) and isinstance(M1.heap[v.rid], Bag):
            M1.heap[v.rid].nodup = True
        if loc[0] == "name":
            put_loc(M1, loc, v)
        else:
            put_loc(M1, loc, M1.heap[v.rid] if isinstance(v, Ref) else v)

    def view_end(self, M1):
        j, done = M1.view0.j, M1.view0.done
        if j is not None:
            j = j + 1
        if done is not None:
            d0, el = done, M1.cur_el
            kinds = bag_kinds(self.it.shape)
            done = lambda *q: Or_(d0(*q), same_terms(q, el, kinds))
        return View(M1, self.templates, j, done)

    def discover(self):
        M = self.M
        tgt = set()
        if self.it is not None:
            tgt = {("name", M.cur, nd.id) for nd in ast.walk(self.s.target) if isinstance(nd, ast.Name)}
        self.temps = set(tgt)
        changed_names = set()
        for _ in range(25):
            try:
                M.S.discovering += 1
                try:
                    paths = self.explore(True)
                finally:
                    M.S.discovering -= 1
                    if not M.S.discovering:
                        M.S.assumed = False
            except ReadPoison as e:
                loc = ("name",) + e.name
                if loc not in tgt and (e.name[0] not in M.frames or get_loc(M, loc) is POISON):
                    raise
                if loc in self.temps and loc not in tgt:
                    self.temps.discard(loc)
                    self.templates[loc] = template(M, get_loc(M, loc))
                    continue
                raise Unsupported(f"variable {e.name[1]} may be read before it is assigned")
            new = False
            for M1, out in paths:
                if out[0] != "next" or out[1] == "exit":
                    continue
                St = Machine(M.S)
                St.heap, St.frames = M1.start
                for loc in diff(St, M1):
                    if loc in self.temps:
                        continue
                    if loc[0] == "ref" and loc[1] not in M.heap:
                        continue        # an object created for the value of a variable at the loop head
                    if loc not in self.templates:
                        new = True
                        if loc[0] == "name":
                            self.temps.add(loc)
                        else:
                            self.templates[loc] = template(M, M.heap[loc[1]]) if loc[1] in M.heap else Template("opaque")
                if out[0] != "next":
                    continue
                for loc, t in list(self.templates.items()):
                    t2 = template(M1, get_loc(M1, loc))
                    jt = join(t, t2)
                    if not jt.same(t):
                        new = True
                        self.templates[loc] = jt
            if not new:
                # a name that was assigned before the loop and is assigned in it is kept as state as well
                upgraded = False
                for loc in list(self.temps):
                    if loc in tgt or loc[0] != "name":
                        continue
                    v0 = get_loc(M, loc)
                    if v0 is not POISON and loc not in changed_names:
                        changed_names.add(loc)
                        self.temps.discard(loc)
                        self.templates[loc] = template(M, v0)
                        upgraded = True
                if upgraded:
                    continue
                for M1, out in paths:
                    if any(("ref", r) in self.templates for r in M1.frozen - M.frozen if r in M.heap):
                        raise Unsupported("object stored in a collection is changed in a later iteration")
                return paths
        raise Unsupported("loop discovery")

    def drop_owned(self):
        """a variable that gets a new value at the loop head must not share its initial object with another one"""
        M = self.M
        for loc in list(self.templates):
            if loc[0] != "name":
                continue
            v = get_loc(M, loc)
            if not isinstance(v, Ref) or M.heap.get(v.rid) is None:
                continue
            uses = sum(1 for fr in M.frames.values() for x in fr.values() if v.rid in refs_in(x))
            uses += sum(1 for r, o in M.heap.items() if v.rid in refs_in(o))
            if uses > 1:
                raise Unsupported(f"variable {loc[2]} shares its object with another variable")
            self.templates.pop(("ref", v.rid), None)

    def options(self):
        M, it, s = self.M, self.it, self.s
        self.discover()
        self.drop_owned()
        cands = self.spec.cands(self)
        # initially
        j0 = z3.IntVal(0) if it is not None and not self.isdom else None
        Mi = M.fork()
        v0 = View(Mi, self.templates, j0, (lambda *q: False) if self.isdom else None)
        tmo = M.S.inv_timeout
        kept, dropped = [], []
        for name, fn in cands:
            try:
                f = fn(v0)
            except Unsupported:
                continue
            if M.prove(f, timeout=tmo)[0] == "proved":
                kept.append((name, fn))
            else:
                dropped.append((name, "not established"))
        for loc, t in self.templates.items():
            if t.kind == "bag" and t.kw["typ"] == "list":
                self.nodups[loc] = is_nodup(Mi, get_loc(Mi, loc))
        paths = None
        while True:
            paths = self.explore(True, kept)
            bad = {}
            for loc in [l for l, x in self.nodups.items() if x]:
                for M1, out in paths:
                    if out[0] == "next" and out[1] != "exit" and not is_nodup(M1, get_loc(M1, loc)):
                        self.nodups[loc] = False
                        bad[f"{loc[-1]} has no duplicates"] = "not preserved"
                        break
            for name, fn in kept:
                for M1, out in paths:
                    if out[0] != "next" or out[1] == "exit":
                        continue
                    try:
                        f = fn(self.view_end(M1))
                    except Unsupported as e:
                        bad[name] = str(e)
                        break
                    st, info = M1.prove(f, timeout=tmo)
                    if st != "proved":
                        st, info = M1.prove(f, timeout=tmo, rounds=3)
                    if st != "proved":
                        bad[name] = f"not preserved ({st})"
                        break
            if not bad:
                break
            dropped += list(bad.items())
            kept = [(a, b) for a, b in kept if a not in bad]
        self.kept, self.dropped = kept, dropped
        M.S.invs.append({"loop": f"line {s.lineno}", "kept": [a for a, _ in kept], "dropped": dropped})
        if M.S.verbose:
            print("  loop", s.lineno, "kept:", [a for a, _ in kept], "dropped:", dropped, {str(a): b for a, b in self.templates.items()})
        # obligations inside the body, early exits
        real = self.explore(False, kept)
        opts = []
        # normal end
        Mo = M.fork()
        self.pre(Mo, True)
        if it is not None and not self.isdom:
            Nn = z3.If(it.N > 0, it.N, z3.IntVal(0))
            if Mo.view0.j is not None:
                Mo.assume(Mo.view0.j == Nn)
        if self.isdom:
            Mo.view0 = View(Mo, self.templates, None, lambda *q: cnd(it.dom(*q)))
        for name, fn in kept:
            Mo.assume(fn(Mo.view0))
        for loc in self.temps:
            put_loc(Mo, loc, POISON)
        if it is not None:
            opts.append((Mo, ("next", None)))
        else:
            for M1, out in real:
                if out[0] == "next" and out[1] == "exit":
                    Me = M.fork()
                    Me.become(M1)
                    if not Me.impossible():
                        opts.append((Me, ("next", None)))
        for M1, out in real:
            if out[0] == "next":
                continue
            Me = M.fork()
            Me.become(M1)
            if Me.impossible():
                continue
            opts.append((Me, out))
        for M1, out in real:
            for Mx, _ in opts:
                Mx.frozen |= M1.frozen & set(M.heap)
        return opts
