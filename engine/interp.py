"""Symbolic execution of the functions of /repo (read as ast on every run).

One Machine = one path.  `explore` enumerates the paths of a piece of code by re-execution with a list of decisions.
Loops over symbolic collections are summarised (loops.py) or checked against invariants given by a contract."""
import ast
import fractions
import os
import types

import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Iff, Imp, Not_, Or_, is_z3, simp
from engine.values import *
from engine.values import subst


class Infeasible(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Retry(Exception):
    """the symbolic execution is repeated with a coarser description of the objects changed by a statement"""


class RaiseEx(Exception):
    def __init__(self, exc, node=None):
        self.exc, self.node = exc, node


class ReadPoison(Exception):
    def __init__(self, name):
        self.name = name


class Tree:
    """parsed modules of the repository"""

    def __init__(self, repo):
        self.repo = repo
        self.mods = {}
        self.defs = {}
        d = os.path.join(repo, "abcvoting")
        for f in sorted(os.listdir(d)):
            if f.endswith(".py"):
                name = f[:-3]
                src = open(os.path.join(d, f)).read()
                self.mods[name] = ast.parse(src)
                tab = {}
                self._scan(self.mods[name].body, tab)
                self.defs[name] = tab

    def _scan(self, body, tab):
        for nd in body:
            if isinstance(nd, (ast.FunctionDef, ast.ClassDef)):
                tab[nd.name] = nd
            elif isinstance(nd, ast.Assign):
                for t in nd.targets:
                    if isinstance(t, ast.Name):
                        tab[t.id] = nd
            elif isinstance(nd, (ast.Import, ast.ImportFrom)):
                for a in nd.names:
                    nm = (a.asname or a.name).split(".")[0]
                    if nm not in tab:
                        tab[nm] = (nd, a)
            elif isinstance(nd, ast.Try):
                self._scan(nd.body, tab)


EXC_BASE = {"ValueError": "Exception", "RuntimeError": "Exception", "TypeError": "Exception", "KeyError": "LookupError",
            "IndexError": "LookupError", "LookupError": "Exception", "NotImplementedError": "RuntimeError",
            "ImportError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
            "AssertionError": "Exception", "AttributeError": "Exception", "StopIteration": "Exception", "Exception": None, "FileNotFoundError": "Exception"}
BUILTINS = {"len", "range", "sum", "min", "max", "sorted", "list", "tuple", "set", "dict", "zip", "enumerate", "reversed",
            "all", "any", "isinstance", "str", "int", "float", "abs", "map", "repr", "print", "type", "frozenset", "bool", "super", "next", "iter", "round", "callable", "hasattr", "getattr"}


class Session:
    """verification of one function: contracts of callees, obligations, hints"""

    def __init__(self, tree, contracts=None, loop_specs=(), cand_invs=(), axioms=(), timeout=10000):
        self.tree = tree
        self.contracts = contracts or {}
        self.loop_specs = list(loop_specs)
        self.cand_invs = list(cand_invs)
        self.axioms = list(axioms)
        self.obligations = []
        self.timeout = timeout
        self.discovering = 0
        self.stmt = None
        self.untyped = set()        # statements whose list may get repeated elements (learned; the run is repeated)
        self.assumed = False
        self.dry = 0
        self.used = set()       # inlined functions
        self.called = set()     # functions used by contract
        self.notes = []
        self.module_consts = {}
        self.fcache = {}
        self.loopcache = {}
        self.obcache = {}
        self.invs = []
        self.verbose = False
        self.inv_timeout = 4000
        self.constarrays = {}
        self.uniq = {}

    def retry(self, stmt):
        self.untyped.add(stmt)
        raise Retry()

    def optimistic(self):
        """assume that a loop has an iteration: only while the kinds of the objects changed by an enclosing loop are determined"""
        if self.discovering:
            self.assumed = True
            return True
        return False

    def record(self, ob):
        self.obligations.append(ob)


class Machine:
    def __init__(self, session):
        self.S = session
        self.heap = {}
        self.frames = {}
        self.pc = []            # (kind, formula): kind 'branch' | 'fact'
        self.pools = {}
        self.memo = set()       # definitions already on this path
        self.idx = ()           # active loop indices
        self.dec, self.pos, self.alts = [], 0, []
        self.cur = None
        self.next_id = 1
        self.module = None
        self.depth = 0
        self.ctx = ()
        self.frozen = set()     # objects stored in symbolic collections
        self.protected = set()  # heap objects that must not be written (frame condition)
        self.g = types.SimpleNamespace()    # ghost state of the specification

    # ------------------------------------------------------------------ state
    def fork(self):
        M = Machine(self.S)
        M.heap = dict(self.heap)
        M.frames = {a: dict(b) for a, b in self.frames.items()}
        M.pc = list(self.pc)
        M.pools = {a: list(b) for a, b in self.pools.items()}
        M.idx = self.idx
        M.cur, M.next_id, M.module, M.depth = self.cur, self.next_id, self.module, self.depth
        M.protected = set(self.protected)
        M.frozen = set(self.frozen)
        M.ctx = self.ctx
        M.g = self.g
        M.memo = set(self.memo)
        return M

    def key(self, tag):
        """identifies a point of the (deterministic) symbolic execution"""
        return (self.ctx, tuple(self.dec[:self.pos]), L.fcount(), self.S.dry > 0, tag)

    def impossible(self):
        return L.prove(self.facts(), False, self.pools, (), 1000, 0, quick=True)[0] == "proved"

    def become(self, M):
        self.heap, self.frames, self.pc, self.pools, self.idx = M.heap, M.frames, M.pc, M.pools, M.idx
        self.next_id = max(self.next_id, M.next_id)
        self.frozen, self.protected = set(M.frozen), set(M.protected)
        self.memo = set(M.memo)

    def new(self, obj):
        r = Ref(self.next_id * 1000 + len(self.idx))
        self.next_id += 1
        while r.rid in self.heap:
            r = Ref(self.next_id * 1000 + len(self.idx))
            self.next_id += 1
        self.heap[r.rid] = obj
        return r

    def obj(self, ref):
        return self.heap[ref.rid]

    def write(self, ref, obj):
        if not isinstance(ref, Ref):
            raise Unsupported("write to a value that is not a tracked object")
        if ref.rid in self.protected:
            self.oblige("frame: protected object is not modified", False)
        if ref.rid in self.frozen:
            raise Unsupported("object stored in a collection is modified through an alias")
        self.heap[ref.rid] = obj

    def deref(self, v):
        return self.heap[v.rid] if isinstance(v, Ref) else v

    def fresh(self, name, kind_or_sort="int"):
        sort = L.SORT.get(kind_or_sort, kind_or_sort) if isinstance(kind_or_sort, str) else kind_or_sort
        nm = f"{name}!{L.fuid()}"
        if self.idx:
            t = z3.Function(nm, *([i.sort() for i in self.idx] + [sort]))(*self.idx)
        else:
            t = z3.Const(nm, sort)
        if isinstance(kind_or_sort, str) and kind_or_sort in L.SORT:
            self.pool(kind_or_sort, t)
            if self.idx:
                L.FKIND[nm] = kind_or_sort
            if kind_or_sort in ("cand", "voter", "pos"):
                self.assume(L.rng(kind_or_sort, t))
            if kind_or_sort == "com":
                self.assume(L.typed_com(t))
        return t

    def uniq(self, name, kind, terms):
        """a symbol for a value determined by the terms (the same symbol whenever the terms are the same);
        -> (symbol, whether its definition is known on this path already)"""
        sort = L.SORT.get(kind, kind) if isinstance(kind, str) else kind
        key = (name, tuple(t.sexpr() if is_z3(t) else repr(t) for t in terms))
        nm = f"{name}!u{self.S.uniq.setdefault(key, len(self.S.uniq))}"
        idx = [i for i in self.idx if any(is_z3(t) and L.mentions(t, [i]) for t in terms)]
        t = z3.Function(nm, *([i.sort() for i in idx] + [sort]))(*idx) if idx else z3.Const(nm, sort)
        known = nm in self.memo
        if not known:
            self.memo.add(nm)
            if isinstance(kind, str) and kind in L.SORT:
                self.pool(kind, t)
                L.FKIND[nm] = kind
                if kind in ("cand", "voter", "pos"):
                    self.assume(L.rng(kind, t))
        return t, known

    def pool(self, kind, t):
        self.pools.setdefault(kind, []).append(t)

    def assume(self, f):
        self.pc.append(("fact", f))

    def facts(self):
        return [f for _, f in self.pc]

    # ------------------------------------------------------------------ decisions
    def choose(self, nopt):
        """nondeterministic choice among nopt options (all are explored)"""
        if nopt == 1:
            return 0
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            for o in range(nopt - 1, 0, -1):
                self.alts.append(self.dec[:self.pos] + [o])
            self.dec = self.dec[:self.pos] + [0]
            self.pos += 1
            d = 0
        t = self.fresh("choice", L.I)
        self.pc.append(("branch", t == d))
        return d

    def feasible(self, extra=None):
        key = tuple(f.get_id() for f in self.facts() if is_z3(f)) + ((extra.get_id(),) if is_z3(extra) else ())
        hit = self.S.fcache.get(key)
        if hit is not None:
            return hit[0]
        s = z3.Solver()
        s.set("timeout", 400)
        keep = [f for f in self.facts() if is_z3(f)] + ([extra] if is_z3(extra) else [])
        s.add(*keep)
        r = s.check() != z3.unsat
        self.S.fcache[key] = (r, keep)
        return r

    def branch(self, c):
        """truth value of a condition on this path"""
        if isinstance(c, bool):
            return c
        if is_z3(c):
            c = z3.simplify(c)
            if z3.is_true(c):
                return True
            if z3.is_false(c):
                return False
        elif isinstance(c, F):
            b = self.fresh("cond", L.B)
            self.assume(Iff(b, c))
            c = b
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
            self.pos += 1
        else:
            nc = z3.Not(c) if is_z3(c) else None
            pos_ok = self.feasible(c) if is_z3(c) else True
            neg_ok = self.feasible(nc) if is_z3(c) else True
            if not pos_ok and not neg_ok:
                raise Infeasible()
            if pos_ok and neg_ok:
                self.alts.append(self.dec[:self.pos] + [False])
                d = True
            else:
                d = pos_ok
            self.dec = self.dec[:self.pos] + [d]
            self.pos += 1
        self.pc.append(("branch", c if d else (z3.Not(c) if is_z3(c) else Not_(c))))
        return d

    def explore(self, thunk, setup=None, limit=400):
        """all paths of thunk(M) from the current state; -> list of (M, outcome)"""
        res = []
        stack = [[]]
        ctx = self.key("x")
        f0 = fmax = L.fcount()
        while stack:
            dec = stack.pop()
            fmax = max(fmax, L.fcount())
            L.set_fcount(f0)
            M = self.fork()
            M.dec, M.pos, M.alts = dec, 0, stack
            M.ctx = ctx
            M.base_pc = len(M.pc)
            try:
                if setup:
                    setup(M)
                out = ("next", thunk(M))
            except Infeasible:
                continue
            except ReturnEx as e:
                out = ("return", e.value)
            except BreakEx:
                out = ("break", None)
            except ContinueEx:
                out = ("next", None)
            except RaiseEx as e:
                out = ("raise", e)
            res.append((M, out))
            if len(res) > limit:
                raise Unsupported("too many paths")
        L.set_fcount(max(fmax, L.fcount()))
        return res

    # ------------------------------------------------------------------ obligations
    def prove(self, goal, comb=(), timeout=None, rounds=2, extra=()):
        if isinstance(goal, bool) and goal:
            return "proved", ""
        if is_z3(goal):
            g = z3.simplify(goal)
            if z3.is_true(g):
                return "proved", ""
        return L.prove(self.facts() + list(extra), goal, self.pools, self.S.axioms, timeout or self.S.timeout, rounds, comb)

    def oblige(self, name, goal, comb=(), assume=True, rounds=2):
        if self.S.dry:
            if assume:
                self.assume(goal)
            return True
        key = self.key(("ob", name))
        if key in self.S.obcache:
            if assume:
                self.assume(goal)
            return self.S.obcache[key]
        st, info = self.prove(goal, comb, rounds=rounds)
        if st != "proved" and rounds < 3:
            st, info = self.prove(goal, comb, rounds=3)
        self.S.record({"name": name, "status": st, "info": info})
        self.S.obcache[key] = st == "proved"
        if assume:
            self.assume(goal)
        return st == "proved"

    # ------------------------------------------------------------------ statements
    def exec_block(self, body):
        for s in body:
            self.exec_(s)

    def exec_(self, s):
        old, self.S.stmt = self.S.stmt, s
        try:
            getattr(self, "x_" + type(s).__name__, self.x_unsupported)(s)
        finally:
            self.S.stmt = old

    def x_unsupported(self, s):
        raise Unsupported(f"statement {type(s).__name__} (line {s.lineno})")

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_FunctionDef(self, s):
        self.env()[s.name] = FuncV(self.module, s, self.cur, s.name)

    def x_Global(self, s):
        raise Unsupported("global statement")

    def x_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value is not None else None)

    def x_Break(self, s):
        raise BreakEx()

    def x_Continue(self, s):
        raise ContinueEx()

    def x_Raise(self, s):
        if s.exc is None:
            raise RaiseEx("reraise", s)
        e = s.exc
        name = None
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        elif isinstance(e, ast.Attribute):
            name = e.attr
        raise RaiseEx(name, s)

    def x_Assert(self, s):
        if not self.branch(self.truth(self.eval(s.test))):
            raise RaiseEx("AssertionError", s)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                self.del_item(base, self.eval(t.slice))
            elif isinstance(t, ast.Name):
                self.env().pop(t.id, None)
            else:
                raise Unsupported("del")

    def x_If(self, s):
        if self.branch(self.truth(self.eval(s.test))):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
        elif isinstance(t, ast.Subscript):
            base, ix = self.eval(t.value), self.eval(t.slice)
            old = self.get_item(base, ix)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.attr(base, t.attr)
        val = self.eval(s.value)
        if isinstance(old, Ref):
            new = self.inplace(old, s.op, val)
        else:
            new = self.binop(s.op, old, val)
        if isinstance(t, ast.Name):
            self.env()[t.id] = new
        elif isinstance(t, ast.Subscript):
            if not isinstance(old, Ref):
                self.set_item(base, ix, new)
        else:
            self.set_attr(base, t.attr, new)

    def x_Try(self, s):
        try:
            self.exec_block(s.body)
        except RaiseEx as e:
            for h in s.handlers:
                if h.type is None:
                    names = ["Exception"]
                elif isinstance(h.type, ast.Tuple):
                    names = [x.id if isinstance(x, ast.Name) else x.attr for x in h.type.elts]
                else:
                    names = [h.type.id if isinstance(h.type, ast.Name) else h.type.attr]
                if any(self.exc_is(e.exc, nm) for nm in names):
                    if h.name:
                        self.env()[h.name] = Opaque("exception")
                    self.exec_block(h.body)
                    break
            else:
                raise
        else:
            self.exec_block(s.orelse)
        self.exec_block(s.finalbody)

    def x_With(self, s):
        raise Unsupported("with statement")

    def exc_is(self, exc, name):
        x = exc
        for _ in range(10):
            if x == name:
                return True
            if x in EXC_BASE:
                x = EXC_BASE[x]
            else:
                x = self.exc_parent(x)
            if x is None:
                return False
        return False

    def exc_parent(self, x):
        for tab in self.S.tree.defs.values():
            nd = tab.get(x)
            if isinstance(nd, ast.ClassDef) and nd.bases and isinstance(nd.bases[0], ast.Name):
                return nd.bases[0].id
        return "Exception"

    def x_While(self, s):
        from engine import loops
        loops.exec_while(self, s)

    def x_For(self, s):
        from engine import loops
        loops.exec_for(self, s)

    # ------------------------------------------------------------------ environment
    def env(self):
        return self.frames[self.cur]

    def lookup(self, name):
        fid = self.cur
        while fid is not None:
            fr = self.frames[fid]
            if name in fr:
                v = fr[name]
                if v is POISON:
                    raise ReadPoison((fid, name))
                return v
            fid = fr.get("!parent")
        return self.global_(self.module, name)

    def global_(self, module, name):
        key = (module, name)
        if key in self.S.module_consts:
            return self.S.module_consts[key]
        nd = self.S.tree.defs[module].get(name)
        if nd is None:
            if name in EXC_BASE:
                return ExcV(name)
            if name in BUILTINS:
                return BuiltinV(name)
            raise Unsupported(f"name {name} in {module}")
        if isinstance(nd, ast.FunctionDef):
            return FuncV(module, nd, None, name)
        if isinstance(nd, ast.ClassDef):
            return ClassV(module, nd, name)
        if isinstance(nd, ast.Assign):
            M = Machine(self.S)
            M.module = module
            M.frames = {0: {}}
            M.cur = 0
            v = M.eval(nd.value)
            if isinstance(v, Ref):
                # module-level lists etc. are treated as constants
                v = ("!const", M.heap[v.rid])
                r = self.new(v[1])
                self.protected.add(r.rid)
                return r
            self.S.module_consts[key] = v
            return v
        imp, alias = nd
        if isinstance(imp, ast.ImportFrom):
            mod = imp.module or ""
            if mod == "abcvoting":
                return ModuleV(alias.name)
            if mod.startswith("abcvoting."):
                return self.global_(mod.split(".")[1], alias.name)
            return BuiltinV(f"{mod}.{alias.name}")
        nm = alias.name
        if nm.startswith("abcvoting."):
            return ModuleV(nm.split(".")[1])
        return ModuleV("!" + nm)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env()[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value), self.eval(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, cnt):
        o = self.deref(v)
        if isinstance(o, tuple):
            items = list(o)
        elif isinstance(o, LList):
            items = list(o.items)
        elif isinstance(o, Opaque):
            items = [Opaque(o.what)] * cnt
        else:
            raise Unsupported(f"unpacking {type(o).__name__}")
        if len(items) != cnt:
            raise RaiseEx("ValueError")
        return items

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        return getattr(self, "e_" + type(e).__name__, self.e_unsupported)(e)

    def e_unsupported(self, e):
        raise Unsupported(f"expression {type(e).__name__} (line {e.lineno})")

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            try:
                x = self.eval(v.value)
            except (Unsupported, ReadPoison):
                x = Opaque()
            if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                parts.append(str(x))
            elif is_z3(x) and x.sort() == L.I:
                parts.append(("!int", x))
            else:
                parts.append(Opaque())
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        o = Opaque("str")
        o.parts = parts
        return o

    def e_Tuple(self, e):
        return tuple(self.eval(x) for x in e.elts)

    def e_List(self, e):
        return self.new(LList([self.eval(x) for x in e.elts]))

    def e_Set(self, e):
        return self.new(SItems([self.eval(x) for x in e.elts]))

    def e_Dict(self, e):
        keys = [self.eval(x) for x in e.keys]
        vals = [self.eval(x) for x in e.values]
        if all(isinstance(x, (str, int)) for x in keys):
            return self.new(DItems(dict(zip(keys, vals))))
        if len(keys) == 1:
            b = self.to_bag_elem(keys[0])
            if b is not None:
                shape, terms, sorts = b
                val = vals[0]
                return self.new(Bag(lambda *t: z3.And([x == y for x, y in zip(t, terms)]), shape, "dict", size=z3.IntVal(1), nodup=True, val=lambda *t: val))
        raise Unsupported("dict display")

    def e_Lambda(self, e):
        fd = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Return(value=e.body, lineno=e.lineno)], decorator_list=[], lineno=e.lineno)
        return FuncV(self.module, fd, self.cur, "<lambda>")

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if isinstance(c, bool) or not is_z3(c):
            return self.eval(e.body if self.branch(c) else e.orelse)
        # try to merge pure numeric branches
        cs = z3.simplify(c)
        if z3.is_true(cs) or z3.is_false(cs):
            return self.eval(e.body if z3.is_true(cs) else e.orelse)
        return self.eval(e.body if self.branch(c) else e.orelse)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        for i, x in enumerate(e.values):
            v = self.eval(x)
            t = self.truth(v)
            rest = e.values[i + 1:]
            if isinstance(t, bool):
                if t != isand:
                    if not vals:
                        return v
                    vals.append(t)
                    break
                if not rest and not vals:
                    return v
                continue
            if rest and self.may_fail(rest):
                if self.branch(t) != isand:
                    return not isand
                continue
            vals.append(t)
        if not vals:
            return isand
        if len(vals) == 1:
            return vals[0]
        if all(is_z3(x) or isinstance(x, bool) for x in vals):
            return (z3.And if isand else z3.Or)([L.zb(x) for x in vals])
        return (And_ if isand else Or_)(*vals)

    def may_fail(self, exprs):
        for x in exprs:
            for nd in ast.walk(x):
                if isinstance(nd, (ast.Subscript, ast.Call, ast.Div, ast.Mod, ast.FloorDiv)):
                    if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Name) and nd.func.id in ("len", "isinstance", "set"):
                        continue
                    if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("isclose", "num_cand"):
                        continue
                    return True
        return False

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return z3.Not(t) if is_z3(t) else Not_(t)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            out.append(self.compare(op, left, right))
            left = right
        if len(out) == 1:
            return out[0]
        if all(isinstance(x, bool) for x in out):
            return all(out)
        if all(isinstance(x, bool) or is_z3(x) for x in out):
            return z3.And([L.zb(x) for x in out])
        return And_(*out)

    def e_Attribute(self, e):
        return self.attr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            return self.slice_(base, *[self.eval(x) if x is not None else None for x in (sl.lower, sl.upper, sl.step)])
        return self.get_item(base, self.eval(e.slice))

    def e_Starred(self, e):
        raise Unsupported("starred expression")

    def e_ListComp(self, e):
        from engine import loops
        return loops.comprehension(self, e, "list")

    def e_SetComp(self, e):
        from engine import loops
        return loops.comprehension(self, e, "set")

    def e_GeneratorExp(self, e):
        from engine import loops
        return loops.comprehension(self, e, "gen")

    def e_DictComp(self, e):
        from engine import loops
        return loops.comprehension(self, e, "dict")

    def e_Call(self, e):
        # calls for output only: arguments are not evaluated, no effect (assumption listed in the evidence)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == "output" \
                and self.is_output():
            return None
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return Opaque("super")
        if isinstance(e.func, ast.Attribute):
            base = self.eval(e.func.value)
            f = BoundV(base, e.func.attr) if isinstance(self.deref(base), Opaque) else self.attr(base, e.func.attr)
        else:
            f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.concrete_items(self.eval(a.value))
            else:
                args.append(self.eval(a))
        kw = {}
        for a in e.keywords:
            if a.arg is None:
                o = self.deref(self.eval(a.value))
                if not isinstance(o, DItems):
                    raise Unsupported("** argument")
                kw.update(o.items)
            else:
                kw[a.arg] = self.eval(a.value)
        return self.call(f, args, kw, e)

    def is_output(self):
        fid = self.cur
        while fid is not None:
            if "output" in self.frames[fid]:
                return False
            fid = self.frames[fid].get("!parent")
        nd = self.S.tree.defs[self.module].get("output")
        return isinstance(nd, tuple)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        from engine import builtins_ as bi
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, PartialV):
            return self.call(f.fn, list(f.args) + list(args), {**f.kw, **kw}, node)
        if isinstance(f, SymFn):
            return f.fn(*args)
        if isinstance(f, BuiltinV):
            return bi.builtin(self, f.name, args, kw, node)
        if isinstance(f, BoundV):
            return bi.method(self, f.obj, f.name, args, kw, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcV):
            return Opaque("exception")
        if callable(f) and not is_z3(f):
            return f(self, *args, **kw)
        raise Unsupported(f"call of {type(f).__name__}")

    def bind(self, fn, args, kw, defaults_module):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise RaiseEx("TypeError")
            vals[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            vals[nm] = v
        extra = {}
        for nm, v in kw.items():
            if nm in names or nm in [x.arg for x in a.kwonlyargs]:
                if nm in vals:
                    raise RaiseEx("TypeError")
                vals[nm] = v
            elif a.kwarg is not None:
                extra[nm] = v
            else:
                raise RaiseEx("TypeError")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new(DItems(extra))
        dn = names[len(names) - len(a.defaults):]
        for nm, d in zip(dn, a.defaults):
            if nm not in vals:
                vals[nm] = self.eval_default(d, defaults_module)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None:
                vals[x.arg] = self.eval_default(d, defaults_module)
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm not in vals:
                raise RaiseEx("TypeError")
        return vals

    def eval_default(self, d, module):
        cur, mod = self.cur, self.module
        fid = self.new_frame(None)
        self.cur, self.module = fid, module
        try:
            return self.eval(d)
        finally:
            self.cur, self.module = cur, mod

    def new_frame(self, parent):
        fid = max(self.frames, default=0) + 1
        self.frames[fid] = {"!parent": parent}
        return fid

    def call_func(self, f, args, kw, selfv=None):
        con = self.S.contracts.get((f.module, f.name)) if f.frame is None else self.S.contracts.get((f.module, "<local>." + f.name))
        if con is not None:
            vals = self.bind(f.node, args, kw, f.module)
            self.S.called.add(f"{f.module}.{f.name}")
            return con(self, vals)
        return self.inline(f, args, kw)

    def inline(self, f, args, kw):
        if self.depth > 12:
            raise Unsupported("recursion")
        for nd in ast.walk(f.node):
            if isinstance(nd, (ast.Yield, ast.YieldFrom)):
                raise Unsupported("generator function")
        vals = self.bind(f.node, args, kw, f.module)
        self.S.used.add(f"{f.module}.{f.name}")
        cur, mod = self.cur, self.module
        fid = self.new_frame(f.frame)
        self.frames[fid].update(vals)
        self.cur, self.module = fid, f.module
        self.depth += 1
        try:
            self.exec_block(f.node.body)
            r = None
        except ReturnEx as e:
            r = e.value
        finally:
            self.cur, self.module = cur, mod
            self.depth -= 1
        return r

    def instantiate(self, c, args, kw):
        con = self.S.contracts.get((c.module, c.name))
        if con is not None:
            self.S.called.add(f"{c.module}.{c.name}")
            return con(self, args, kw)
        if c.name == "CandidateSet":
            from engine import builtins_ as bi
            return bi.candidate_set(self, args, kw)
        if self.exc_parent(c.name) in ("ValueError", "Exception", "RuntimeError") and any(
                isinstance(b, ast.Name) and (b.id in EXC_BASE) for b in c.node.bases):
            return Opaque("exception")
        ref = self.new(OObj(c, {}))
        init = self.method_of(c, "__init__")
        if init is not None:
            self.inline(init, [ref] + list(args), kw)
        return ref

    def method_of(self, c, name):
        for nd in c.node.body:
            if isinstance(nd, ast.FunctionDef) and nd.name == name:
                return FuncV(c.module, nd, None, f"{c.name}.{name}")
        return None

    def class_attr(self, c, name):
        for nd in c.node.body:
            if isinstance(nd, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in nd.targets):
                return self.eval_default(nd.value, c.module)
        raise Unsupported(f"attribute {name} of {c.name}")

    # ------------------------------------------------------------------ delegated operations
    def attr(self, v, name):
        from engine import builtins_ as bi
        return bi.attr(self, v, name)

    def set_attr(self, v, name, val):
        o = self.deref(v)
        if isinstance(o, OObj):
            self.write(v, OObj(o.cls, {**o.attrs, name: val}))
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def binop(self, op, a, b):
        from engine import builtins_ as bi
        return bi.binop(self, op, a, b)

    def inplace(self, ref, op, val):
        from engine import builtins_ as bi
        return bi.inplace(self, ref, op, val)

    def compare(self, op, a, b):
        from engine import builtins_ as bi
        return bi.compare(self, op, a, b)

    def truth(self, v):
        from engine import builtins_ as bi
        return bi.truth(self, v)

    def get_item(self, base, ix):
        from engine import builtins_ as bi
        return bi.get_item(self, base, ix)

    def set_item(self, base, ix, v):
        from engine import builtins_ as bi
        return bi.set_item(self, base, ix, v)

    def del_item(self, base, ix):
        from engine import builtins_ as bi
        return bi.del_item(self, base, ix)

    def slice_(self, base, lo, hi, step):
        from engine import builtins_ as bi
        return bi.slice_(self, base, lo, hi, step)

    def concrete_items(self, v):
        o = self.deref(v)
        if isinstance(o, tuple):
            return list(o)
        if isinstance(o, (LList, SItems)):
            return list(o.items)
        raise Unsupported("number of items is not known statically")

    def to_bag_elem(self, v):
        """(shape, z3 terms, kinds) of a value used as element of a symbolic collection"""
        from engine import builtins_ as bi
        return bi.to_bag_elem(self, v)
