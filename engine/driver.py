"""Verification targets, their parallel execution, and the result of a property's proof part.

A Target names one function of /repo, builds its symbolic arguments (the precondition), and states obligations on every
path of the function (the postcondition).  The function's body is read from /repo's current source on every run."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import z3

from engine import logic as L
from engine.logic import All, And_, Ex, F, Iff, Imp, Not_, Or_
from engine.interp import Machine, Session, Tree, RaiseEx, ReadPoison, Retry
from engine.values import *
from engine import builtins_ as bi

GLOBAL_FACTS = "weights positive; approval sets contain existing candidates only; n >= 1 voters, m >= 1 candidates (class invariant of Profile/Voter, C20)"


def base_facts(M):
    M.assume(L.m >= 1)
    M.assume(L.n >= 1)
    M.pool("voter", z3.IntVal(0))
    M.pool("cand", z3.IntVal(0))
    M.assume(All("voter", lambda v: L.w(v) > 0))
    M.assume(All("voter", lambda v: All("int", lambda c: z3.Implies(L.A(v)[c], z3.And(c >= 0, c < L.m)))))


class Target:
    """name: shown in the evidence; func: (module, function) or (module, 'Class.method');
    args(M) -> (args, kw) assumes the precondition; post(M, outcome) discharges the postcondition on one path"""

    def __init__(self, name, func, args, post, contracts=None, loop_specs=(), cand_invs=(), axioms=(), timeout=10000,
                 base=True, tlimit=200, trusted=(), weight=1, thorough_only=False, run=None, pathlimit=400):
        self.name, self.func, self.args, self.post = name, func, args, post
        self.contracts, self.loop_specs, self.cand_invs, self.axioms = contracts or {}, loop_specs, cand_invs, axioms
        self.timeout, self.base, self.tlimit, self.trusted = timeout, base, tlimit, list(trusted)
        self.thorough_only = thorough_only
        self.run = run
        self.pathlimit = pathlimit


class Lemma:
    """a pure lemma: prove(goal) from facts; fn() -> [(name, facts, goal, pools, opts)]"""

    def __init__(self, name, fn, tlimit=120):
        self.name, self.fn, self.tlimit = name, fn, tlimit
        self.thorough_only = False


def find_function(tree, module, name):
    nd = tree.defs[module].get(name.split(".")[0])
    if "." in name:
        cls, meth = name.split(".")
        import ast
        for x in nd.body:
            if isinstance(x, ast.FunctionDef) and x.name == meth:
                return FuncV(module, x, None, name)
        return None
    import ast
    if isinstance(nd, ast.FunctionDef):
        return FuncV(module, nd, None, name)
    return None


def run_target(tree, t, verbose=False):
    untyped = set()
    for _ in range(8):
        try:
            return run_target_(tree, t, verbose, untyped)
        except Retry:
            pass
    return {"target": t.name, "function": ".".join(t.func), "obligations": [], "status": "undecided", "note": "lists with repetitions", "solver_s": 0, "queries": 0, "wall": 0}


def run_target_(tree, t, verbose, untyped):
    L.reset()
    bi.reset() if hasattr(bi, "reset") else None
    t0 = time.time()
    L.STATS["time"] = 0.0
    L.STATS["queries"] = 0
    rep = {"target": t.name, "function": ".".join(t.func) if isinstance(t, Target) and t.func else None, "obligations": [], "status": "ok", "note": ""}
    if isinstance(t, Lemma):
        for name, facts, goal, pools, opts in t.fn():
            st, info = L.prove(facts, goal, pools, **opts)
            rep["obligations"].append({"name": name, "status": st, "info": info})
        rep.update(solver_s=L.STATS["time"], queries=L.STATS["queries"], wall=time.time() - t0)
        return rep
    S = Session(tree, t.contracts, t.loop_specs, t.cand_invs, t.axioms, t.timeout)
    S.verbose = verbose
    S.untyped = untyped
    M = Machine(S)
    npaths = 0
    try:
        f = find_function(tree, *t.func) if t.func else None
        if t.func and f is None and t.run is None:
            raise Unsupported(f"function {'.'.join(t.func)} not found")
        if t.func:
            M.module = t.func[0]
        M.cur = M.new_frame(None)

        def thunk(M1):
            if t.base:
                base_facts(M1)
            if t.run is not None:
                return t.run(M1, f)
            args, kw = t.args(M1)
            M1.entry_pc = len(M1.pc)
            try:
                r = M1.inline(f, args, kw)
                out = ("return", r)
            except RaiseEx as e:
                out = ("raise", e)
            t.post(M1, out)
            return out
        paths = M.explore(thunk, limit=t.pathlimit)
        npaths = len(paths)
        for M1, out in paths:
            if out[0] == "raise":
                raise Unsupported(f"exception {out[1].exc} outside the verified function")
        # vacuity: at least one path must be possible
        alive = 0
        for M1, out in paths:
            if not M1.impossible():
                alive += 1
        if paths and not alive:
            rep["obligations"].append({"name": "the precondition is satisfiable (vacuity check)", "status": "failed", "info": "all paths contradictory"})
        rep["alive"] = alive
    except Unsupported as e:
        rep["status"], rep["note"] = "undecided", f"outside the modelled subset: {e}"
    except ReadPoison as e:
        rep["status"], rep["note"] = "undecided", f"variable {e.name} read before assignment"
    except RecursionError:
        rep["status"], rep["note"] = "undecided", "recursion depth"
    rep["obligations"] += S.obligations
    rep.update(paths=npaths, inlined=sorted(S.used), called=sorted(S.called), invs=S.invs, solver_s=L.STATS["time"],
               queries=L.STATS["queries"], wall=time.time() - t0, trusted=t.trusted)
    if rep["status"] == "ok" and not rep["obligations"]:
        rep["status"], rep["note"] = "undecided", "no obligation was generated"
    return rep


def _worker(repo, modname, i, q, verbose=False):
    sys.setrecursionlimit(20000)
    try:
        mod = importlib.import_module(modname)
        tree = Tree(repo)
        ts = mod.targets(tree)
        q.put((i, run_target(tree, ts[i], verbose)))
    except BaseException as e:      # engine defect: the target is undecided, never a violation
        q.put((i, {"target": f"#{i}", "function": None, "obligations": [], "status": "undecided",
                   "note": "engine error: " + "".join(traceback.format_exception(e))[-1500:]}))


def run_targets(repo, modname, indices, names, limits, workers=8):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    todo = list(indices)
    active = {}
    res = {}
    while todo or active:
        while todo and len(active) < workers:
            i = todo.pop(0)
            p = ctx.Process(target=_worker, args=(repo, modname, i, q))
            p.start()
            active[i] = (p, time.time())
        try:
            i, rep = q.get(timeout=0.2)
            res[i] = rep
            p, _ = active.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
        except Exception:
            pass
        now = time.time()
        for i, (p, t0) in list(active.items()):
            dead = not p.is_alive()
            if now - t0 > limits[i] or dead and now - t0 > 1:
                if dead:
                    try:
                        k, rep = q.get(timeout=1.0)
                        res[k] = rep
                        active.pop(k, None)
                        continue
                    except Exception:
                        pass
                p.kill()
                p.join()
                active.pop(i)
                res[i] = {"target": names[i], "function": None, "obligations": [], "status": "undecided",
                          "note": "the process ended without a result" if dead else f"time limit of {limits[i]} s"}
    return [res[i] for i in indices]


def check_property(pid, repo, thorough=False):
    modname = f"proofs.{pid}"
    try:
        mod = importlib.import_module(modname)
        tree = Tree(repo)
        ts = mod.targets(tree)
    except SyntaxError as e:
        return {"failed": [], "level": "exploration", "coverage": {"obligations": 0, "discharged": 0}, "assumptions": [],
                "undecided": [f"the source does not parse: {e}"]}
    idx = [i for i, t in enumerate(ts) if thorough or not t.thorough_only]
    limits = {i: ts[i].tlimit * (2 if thorough else 1) for i in idx}
    names = {i: ts[i].name for i in idx}
    reps = run_targets(repo, modname, idx, names, limits)
    failed, undecided = [], []
    total = disch = 0
    solver = 0.0
    inlined, called, trusted, under = set(), set(), set(getattr(mod, "TRUSTED", ())), []
    details = []
    for rep in reps:
        obs = rep["obligations"]
        bad = [o for o in obs if o["status"] == "failed"]
        unk = [o for o in obs if o["status"] == "unknown"]
        ok = [o for o in obs if o["status"] == "proved"]
        total += len(obs)
        disch += len(ok)
        solver += rep.get("solver_s", 0.0)
        inlined |= set(rep.get("inlined", ()))
        called |= set(rep.get("called", ()))
        trusted |= set(rep.get("trusted", ()))
        if rep["status"] == "undecided":
            undecided.append(f"{rep['target']}: {rep['note'][:300]}")
        seen = set()
        for o in bad:
            if o["name"] not in seen:
                seen.add(o["name"])
                # an obligation that fails in a function the engine could not fully execute is reported as undecided
                (failed if rep["status"] == "ok" else undecided).append(
                    {"name": f"{rep['target']}: {o['name']}", "reason": o["info"] or "counter-model"} if rep["status"] == "ok"
                    else f"{rep['target']}: {o['name']} not discharged")
        for o in unk:
            undecided.append(f"{rep['target']}: {o['name']}: solver gave no answer ({o['info']})")
        if rep["status"] == "ok" and not bad and not unk:
            under.append(rep["target"])
        details.append({"target": rep["target"], "function": rep.get("function"), "obligations": len(obs), "discharged": len(ok),
                        "status": rep["status"] if not bad else "failed", "note": rep["note"][:300], "solver_s": round(rep.get("solver_s", 0), 2),
                        "loops": rep.get("invs", [])})
    if total == 0 and not undecided:
        failed.append({"name": f"{pid}: verification conditions", "reason": "no obligation was generated"})
    cov = {"obligations": total, "discharged": disch, "checker_cmd": f"python3-vt run.py {pid}",
           "trusted_base": ["the symbolic executor engine/*.py (semantics of the Python subset)", "z3 " + z3.get_version_string()] + sorted(trusted),
           "functions_under_contract": under, "functions_inlined": sorted(inlined), "functions_used_by_contract": sorted(called),
           "undecided_targets": undecided, "solver_seconds": round(solver, 2), "targets": details}
    level = getattr(mod, "LEVEL", "proof")
    return {"failed": failed, "level": level, "coverage": cov, "assumptions": [GLOBAL_FACTS] + list(getattr(mod, "ASSUMPTIONS", ())),
            "undecided": undecided}


if __name__ == "__main__":
    # python3-vt -m engine.driver Cxx [substring] [-v]: run the targets of one property and print the result
    repo = os.environ.get("VERIF_REPO", "/repo")
    modname = f"proofs.{sys.argv[1]}"
    pat = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else ""
    verbose = "-v" in sys.argv
    L.DEBUG = "-d" in sys.argv
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(modname)
    tree = Tree(repo)
    ts = mod.targets(tree)
    idx = [i for i, t in enumerate(ts) if pat in t.name]
    if verbose:
        reps = [run_target(tree, ts[i], True) for i in idx]
    else:
        reps = run_targets(repo, modname, idx, {i: ts[i].name for i in idx}, {i: ts[i].tlimit for i in idx})
    for r in reps:
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        print(f"{'OK ' if r['status'] == 'ok' and not bad else 'BAD'} {r['target']}: {r['status']} {len(r['obligations']) - len(bad)}/{len(r['obligations'])} "
              f"paths {r.get('paths')} alive {r.get('alive')} {r.get('wall', 0):.1f}s {r['note'][-1500:]}")
        for o in bad[:12]:
            print("     ", o["status"], o["name"], str(o["info"])[:150])
