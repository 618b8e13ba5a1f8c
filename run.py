#!/usr/bin/env python3
"""run.py Cxx  --  decide one property on /repo's current working tree.

1. proof part: the contracts of proofs/<Cxx>.py are checked against verification conditions generated from the
   functions in /repo (engine/), every obligation discharged by z3 (or cvc5);
2. bounded stand-in / CPython cross-check: the executable contracts of oracle/ run against the real code;
3. exit 0, or exit 1 with `VIOLATION property=<id> replay=<path>`.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TITLES = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    _d = json.loads(_l)
    TITLES[_d["id"]] = _d["title"]

# seconds the bounded cross-check samples in the quick tier (the fixed cases are always run)
BUDGET = {"C12": 35, "C26": 18, "C13": 15, "C14": 20}


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = f"{REPO}:{HERE}"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def oracle(pid, seed, budget, workers=8):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    out = os.path.join(HERE, "replays", f".oracle-{pid}.json")
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([PY, os.path.join(HERE, "oracle/run_oracle.py"), pid, str(seed), str(budget), str(workers), out],
                       env=env(), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=budget + 600)
    if not os.path.exists(out):
        raise RuntimeError("oracle gave no result: " + p.stdout.decode()[-2000:])
    res = json.load(open(out))
    os.unlink(out)
    return res


def replay(path, pid=None):
    p = subprocess.run([PY, os.path.join(HERE, "oracle/run_oracle.py"), "--replay", path], env=env(), cwd=HERE,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.returncode, p.stdout.decode().strip(), p.stderr.decode()[-1500:]


def write_replay(pid, name, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{name}.json")
    json.dump(data, open(path, "w"), indent=1)
    return path


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--replay" in sys.argv:
        rc, out, err = replay(args[0])
        print(out, err)
        return rc
    pid = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough" or "--thorough" in sys.argv
    if thorough:
        tier = "thorough"
    t0 = time.time()
    lines = []

    def violation(path, nofail=False):
        lines.append(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if nofail else ""))

    # ---- 1. proofs ---------------------------------------------------------------------------
    proof = None
    if os.path.exists(os.path.join(HERE, "proofs", pid + ".py")) and "--no-proof" not in sys.argv:
        from engine import driver
        proof = driver.check_property(pid, REPO, thorough)
    failed = proof["failed"] if proof else []

    # ---- 2. bounded cross-check --------------------------------------------------------------
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    for f in known["findings"]:
        if f["property"] != pid:
            continue
        path = write_replay(pid, "known-" + f["id"], {"property": pid, "case": f["case"]})
        rc, out, err = replay(path)
        if rc == 1 and "VIOLATED" in out:
            print(f"KNOWN-FINDING: property={pid} {f['id']} {f['what']}")
    budget = BUDGET.get(pid, 15)
    if thorough:
        budget = 420
    if failed:
        budget = max(budget, 90)  # search for a failing input
    res = oracle(pid, seed, budget)
    errors = list(res["err"])
    if errors:
        print("ORACLE-ERROR:", errors[0][-3000:], file=sys.stderr)
    for i, b in enumerate(res["bad"][:3]):
        path = write_replay(pid, f"{seed}-{i}", {"property": pid, "case": b["case"], "message": b["msg"],
                            "failed_obligations": failed, "replay_cmd": f"{sys.argv[0]} --replay <this file>"})
        rc, out, err = replay(path)
        if rc == 1 and "VIOLATED" in out:
            violation(path)
            print(out[:600])
            break
        print(f"NOTE: case does not reproduce when run alone: {b['msg'][:300]}")
        if i == 0 and b["msg"]:
            # depends on what ran before (history): replay file states so
            hist = path
            violation(hist)
            break
    if failed and not lines:
        path = write_replay(pid, f"{seed}-obligation", {"property": pid, "failed_obligations": failed,
                            "note": "the verifier no longer accepts these obligations generated from the current source; no failing input was found"})
        for f in failed[:5]:
            print(f"FAILED OBLIGATION {f['name']}: {f['reason'][:300]}")
        violation(path, True)

    # ---- 3. evidence -------------------------------------------------------------------------
    cov = {
        "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"],
        "rule": f"bounded cross-check: {res['fixed']} fixed cases (all profiles with at most 3 candidates and 2 voters, up to voter order, where the property is about profiles) "
                f"and random profiles (up to 12 candidates, 7 voters, ties, party lists, weights) from seed {seed} for {budget} s, each run against the real code "
                "and compared with an independent definition; non-trivial: distinct and not an all-empty profile",
        "samples": res["samples"][:4],
    }
    level = "exploration"
    assumptions = ["the executable specification oracle/spec.py states the definitions correctly",
                   "behaviour outside the sampled inputs is not covered by the bounded part"]
    if proof:
        level = proof["level"]
        cov.update(proof["coverage"])
        assumptions += proof["assumptions"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    if lines:
        return 1
    if errors:
        return 3
    if proof:
        print(f"{pid} ok: {proof['coverage']['discharged']}/{proof['coverage']['obligations']} obligations discharged, {res['evaluations']} cases cross-checked")
        for u in proof.get("undecided", []):
            print("UNDECIDED (bounded stand-in only):", u)
    else:
        print(f"{pid} ok: {res['evaluations']} cases")
    return 0


if __name__ == "__main__":
    sys.exit(main())
