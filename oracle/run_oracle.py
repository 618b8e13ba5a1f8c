"""usage: run_oracle.py PROP seed budget_s workers out.json   |   run_oracle.py --replay file.json
Runs under /opt/venv/bin/python with PYTHONPATH=/repo:/verif."""
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def devnull():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)


def one(prop, case):
    """None = contract holds; otherwise a message"""
    from oracle import props, spec
    try:
        prop.check(case)
        return None
    except spec.TooMany:
        return "skip"
    except props.Bad as e:
        return str(e)
    except Exception as e:  # the real code (or the contract) crashed
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any("/abcvoting/" in f.filename for f in tb) or tb[-1].filename.endswith("/copy.py")
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
        if inrepo:
            return f"{type(e).__name__}: {e} raised at {where}"
        if isinstance(e, (TypeError, AttributeError, KeyError, IndexError, ValueError)) and tb[-1].filename.endswith("/props.py"):
            # the postcondition is not even well-defined on this result (wrong type or shape)
            return f"result has the wrong shape: {type(e).__name__}: {e} at {where}"
        raise


def worker(pid, seed, wid, nw, deadline, q):
    devnull()
    from oracle import props
    prop = props.PROPS[pid]()
    ev = nt = ex = 0
    samples = []
    seen = set()
    try:
        def handle(case):
            nonlocal ev, nt
            key = json.dumps(case, sort_keys=True)
            msg = one(prop, json.loads(key))
            ev += 1
            if key not in seen and prop.nontrivial(case):
                seen.add(key)
                nt += 1
                if len(samples) < 2:
                    samples.append(case)
            if msg and msg != "skip":
                q.put(("bad", json.loads(key), msg))
                return False
            return True
        for i, case in enumerate(prop.exhaustive()):
            if i % nw != wid:
                continue
            ex += 1
            if not handle(case):
                return
            if time.time() > deadline + 200:
                break
        rng = random.Random(f"{seed}-{wid}")
        while time.time() < deadline:
            if not handle(prop.random(rng)):
                return
    except Exception:
        q.put(("err", None, traceback.format_exc()))
    finally:
        q.put(("done", wid, dict(evaluations=ev, distinct=nt, fixed=ex, samples=samples)))


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        from oracle import props
        real = os.dup(1)
        devnull()
        msg = one(props.PROPS[d["property"]](), d["case"])
        os.write(real, (f"property {d['property']}: " + (f"VIOLATED: {msg}" if msg else "holds on this input") + "\n").encode())
        os._exit(1 if msg and msg != "skip" else 0)
    pid, seed, budget, nw, out = sys.argv[1], int(sys.argv[2]), float(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    t0 = time.time()
    ps = [ctx.Process(target=worker, args=(pid, seed, i, nw, t0 + budget, q), daemon=True) for i in range(nw)]
    for p in ps:
        p.start()
    res = dict(evaluations=0, distinct=0, fixed=0, samples=[], bad=[], err=[])
    alive = nw
    import queue
    while alive:
        try:
            k, a, b = q.get(timeout=5)
        except queue.Empty:
            if all(not p.is_alive() for p in ps) and q.empty():
                res["err"].append("a worker process died")
                break
            if time.time() > t0 + budget + 500:
                res["err"].append("oracle timed out")
                break
            continue
        if k == "bad":
            res["bad"].append({"case": a, "msg": b})
        elif k == "err":
            res["err"].append(b)
        else:
            alive -= 1
            for f in ("evaluations", "distinct", "fixed"):
                res[f] += b[f]
            res["samples"] += b["samples"]
    res["wall"] = time.time() - t0
    json.dump(res, open(out, "w"))
    for p in ps:
        p.kill()


if __name__ == "__main__":
    main()
