"""Executable contracts per property, run against the real code (this is the CPython cross-check, the source of
replayable failing inputs, and the bounded stand-in for functions outside the verifier's reach)."""
import contextlib
import copy
import io
import itertools
import os
import random
import tempfile
from fractions import Fraction as Fr

from oracle import gen, spec

EXACT = ("standard-fractions", "gmpy2-fractions")


def norm(committees):
    return {frozenset(int(x) for x in c) for c in committees}


def fmt(sets):
    return sorted(sorted(s) for s in sets)


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def wellformed(coms, m, k, resolute, limit, upto=False):
    need(isinstance(coms, list), f"result is no list: {type(coms)}")
    need(len(coms) >= 1, "no committee returned")
    for c in coms:
        need(isinstance(c, (set, frozenset)), f"committee {c!r} is no set")
        l = list(c)
        need(len(set(l)) == len(l), "duplicate members")
        need(all(int(x) == x and 0 <= x < m for x in l), f"non-existing candidate in {l}")
        need(len(l) <= k if upto else len(l) == k, f"committee {sorted(l)} has wrong size (k={k})")
    need(len(norm(coms)) == len(coms), f"duplicate committees in {fmt(coms)}")
    if resolute:
        need(len(coms) == 1, "resolute computation returned several committees")
    if limit is not None:
        need(len(coms) <= limit, f"limit {limit} exceeded: {len(coms)}")


def run(rule_id, case, k, **kw):
    from abcvoting import abcrules
    return abcrules.compute(rule_id, gen.to_profile(case), k, **kw)


def agree(rule_id, case, k, algo, first, allset, limits=(1, 2), resolutes=(True, False), upto=False, exact_first=True):
    """compare all modes of an algorithm with the set of all winners and (optionally) the resolute winner"""
    m = case["m"]
    if True in resolutes:
        r = run(rule_id, case, k, algorithm=algo, resolute=True)
        wellformed(r, m, k, True, None, upto)
        need(norm(r) <= allset, f"{rule_id}/{algo} resolute returned {fmt(r)}, possible: {fmt(allset)}")
        if first is not None and exact_first:
            need(norm(r) == {frozenset(first)}, f"{rule_id}/{algo} resolute returned {fmt(r)}, smallest-index tie-breaking gives {sorted(first)}")
    if False in resolutes:
        r = run(rule_id, case, k, algorithm=algo, resolute=False)
        wellformed(r, m, k, False, None, upto)
        need(norm(r) == allset, f"{rule_id}/{algo} irresolute returned {fmt(r)}, expected {fmt(allset)}")
        for lim in limits:
            r = run(rule_id, case, k, algorithm=algo, resolute=False, max_num_of_committees=lim)
            wellformed(r, m, k, False, lim, upto)
            need(norm(r) <= allset, f"{rule_id}/{algo} limit {lim} returned {fmt(r)}, not among {fmt(allset)}")
            need(len(r) == min(lim, len(allset)), f"{rule_id}/{algo} limit {lim} returned {len(r)} of {len(allset)} committees")


# ------------------------------------------------------------------------------------------------
def private(module, name, *args, **kw):
    """call an internal function of the code, or None if it does not exist (any more) with this signature
    (internal functions may be refactored; then only the public interface is checked)"""
    import inspect
    f = getattr(module, name, None)
    if f is None:
        return None
    try:
        inspect.signature(f).bind(*args, **kw)
    except TypeError:
        return None
    return f(*args, **kw)


def info(module, name, keys, *args):
    """(answer, detailed information) of an internal check function; None if it has another interface"""
    r = private(module, name, *args)
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], dict)):
        return None
    if r[0] is False and not all(x in r[1] for x in keys):
        return None
    return r


class Prop:
    wkinds = ("unit", "int", "frac")
    maxm = None

    def exhaustive(self):
        for case in gen.small_exhaustive(3, 2):
            for k in range(1, case["m"] + 1):
                yield self.variant(random.Random(k), {"profile": case, "k": k})

    def variant(self, rng, case):
        return case

    def random(self, rng):
        p = gen.profile(rng, wkinds=self.wkinds, big=self.big(rng))
        k = rng.randint(1, min(p["m"], 3 if p["m"] >= 8 else p["m"]))
        return self.variant(rng, {"profile": p, "k": k})

    def big(self, rng):
        return False

    def check(self, case):
        raise NotImplementedError

    def nontrivial(self, case):
        p = case.get("profile")
        return p is None or any(p["ballots"])


def fids(rng):
    return rng.choice(["pav", "pav", "slav", "cc", "geom2", "geom1.5", "geom3", "geom0.5", "geom1"])


class C02(Prop):
    wkinds = ("unit", "int", "frac", "near")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["fid"] = fids(rng)
        return case

    def check(self, case):
        p = gen.to_spec(case["profile"])
        fid = case["fid"]
        best = spec.thiele(fid, p, case["k"])
        for algo in ("brute-force", "branch-and-bound"):
            agree(fid, case["profile"], case["k"], algo, None, best)
        if p.m <= 4:
            # exhaustive search with functions that are no rule of their own
            from abcvoting import abcrules, scores
            for f2 in ("atleast2", "av", "geom0.5"):
                b2 = spec.thiele(f2, p, case["k"])
                pr = gen.to_profile(case["profile"])
                for fn in ("_thiele_methods_bruteforce", "_thiele_methods_branchandbound"):
                    r = private(abcrules, fn, f2, pr, case["k"], False)
                    if r is not None:
                        need(norm(r[0]) == b2, f"{fn} {f2} returned {fmt(r[0])}, expected {fmt(b2)}")
                for com in spec.combs(p.m, case["k"])[:4]:
                    got = scores.thiele_score(f2, pr, com)
                    need(got == spec.thiele_score(f2, p, com), f"score {f2} of {sorted(com)} is {got}")


class C03(Prop):
    wkinds = ("unit", "int", "frac", "near")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["fid"] = fids(rng)
        return case

    def check(self, case):
        p = gen.to_spec(case["profile"])
        first, allset = spec.seq_thiele(case["fid"], p, case["k"])
        agree("seq" + case["fid"], case["profile"], case["k"], "standard", first, allset)


class C04(Prop):
    wkinds = ("unit", "int", "frac", "near")

    def big(self, rng):
        return True

    def exhaustive(self):
        yield from super().exhaustive()
        rng = random.Random(4)
        for _ in range(4):  # candidate numbers large enough for set iteration orders to differ
            m = 100
            tied = rng.sample(range(40, m), 5)
            rest = [c for c in range(m) if c not in tied]
            case = {"profile": gen.mk(m, [[c] for c in rest] + [[c] for c in tied], [1000 + i for i in range(len(rest))] + [1] * 5), "k": m - 2, "fid": "pav"}
            yield case
        yield {"profile": gen.mk(100, [[c] for c in range(100)], [i + 1 if c not in (64, 54, 85, 24, 38) else 1000 for i, c in enumerate(range(100))]), "k": 3, "fid": "pav"}

    def random(self, rng):
        p = gen.profile(rng, wkinds=self.wkinds, big=True)
        m = p["m"]
        k = rng.randint(max(1, m - 4) if m >= 8 else 1, m)
        return self.variant(rng, {"profile": p, "k": k})

    def variant(self, rng, case):
        case["fid"] = fids(rng)
        return case

    def check(self, case):
        p = gen.to_spec(case["profile"])
        first, allset = spec.revseq_thiele(case["fid"], p, case["k"])
        agree("revseq" + case["fid"], case["profile"], case["k"], "standard", first, allset)


class C05(Prop):
    wkinds = ("unit", "int", "frac", "tiny", "near")

    def big(self, rng):
        return True

    def check(self, case):
        p = gen.to_spec(case["profile"])
        agree("av", case["profile"], case["k"], "standard", None, spec.separable(p, case["k"], False))
        want = spec.separable(p, case["k"], True)
        # weights of type Fraction: scores are computed exactly
        agree("sav", dict(case["profile"], exact=True), case["k"], "standard", None, want)
        if any(Fr(w).denominator > 1000 or Fr(w) > 10 ** 6 for w in case["profile"]["weights"]):
            return  # almost equal weights are beyond floating point
        ws = [Fr(w).denominator == 1 for w, b in zip(case["profile"]["weights"], case["profile"]["ballots"]) if b]
        dyadic = all(ws) and all(len(b) & (len(b) - 1) == 0 for b in case["profile"]["ballots"])
        if any(ws) and not dyadic and not case.get("strict"):
            # known finding SAV-FLOAT: integer weights are divided in floating point, so that ties can be missed
            r = norm(run("sav", case["profile"], case["k"], resolute=False))
            need(r and r <= want, f"sav returned {fmt(r)}, expected {fmt(want)}")
        else:
            agree("sav", case["profile"], case["k"], "standard", None, want)


class C06(Prop):
    wkinds = ("unit", "int", "frac", "tiny", "near")

    def big(self, rng):
        return True

    def check(self, case):
        p = gen.to_spec(case["profile"])
        first, allset = spec.seqphragmen(p, case["k"])
        for algo in EXACT:
            agree("seqphragmen", case["profile"], case["k"], algo, first, allset)


class C07(Prop):
    wkinds = ("unit", "int", "frac", "tiny", "near")

    def big(self, rng):
        return True

    RULES = {"equal-shares": "seqphragmen", "equal-shares-with-av-completion": "av",
             "equal-shares-without-completion": None}

    def check(self, case):
        p = gen.to_spec(case["profile"])
        k = case["k"]
        for rid, comp in self.RULES.items():
            first, allset, fr = spec.mes(p, k, comp)
            algos = EXACT if comp == "seqphragmen" else EXACT[:1]
            for algo in algos:
                agree(rid, case["profile"], k, algo, first, allset, upto=comp is None)
                if first is None:
                    r = norm(run(rid, case["profile"], k, algorithm=algo, resolute=True))
                    need(r <= fr, f"{rid} resolute returned {fmt(r)}, expected one of {fmt(fr)}")
        if all(Fr(w) >= Fr(1, 10) for w in case["profile"]["weights"]) and p.n <= 5 and p.m <= 5:
            first, allset, fr = spec.mes(p, k, "increment")
            r = run("equal-shares-with-increment-completion", case["profile"], k, algorithm="standard-fractions", resolute=True)
            wellformed(r, p.m, k, True, None)
            need(norm(r) <= fr, f"increment completion returned {fmt(r)}, expected {fmt(fr)}")


class C08(Prop):
    wkinds = ("unit", "int", "frac", "tiny", "near")

    def big(self, rng):
        return True

    def check(self, case):
        p = gen.to_spec(case["profile"])
        for rid, f in (("phragmen-enestroem", spec.enestroem), ("consensus-rule", spec.consensus)):
            first, allset = f(p, case["k"])
            for algo in EXACT:
                agree(rid, case["profile"], case["k"], algo, first, allset)


class C09(Prop):
    def big(self, rng):
        return True

    def check(self, case):
        p = gen.to_spec(case["profile"])
        agree("minimaxav", case["profile"], case["k"], "brute-force", None, spec.minimaxav(p, case["k"]))
        if all(w == 1 for w in p.w):
            agree("lexminimaxav", case["profile"], case["k"], "brute-force", None, spec.lexminimaxav(p, case["k"]))
        from abcvoting import scores
        pr = gen.to_profile(case["profile"])
        for com in spec.combs(p.m, case["k"])[:4]:
            got = scores.minimaxav_score(pr, com)
            need(got == spec.hamdist(p, com)[0], f"minimax score of {sorted(com)} is {got}")
            for ub in range(0, p.m + 1, 2):
                got = scores.num_voters_with_upper_bounded_hamming_distance(ub, pr, com)
                need(got == sum(1 for d in spec.hamdist(p, com) if d <= ub), f"number of voters within {ub} of {sorted(com)} is {got}")


class C10(Prop):
    wkinds = ("unit", "int", "frac", "near")

    def big(self, rng):
        return True

    def check(self, case):
        p = gen.to_spec(case["profile"])
        agree("lexcc", case["profile"], case["k"], "brute-force", None, spec.lexcc(p, case["k"]))


class C11(Prop):
    wkinds = ("unit",)

    def check(self, case):
        p = gen.to_spec(case["profile"])
        k = case["k"]
        from abcvoting import scores
        agree("monroe", case["profile"], k, "brute-force", None, spec.monroe(p, k))
        pr = gen.to_profile(case["profile"])
        for com in spec.combs(p.m, k)[:6]:
            want = spec.monroe_score(p, com)
            for f in (scores.monroescore, scores.monroescore_flowbased) + ((scores.monroescore_matching,) if p.n % k == 0 else ()):
                got = f(pr, com)
                need(got == want, f"{f.__name__} of {sorted(com)} is {got}, expected {want}")
        _, outs = spec.greedy_monroe_outcomes(p, k)
        r = run("greedy-monroe", case["profile"], k, algorithm="standard")
        wellformed(r, p.m, k, True, None)
        need(norm(r) <= outs, f"greedy Monroe returned {fmt(r)}, possible {fmt(outs)}")


class C12(Prop):
    wkinds = ("unit", "unit", "int", "frac")
    RULES = ["pav", "cc", "slav", "geom2", "lexcc", "monroe", "minimaxav", "lexminimaxav", "minimaxphragmen",
             "leximaxphragmen", "maximin-support"]

    def exhaustive(self):
        rng = random.Random(7)
        cases = list(gen.small_exhaustive(3, 2))
        rng.shuffle(cases)
        for i, case in enumerate(cases[:22]):
            yield {"profile": case, "k": rng.randint(1, case["m"]), "rule": self.RULES[i % len(self.RULES)]}

    def random(self, rng):
        rid = rng.choice(self.RULES)
        wk = ("unit",) if rid in ("monroe", "lexminimaxav", "leximaxphragmen") else self.wkinds
        p = gen.profile(rng, m=rng.choice([2, 3, 4, 4, 5, 5]), wkinds=wk)
        return {"profile": p, "k": rng.randint(1, p["m"]), "rule": rid}

    def truth(self, rid, p, k):
        if rid in ("pav", "cc", "slav", "geom2"):
            return spec.thiele(rid, p, k)
        if rid == "maximin-support":
            return spec.maximin_support(p, k)[1]
        return getattr(spec, rid.replace("-", "_"))(p, k)

    def check(self, case):
        from abcvoting import abcrules
        rid, k = case["rule"], case["k"]
        p = gen.to_spec(case["profile"])
        want = self.truth(rid, p, k)
        for algo in abcrules.Rule(rid).algorithms:
            if algo.startswith("mip-gurobi") or algo in ("brute-force", "branch-and-bound"):
                continue
            if algo == "ortools-cp" and rid == "cc" and any(w.denominator != 1 for w in p.w):
                continue  # CP-SAT accepts integer coefficients only; rejected
            agree(rid, case["profile"], k, algo, None, want, limits=(2,))


ALL_RULES = ["av", "sav", "pav", "slav", "cc", "lexcc", "geom2", "seqpav", "revseqpav", "seqslav", "seqcc",
             "seqphragmen", "minimaxphragmen", "leximaxphragmen", "maximin-support", "monroe", "greedy-monroe",
             "minimaxav", "lexminimaxav", "equal-shares", "equal-shares-with-av-completion",
             "equal-shares-with-increment-completion", "phragmen-enestroem", "consensus-rule", "trivial", "rsd", "eph"]
EXTRA_RULES = ["equal-shares-without-completion", "revseqcc", "revseqslav", "geom1.5", "seqgeom2"]
UNIT_ONLY = {"monroe", "greedy-monroe", "lexminimaxav", "rsd"}
SOLVERS = {"gurobi", "mip-cbc", "mip-gurobi", "ortools-cp"}


def rule_algos(rid, solvers):
    from abcvoting import abcrules
    r = abcrules.Rule(rid)
    return r, [a for a in r.algorithms if a != "mip-gurobi" and (solvers or a not in SOLVERS)]


class C01(Prop):
    wkinds = ("unit", "int", "frac", "tiny")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["rule"] = rng.choice(ALL_RULES + EXTRA_RULES)
        if case["rule"] in UNIT_ONLY:
            case["profile"]["weights"] = ["1"] * len(case["profile"]["ballots"])
        case["solver"] = case["profile"]["m"] <= 5 and rng.random() < 0.15
        case["limit"] = rng.choice([1, 2, 3, 10])
        return case

    def exhaustive(self):
        rng = random.Random(5)
        cs = [c for c in gen.small_exhaustive(3, 2)]
        for rid in ALL_RULES + EXTRA_RULES:
            for c in rng.sample(cs, 6) + cs[:6]:
                yield {"profile": copy.deepcopy(c), "k": rng.randint(1, c["m"]), "rule": rid, "solver": rng.random() < .3, "limit": rng.choice([1, 2])}

    def check(self, case):
        rid, k = case["rule"], case["k"]
        rule, algos = rule_algos(rid, case["solver"])
        if not algos:
            algos = rule_algos(rid, True)[1]
            algos = algos[:1] if case["profile"]["m"] <= 5 else []
        upto = rid == "equal-shares-without-completion"
        for algo in algos:
            if algo == "ortools-cp" and any("/" in w for w in case["profile"]["weights"]):
                continue
            for res in rule.resolute_values:
                r = run(rid, case["profile"], k, algorithm=algo, resolute=res)
                wellformed(r, case["profile"]["m"], k, res, None, upto)
                if not res:
                    r = run(rid, case["profile"], k, algorithm=algo, resolute=res, max_num_of_committees=case["limit"])
                    wellformed(r, case["profile"]["m"], k, res, case["limit"], upto)


class C26(Prop):
    wkinds = ("unit", "int", "frac")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["rule"] = rng.choice(ALL_RULES + EXTRA_RULES)
        if case["rule"] in UNIT_ONLY:
            case["profile"]["weights"] = ["1"] * len(case["profile"]["ballots"])
        case["solver"] = case["profile"]["m"] <= 5 and rng.random() < 0.25
        case["limit"] = rng.choice([1, 2, 3, 5])
        return case

    exhaustive = C01.exhaustive

    def check(self, case):
        rid, k = case["rule"], case["k"]
        rule, algos = rule_algos(rid, case["solver"])
        if not algos:
            algos = rule_algos(rid, True)[1]
            algos = algos[:1] if case["profile"]["m"] <= 5 else []
        if False not in rule.resolute_values:
            return
        ref = None
        for algo in algos:
            if algo == "float-fractions":
                continue
            if algo == "ortools-cp" and any("/" in w for w in case["profile"]["weights"]):
                continue
            full = norm(run(rid, case["profile"], k, algorithm=algo, resolute=False))
            if ref is None:
                ref = (algo, full)
            need(full == ref[1], f"{rid}: {algo} gives {fmt(full)}, {ref[0]} gives {fmt(ref[1])}")
            r = run(rid, case["profile"], k, algorithm=algo, resolute=True)
            need(len(r) == 1 and norm(r) <= full, f"{rid}/{algo}: resolute {fmt(r)} not in {fmt(full)}")
            for lim in {case["limit"], max(1, len(full) - 1), len(full), len(full) + 1}:
                r = run(rid, case["profile"], k, algorithm=algo, resolute=False, max_num_of_committees=lim)
                need(norm(r) <= full and len(r) == len(norm(r)) == min(lim, len(full)),
                     f"{rid}/{algo}: limit {lim} gives {fmt(r)} of {fmt(full)}")


class C13(Prop):
    wkinds = ("unit", "int")

    def exhaustive(self):
        for rid in ALL_RULES + EXTRA_RULES:
            yield {"kind": "rule", "rule": rid, "profile": gen.mk(4, [[0, 1], [1, 2], [3]]), "k": 2}
            yield {"kind": "rule", "rule": rid, "profile": gen.mk(3, [[0], [0, 2], []], [2, 1, 1]), "k": 1}

    def random(self, rng):
        p = gen.profile(rng, m=rng.randint(1, 5), wkinds=self.wkinds)
        return {"kind": "rule", "rule": rng.choice(ALL_RULES + EXTRA_RULES), "profile": p, "k": rng.randint(1, p["m"])}

    def check(self, case):
        from abcvoting import abcrules
        rid, k = case["rule"], case["k"]
        rule = abcrules.Rule(rid)
        pr = gen.to_profile(case["profile"])
        unit = all(w == "1" for w in case["profile"]["weights"])

        def rejected(what, exc, **kw):
            args = dict(profile=pr, committeesize=k)
            args.update(kw)
            for call in ((lambda: abcrules.compute(rid, **args)), (lambda: rule.compute(**args))):
                try:
                    r = call()
                except exc:
                    continue
                except Exception as e:
                    raise Bad(f"{rid}: {what} raised {type(e).__name__}: {e}")
                raise Bad(f"{rid}: {what} was accepted and returned {r}")
        ANY = (ValueError, NotImplementedError)
        rejected("committee size 0", ANY, committeesize=0)
        rejected("committee size -1", ANY, committeesize=-1)
        rejected("committee size m+1", ANY, committeesize=pr.num_cand + 1)
        from abcvoting.preferences import Profile
        rejected("empty profile", ANY, profile=Profile(pr.num_cand))
        rejected("unknown algorithm", ANY, algorithm="no-such-algorithm")
        for a in abcrules.ALGORITHM_NAMES:
            if a not in rule.algorithms:
                rejected(f"algorithm {a} not offered", ANY, algorithm=a)
        for res in (True, False):
            if res not in rule.resolute_values:
                rejected(f"resolute={res}", (NotImplementedError,), resolute=res)
        if False in rule.resolute_values:
            for bad in (0, -1, 1.5, "2"):
                rejected(f"limit {bad!r}", ANY, resolute=False, max_num_of_committees=bad)
        if True in rule.resolute_values:
            rejected("limit with resolute", ANY, resolute=True, max_num_of_committees=2)
        if rid in UNIT_ONLY and not unit:
            rejected("weighted profile", ANY)
            return
        # valid requests are accepted
        for a in rule.algorithms:
            if a not in abcrules.available_algorithms or a == "mip-gurobi":
                continue
            if a in SOLVERS and random.Random(rid + str(k)).random() < 0.5 and k > 1:
                continue
            for res in rule.resolute_values:
                r = abcrules.compute(rid, pr, k, algorithm=a, resolute=res)
                need(len(r) >= 1, "empty result")
        need(rule.fastest_available_algorithm() == [a for a in rule.algorithms if a in abcrules.available_algorithms][0],
             "default algorithm is not the first available one")
        r0 = rule.resolute_values[0]
        if rid != "rsd":
            alg = "fastest"
            d = abcrules.compute(rid, pr, k)
            e = abcrules.compute(rid, pr, k, resolute=r0)
            need(norm(d) == norm(e), f"{rid}: default resolute setting is not {r0}")
        for bad in ("", "nosuchrule", "seqxyz", "revseqxyz", "seq", "PAV", "atleast"):
            try:
                abcrules.Rule(bad)
            except ValueError:
                continue
            except Exception as e:
                raise Bad(f"unknown rule {bad!r} raised {type(e).__name__}: {e}")
            raise Bad(f"unknown rule {bad!r} was accepted")


def snapshot(pr):
    return (pr.num_cand, list(pr.candidates), list(pr.cand_names), [(id(v), set(v.approved), v.weight) for v in pr], len(pr))


class C14(Prop):
    wkinds = ("unit", "int", "frac")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["rules"] = [rng.choice(ALL_RULES + EXTRA_RULES) for _ in range(3)]
        case["seed"] = rng.randrange(10 ** 6)
        return case

    def exhaustive(self):
        for i, r in enumerate(ALL_RULES + EXTRA_RULES):
            for p in (gen.mk(4, [[0, 1], [1, 2], [3], [0, 3]]), gen.mk(3, [[0], [0, 2], [1]], [1, 1, 1])):
                yield {"profile": p, "k": 2, "rules": [r], "seed": i}

    def check(self, case):
        from abcvoting import abcrules, scores, properties, misc
        from abcvoting.output import output, DEBUG2, WARNING, DETAILS
        rng = random.Random(case["seed"])
        pr = gen.to_profile(case["profile"])
        unit = all(w == "1" for w in case["profile"]["weights"])
        snap = snapshot(pr)
        state = {"rs": None}

        def same(what):
            need(snapshot(pr) == snap, f"{what} changed the profile")
        k = case["k"]
        m = case["profile"]["m"]
        calls = []
        for rid in case["rules"]:
            rule, algos = rule_algos(rid, m <= 5)
            if (rid in UNIT_ONLY and not unit) or rid == "rsd":
                if rid == "rsd" and unit:
                    abcrules.compute(rid, pr, k)
                    same(rid)
                continue
            for a in algos:
                if a == "ortools-cp" and any("/" in w for w in case["profile"]["weights"]):
                    continue
                if a in SOLVERS and rng.random() < .6:
                    continue
                for res in rule.resolute_values:
                    if res and a in SOLVERS:
                        continue  # a solver may return any optimal committee
                    calls.append((rid, a, res))
        got = {}
        for rnd in range(2):
            rng.shuffle(calls)
            output.set_verbosity(DETAILS if rnd else WARNING)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    for c in calls:
                        try:
                            r = abcrules.compute(c[0], pr, k, algorithm=c[1], resolute=c[2])
                        except Exception as e:
                            raise Bad(f"{c}: {type(e).__name__}: {e} (verbosity {'DETAILS' if rnd else 'WARNING'})")
                        same(str(c))
                        r2 = [set(x) for x in r]
                        if c in got:
                            need(got[c] == r2, f"{c} gave {got[c]}, then {r2}")
                        got[c] = r2
                        # a fresh, equal profile must give the same
                        if rnd and rng.random() < .3:
                            r3 = [set(x) for x in abcrules.compute(c[0], gen.to_profile(case["profile"]), k, algorithm=c[1], resolute=c[2])]
                            need(r3 == r2, f"{c} on an equal profile gave {r3}, before {r2}")
                        for x in r:   # results must not alias the profile
                            if isinstance(x, set):
                                x.clear()
                        same(f"modifying the result of {c}")
            finally:
                output.set_verbosity(WARNING)
        com = set(rng.sample(range(m), min(k, m)))
        com0 = set(com)
        for f in ("pav", "cc", "slav", "geom2"):
            mf = scores.get_marginal_scorefct(f)
            scores.thiele_score(f, pr, com)
            scores.marginal_thiele_scores_add(mf, pr, com)
            scores.marginal_thiele_scores_remove(mf, pr, com)
        scores.monroescore(pr, com)
        scores.minimaxav_score(pr, com)
        need(com == com0, "score computation changed the committee")
        same("score computation")
        if m <= 5:
            one = {}
            for rnd in range(2):
                output.set_verbosity(DETAILS if rnd else WARNING)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        for name in properties.PROPERTY_NAMES:
                            if rng.random() < .5:
                                continue
                            one.setdefault(name, properties.check(name, pr, com))
                            need(one[name] == properties.check(name, pr, com), f"{name} not repeatable")
                            need(com == com0, f"checking {name} changed the committee")
                            same(f"checking {name}")
                finally:
                    output.set_verbosity(WARNING)


SCALE = ["pav", "slav", "cc", "geom2", "seqpav", "revseqpav", "seqcc", "av", "sav", "lexcc", "phragmen-enestroem",
         "consensus-rule", "eph"]
WEIGHTED = SCALE + ["seqphragmen", "equal-shares", "equal-shares-with-av-completion", "equal-shares-without-completion",
                    "minimaxav", "minimaxphragmen", "maximin-support"]
REORDER = WEIGHTED + ["monroe", "lexminimaxav", "leximaxphragmen"]


class C15(Prop):
    wkinds = ("unit", "int")

    def random(self, rng):
        rid = rng.choice(REORDER + ["props", "props"])
        m = rng.choice([2, 3, 4, 5]) if rid in ("minimaxphragmen", "maximin-support", "leximaxphragmen", "props") else rng.choice([2, 3, 4, 5, 6])
        wk = ("unit",) if rid in ("monroe", "lexminimaxav", "leximaxphragmen") else ("int", "int", "frac")
        p = gen.profile(rng, m=m, n=rng.choice([2, 3, 4, 5]), wkinds=wk)
        return {"profile": p, "k": rng.randint(1, m), "rule": rid, "seed": rng.randrange(10 ** 6)}

    def exhaustive(self):
        rng = random.Random(3)
        for rid in REORDER + ["props"]:
            for p in (gen.mk(3, [[0, 1], [0, 1], [2]]), gen.mk(4, [[0], [1], [0, 2], [0]], [1, 1, 1, 1])):
                yield {"profile": p, "k": 2, "rule": rid, "seed": 1}

    def check(self, case):
        from abcvoting import abcrules, properties
        rng = random.Random(case["seed"])
        rid, k, p = case["rule"], case["k"], case["profile"]
        variants = []
        idx = list(range(len(p["ballots"])))
        rng.shuffle(idx)
        if rid == "sav":  # exact scores (see known finding SAV-FLOAT)
            p = dict(p, exact=True)
        variants.append(("reordered", gen.mk(p["m"], [p["ballots"][i] for i in idx], [p["weights"][i] for i in idx])))
        if rid in WEIGHTED or rid == "props":
            if all("/" not in w for w in p["weights"]):
                bs = [b for b, w in zip(p["ballots"], p["weights"]) for _ in range(int(w))]
                variants.append(("copies", gen.mk(p["m"], bs)))
            merged = {}
            for b, w in zip(p["ballots"], p["weights"]):
                merged[tuple(b)] = merged.get(tuple(b), 0) + Fr(w)
            variants.append(("merged", gen.mk(p["m"], list(merged), list(merged.values()))))
        if rid in SCALE or rid == "props":
            f = rng.choice([Fr(2), Fr(3), Fr(1, 2), Fr(5, 3), Fr(1, 7)])
            variants.append((f"scaled by {f}", gen.mk(p["m"], p["ballots"], [Fr(w) * f for w in p["weights"]])))
        if rid == "props":
            com = rng.sample(range(p["m"]), k)
            names = [x for x in properties.PROPERTY_NAMES if rng.random() < .6]

            def res(c):
                pr = gen.to_profile(c)
                return {x: properties.check(x, pr, com) for x in names}
            base = res(p)
            for what, v in variants:
                r = res(v)
                need(r == base, f"committee {com}: properties {base}, {what} profile: {r}")
            return
        rule, algos = rule_algos(rid, True)
        algos = [a for a in algos if a != "float-fractions" and (a not in SOLVERS)] or algos[:1]
        for a in algos[:2]:
            base = norm(run(rid, p, k, algorithm=a, resolute=False))
            for what, v in variants:
                r = norm(run(rid, dict(v, exact=rid == "sav"), k, algorithm=a, resolute=False))
                need(r == base, f"{rid}/{a}: {fmt(base)}, but {what} profile gives {fmt(r)}")


class PropCheck(Prop):
    """common part of the committee-property checks"""
    wkinds = ("unit", "int", "frac", "tiny")

    def random(self, rng):
        p = gen.profile(rng, m=rng.choice([2, 3, 3, 4, 4, 5]), n=rng.choice([1, 2, 3, 4, 5, 6]), wkinds=self.wkinds)
        com = rng.sample(range(p["m"]), rng.randint(1, p["m"]))
        q = None
        if rng.random() < .3:
            W = sum(Fr(w) for w in p["weights"])
            q = str(W / rng.choice([1, 2, 3, 4, 5]) * rng.choice([Fr(1), Fr(1), Fr(2, 3), Fr(3, 2), Fr(1, 2)]))
        if rng.random() < .4 and com:
            com = sorted(com)
        return {"profile": p, "committee": com, "quota": q, "algo": rng.random() < .5}

    def exhaustive(self):
        rng = random.Random(11)
        cs = list(gen.small_exhaustive(3, 2))
        for c in rng.sample(cs, 40):
            for k in range(1, c["m"] + 1):
                com = rng.sample(range(c["m"]), k)
                yield {"profile": c, "committee": com, "quota": None, "algo": rng.random() < .3}

    def q(self, case):
        p = gen.to_spec(case["profile"])
        return p, (Fr(case["quota"]) if case["quota"] else p.W / len(case["committee"]))

    def kw(self, case):
        return {"quota": Fr(case["quota"])} if case["quota"] else {}


class C16(PropCheck):
    wkinds = ("unit", "int", "frac", "tiny", "near")

    def check(self, case):
        from abcvoting import properties
        p, q = self.q(case)
        com = case["committee"]
        pr = gen.to_profile(case["profile"])
        got = properties.check("jr", pr, com, **self.kw(case))
        need(got == spec.jr_ok(p, com, q), f"JR check says {got}")
        need(properties.check_JR(pr, com, **self.kw(case)) == got, "check and check_JR differ")
        r = info(properties, "_check_JR", ("cohesive_group", "joint_candidate"), pr, set(com), q)
        if r and not r[0]:
            d = r[1]
            g, c = set(d["cohesive_group"]), d["joint_candidate"]
            need(all(c in p.b[v] and not p.b[v] & set(com) for v in g) and sum((p.w[v] for v in g), Fr(0)) >= q, f"reported JR group {d} does not violate JR")
        got = properties.check("ejr+", pr, com, **self.kw(case))
        need(got == spec.ejr_plus_ok(p, com, q), f"EJR+ check says {got}")
        r = info(properties, "_check_EJR_plus", ("cohesive_group", "joint_candidate", "ell"), pr, set(com), q)
        if r and not r[0]:
            d = r[1]
            g, c, l = set(d["cohesive_group"]), d["joint_candidate"], d["ell"]
            need(l >= 1 and c not in com and all(c in p.b[v] and len(p.b[v] & set(com)) < l for v in g) and sum((p.w[v] for v in g), Fr(0)) >= l * q,
                 f"reported EJR+ group {d} does not violate EJR+")


class C17(PropCheck):
    def check(self, case):
        from abcvoting import properties
        p, q = self.q(case)
        com = case["committee"]
        pr = gen.to_profile(case["profile"])
        for name, ok in (("ejr", spec.ejr_ok), ("pjr", spec.pjr_ok), ("fjr", spec.fjr_ok)):
            want = ok(p, com, q)
            for a in ("brute-force", "gurobi") if case["algo"] else ("brute-force",):
                got = properties.check(name, pr, com, algorithm=a, **self.kw(case))
                need(got == want, f"{name}/{a} says {got}, quota {q}")
                r = info(properties, f"_check_{name.upper()}_{a.replace('-', '_')}", ("cohesive_group", "ell", "joint_candidates") + (("beta",) if name == "fjr" else ()),
                         pr, set(com), q)
                if r and not r[0]:
                    d = r[1]
                    g, l, T = set(d["cohesive_group"]), d["ell"], set(d["joint_candidates"])
                    ok_ = sum((p.w[v] for v in g), Fr(0)) >= l * q and bool(g)
                    if name != "fjr":
                        ok_ = ok_ and len(T) >= l and all(T <= p.b[v] for v in g)
                    if name == "ejr":
                        ok_ = ok_ and all(len(p.b[v] & set(com)) < l for v in g)
                    if name == "pjr":
                        ok_ = ok_ and len(set().union(*[p.b[v] for v in g]) & set(com)) < l
                    if name == "fjr":
                        bt = d["beta"]
                        ok_ = ok_ and len(T) == l and all(len(p.b[v] & T) >= bt - 1e-6 and len(p.b[v] & set(com)) < bt - 1e-6 for v in g)
                    need(ok_, f"{name}/{a}: reported {d} is no violation (quota {q})")


class C18(PropCheck):
    def check(self, case):
        from abcvoting import properties
        p, q = self.q(case)
        com = case["committee"]
        pr = gen.to_profile(case["profile"])
        for a in ("brute-force", "gurobi") if case["algo"] else ("brute-force",):
            got = properties.check("pareto", pr, com, algorithm=a)
            need(got == spec.pareto_ok(p, com), f"pareto/{a} says {got}")
            r = info(properties, "_check_pareto_optimality_" + a.replace("-", "_"), ("dominating_committee",), pr, set(com))
            if r and not r[0]:
                d = r[1]["dominating_committee"]
                need(len(set(d)) == len(com) and spec.dominates(p, d, com), f"pareto/{a}: {sorted(d)} does not dominate")
            got = properties.check("core", pr, com, algorithm=a, **self.kw(case))
            need(got == spec.core_ok(p, com, q), f"core/{a} says {got}, quota {q}")
            r = info(properties, "_check_core_" + a.replace("-", "_"), ("coalition", "objection"), pr, set(com), q)
            if r and not r[0]:
                g, T = set(r[1]["coalition"]), set(r[1]["objection"])
                need(bool(g) and sum(p.w[v] for v in g) >= len(T) * q and all(len(p.b[v] & T) > len(p.b[v] & set(com)) for v in g),
                     f"core/{a}: reported {r[1]} is no objection")


class C19(PropCheck):
    wkinds = ("unit", "int", "frac")

    def random(self, rng):
        p = gen.profile(rng, m=rng.choice([2, 3, 3, 4, 4]), n=rng.choice([1, 2, 3, 4, 5]), wkinds=self.wkinds)
        return {"profile": p, "committee": rng.sample(range(p["m"]), rng.randint(1, p["m"])), "quota": None, "algo": True}

    def check(self, case):
        from abcvoting import properties
        p = gen.to_spec(case["profile"])
        pr = gen.to_profile(case["profile"])
        for name, st in (("priceability", False), ("stable-priceability", True)):
            got = properties.check(name, pr, case["committee"])
            want = spec.priceable(p, case["committee"], st)
            need(bool(got) == want, f"{name} says {got}")


class C20(Prop):
    def exhaustive(self):
        for s in range(60):
            yield {"seed": s}

    def random(self, rng):
        return {"seed": rng.randrange(10 ** 9)}

    def nontrivial(self, case):
        return True

    def check(self, case):
        import numpy as np
        from abcvoting.preferences import Profile, Voter
        from abcvoting.misc import CandidateSet
        rng = random.Random(case["seed"])
        m = rng.choice([1, 2, 3, 4, 5, 9])
        names = None
        if rng.random() < .5:
            names = [f"n{i}" for i in range(m + rng.choice([0, 0, 2]))]
        for bad in (0, -1):
            try:
                Profile(bad)
            except ValueError:
                pass
            else:
                raise Bad(f"Profile({bad}) accepted")
        if m > 1:
            try:
                Profile(m, cand_names=["a"] * (m - 1))
            except ValueError:
                pass
            else:
                raise Bad("too few candidate names accepted")
        pr = Profile(m, cand_names=names)
        want_names = names[:m] if names else [str(i) for i in range(m)]
        need(pr.cand_names == want_names and list(pr.candidates) == list(range(m)), "names/candidates wrong")
        model = []  # list of (frozenset, weight)

        def good():
            b = rng.sample(range(m), rng.randint(0, m))
            w = rng.choice([1, 1, 1, 2, 3, Fr(1, 2), 5])
            return b, w

        def badballot():
            return rng.choice([[m], [0, m + 3], [-1], [0, 0], ["a"], [0.5], [None], [0, -2]])

        def content(q):
            return [(frozenset(v.approved), v.weight) for v in q]

        def inv(what):
            need(content(pr) == model, f"after {what}: content {content(pr)}, expected {model}")
            need(len(pr) == len(model), "length wrong")
            need(pr.total_weight() == sum(w for _, w in model), "total weight wrong")
            need(pr.has_unit_weights() == all(w == 1 for _, w in model), "unit weight query wrong")
            need(set(pr.approved_candidates()) == set().union(*[b for b, _ in model]), "approved candidates wrong")
            need(pr.num_cand == m and pr.cand_names == want_names, "candidates/names changed")
            need(bool(pr.is_party_list()) == all(len(a & b) in (0, len(a)) for a, _ in model for b, _ in model), "party-list query wrong")
            for i in range(len(model)):
                need(frozenset(pr[i].approved) == model[i][0] and isinstance(pr[i].approved, CandidateSet), "indexing wrong")
            if model:
                str(pr), pr.str_compact()
        for _ in range(rng.randint(2, 9)):
            op = rng.choice(["add", "addvoter", "adds", "bad", "badw", "set", "setbad", "weighted", "unit", "copy", "badvoter", "alias"])
            if op == "add":
                b, _w = good()
                src = rng.choice([list, set, tuple, CandidateSet])(b)
                pr.add_voter(src)
                model.append((frozenset(b), 1))
                if isinstance(src, set):
                    src.add(10 ** 6)  # the profile must not alias the caller's set
            elif op == "addvoter":
                b, w = good()
                v = Voter(b, weight=w)
                pr.add_voter(v)
                model.append((frozenset(b), w))
                v.approved.add(10 ** 6)
                v.weight = 99
            elif op == "alias":
                b, w = good()
                v = Voter(b, weight=w)
                pr.add_voters([v, v])
                model += [(frozenset(b), w)] * 2
                need(pr[-1] is not pr[-2], "the same voter object stored twice")
            elif op == "adds":
                bs = [good()[0] for _ in range(rng.randint(0, 3))]
                pr.add_voters(bs)
                model += [(frozenset(b), 1) for b in bs]
            elif op in ("bad", "badvoter"):
                b = badballot()
                try:
                    if op == "badvoter":
                        b = rng.choice([[m], [0, m + 3]])
                        pr.add_voter(Voter(b))
                    else:
                        pr.add_voter(b)
                except (ValueError, TypeError):
                    pass
                else:
                    raise Bad(f"invalid ballot {b} accepted (m={m})")
            elif op == "badw":
                w = rng.choice([0, -1, Fr(-1, 2)])
                try:
                    Voter([0], weight=w)
                except ValueError:
                    pass
                else:
                    raise Bad(f"weight {w} accepted")
            elif op == "set" and model:
                i = rng.randrange(len(model))
                b, w = good()
                if rng.random() < .5:
                    v = Voter(b, weight=w)
                    pr[i] = v
                    v.approved.add(77)
                    model[i] = (frozenset(b), w)
                else:
                    pr[i] = b
                    model[i] = (frozenset(b), 1)
            elif op == "setbad" and model:
                try:
                    pr[rng.randrange(len(model))] = badballot()
                except (ValueError, TypeError):
                    pass
                else:
                    raise Bad("invalid ballot assigned")
            elif op in ("weighted", "unit"):
                mass = {}
                for b, w in model:
                    mass[b] = mass.get(b, 0) + w
                integral = all(isinstance(w, int) for _, w in model)
                if op == "weighted":
                    pr.convert_to_weighted()
                    new = content(pr)
                    need(len({b for b, _ in new}) == len(new), "equal ballots left after conversion")
                elif integral:
                    pr.convert_to_unit_weights()
                    new = content(pr)
                    need(all(w == 1 for _, w in new), "non-unit weight left")
                    need([b for b, _ in new] == [b for b, w in model for _ in range(w)], "order changed")
                else:
                    try:
                        pr.convert_to_unit_weights()
                    except TypeError:
                        pass
                    else:
                        raise Bad("fractional weights converted to unit weights")
                    inv("failed conversion")
                    continue
                m2 = {}
                for b, w in new:
                    m2[b] = m2.get(b, 0) + w
                need(m2 == mass, f"conversion changed the ballot weights: {m2} vs {mass}")
                model = new
            elif op == "copy":
                how = rng.choice(["copy", "copy.copy", "deepcopy"])
                q = pr.copy() if how == "copy" else (copy.copy(pr) if how == "copy.copy" else copy.deepcopy(pr))
                need(content(q) == model and q.num_cand == m, f"{how}: content differs")
                need(q.cand_names == want_names, f"{how}: candidate names {q.cand_names} instead of {want_names}")
                q.add_voter([0])
                if model:
                    q[0].approved.clear()
                    q[0].weight = 42
                inv(f"modifying a {how}")
            inv(op)
        # ballots as such
        for bad in ([0, 0], [-1], ["x"], [1.0], [True and 2.5]):
            try:
                CandidateSet(bad)
            except (ValueError, TypeError):
                pass
            else:
                raise Bad(f"CandidateSet({bad}) accepted")
        need(CandidateSet([np.int64(1), 0], num_cand=2) == {0, 1}, "numpy integers")
        try:
            CandidateSet([m], num_cand=m)
        except ValueError:
            pass
        else:
            raise Bad("candidate out of range accepted")


class C21(Prop):
    wkinds = ("unit", "int", "half")

    def exhaustive(self):
        rng = random.Random(2)
        for c in list(gen.small_exhaustive(2, 2)):
            yield self.variant(rng, {"profile": c, "k": 1})

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["seed"] = rng.randrange(10 ** 6)
        return case

    def check(self, case):
        from abcvoting import fileio
        rng = random.Random(case["seed"])
        c = case["profile"]
        pr = gen.to_profile(c)
        for v in pr:  # non-integer weights are written as floats
            if not isinstance(v.weight, int):
                v.weight = float(v.weight)
        k = rng.choice([None, case["k"]])
        desc = rng.choice([None, "text", "two\nlines: {x} # no", "", "  spaced  ", "'quoted' \"x\"", "äöü", "yes", "1", "- a\n- b"])
        comp = None
        if rng.random() < .7:
            comp = []
            for _ in range(rng.randint(0, 3)):
                d = {"rule_id": rng.choice(["pav", "av", "seqphragmen"])}
                x = rng.random()
                if x < .3:
                    d["result"] = None
                elif x < .8:
                    d["result"] = [rng.sample(range(c["m"]), case["k"]) for _ in range(rng.randint(0, 3))]
                if rng.random() < .5:
                    d["resolute"] = rng.choice([True, False])
                if rng.random() < .3:
                    d["algorithm"] = "brute-force"
                if rng.random() < .3:
                    d["max_num_of_committees"] = rng.choice([1, 5, None])
                if rng.random() < .2:
                    d["profile"] = pr
                if rng.random() < .2 and k is not None:
                    d["committeesize"] = k
                comp.append(d)
        comp0 = copy.copy([dict(d) for d in comp]) if comp is not None else None
        with tempfile.TemporaryDirectory() as d_:
            fn = os.path.join(d_, "x.abc.yaml")
            fileio.write_abcvoting_instance_to_yaml_file(fn, pr, committeesize=k, compute_instances=comp, description=desc)
            need(comp is None or [{a: b for a, b in d.items() if a != "profile"} for d in comp] == [{a: b for a, b in d.items() if a != "profile"} for d in comp0], "writing changed the computation requests")
            p2, k2, comp2, data = fileio.read_abcvoting_yaml_file(fn)
            need(p2.num_cand == pr.num_cand, f"candidates {p2.num_cand} instead of {pr.num_cand}")
            need([set(v.approved) for v in p2] == [set(v.approved) for v in pr], "ballots differ")
            need([v.weight for v in p2] == [v.weight for v in pr], f"weights {[v.weight for v in p2]} instead of {[v.weight for v in pr]}")
            need(k2 == k, f"committee size {k2} instead of {k}")
            need(data.get("description") == desc, f"description {data.get('description')!r} instead of {desc!r}")
            need(len(comp2) == len(comp or []), "number of computation requests differs")
            for a, b in zip(comp2, comp or []):
                a = {x: y for x, y in a.items() if x not in ("profile", "committeesize")}
                b = {x: y for x, y in b.items() if x not in ("profile", "committeesize")}
                if b.get("result") is not None:
                    b["result"] = [set(x) for x in b["result"]]
                    a["result"] = a["result"] and [set(x) for x in a["result"]]
                need(a == b, f"computation request {b} read back as {a}")
            for d in comp2:
                need([set(v.approved) for v in d["profile"]] == [set(v.approved) for v in pr] and d["committeesize"] == k, "request lacks the profile or committee size")
            # malformed files
            txt = open(fn).read()
            for bad in ("unknown_key: 3\n" + txt, "num_cand: 3\n", txt.replace("profile:", "profil:"),
                        "profile: [[0,1],[1]]\nvoter_weights: [1]\n", "profile: [[0,0]]\n", "profile: [[0,5]]\nnum_cand: 3\n", "profile: [[0]]\ncompute:\n- result: [[0]]\n"):
                open(fn, "w").write(bad)
                try:
                    fileio.read_abcvoting_yaml_file(fn)
                except Exception:
                    continue
                raise Bad(f"malformed file accepted: {bad!r}")


class C22(Prop):
    wkinds = ("unit", "int")

    def exhaustive(self):
        for s in range(40):
            yield {"seed": s}

    def random(self, rng):
        return {"seed": rng.randrange(10 ** 9)}

    def nontrivial(self, case):
        return True

    def check(self, case):
        from collections import Counter
        from abcvoting import fileio
        rng = random.Random(case["seed"])
        with tempfile.TemporaryDirectory() as d:
            if case["seed"] % 3 == 0:
                c = gen.profile(rng, wkinds=("unit", "int"), big=True)
                if rng.random() < .5:
                    c["names"] = [f"cand {i}{'x' * (i % 2)}" for i in range(c["m"])]
                pr = gen.to_profile(c)
                fn = os.path.join(d, "p.cat")
                fileio.write_profile_to_preflib_cat_file(fn, pr)
                for uw in (False, True):
                    q = fileio.read_preflib_file(fn, top_ranks=1, use_weights=uw)
                    a, b = Counter(), Counter()
                    for v in pr:
                        a[frozenset(v.approved)] += v.weight
                    for v in q:
                        b[frozenset(v.approved)] += v.weight
                    need(q.num_cand == pr.num_cand and q.cand_names == pr.cand_names, f"names {q.cand_names} instead of {pr.cand_names}")
                    need(a == b, f"ballots {dict(b)} instead of {dict(a)}")
                    need(uw or all(v.weight == 1 for v in q), "weights without use_weights")
                return
            # hand-written preflib file
            m = rng.randint(1, 6)
            kind = rng.choice(["soc", "soi", "toc", "toi", "cat"])
            ballots = {}
            ncat = rng.randint(1, 4)
            for _ in range(rng.randint(1, 5)):
                perm = rng.sample(range(1, m + 1), m)
                if kind in ("soi", "toi"):
                    perm = perm[:rng.randint(1, m)]
                if kind in ("soc", "soi"):
                    cl = [[x] for x in perm]
                elif kind in ("toc", "toi"):
                    cl = []
                    for x in perm:
                        if cl and rng.random() < .5:
                            cl[-1].append(x)
                        else:
                            cl.append([x])
                else:
                    cl = [[] for _ in range(ncat)]
                    for x in perm:
                        cl[rng.randrange(ncat)].append(x)
                key = tuple(tuple(x) for x in cl)
                ballots[key] = ballots.get(key, 0) + rng.randint(1, 3)
            fn = os.path.join(d, "x." + kind)
            nv = sum(ballots.values())
            L = [f"# FILE NAME: x.{kind}", "# TITLE: t", "# DESCRIPTION: ", f"# DATA TYPE: {kind}", "# MODIFICATION TYPE: original",
                 "# RELATES TO: ", "# RELATED FILES: ", "# PUBLICATION DATE: 2020-01-01", "# MODIFICATION DATE: 2020-01-01",
                 f"# NUMBER ALTERNATIVES: {m}", f"# NUMBER VOTERS: {nv}", f"# NUMBER UNIQUE {'PREFERENCES' if kind == 'cat' else 'ORDERS'}: {len(ballots)}"]
            if kind == "cat":
                L.append(f"# NUMBER CATEGORIES: {ncat}")
                for i in range(ncat):
                    L.append(f"# CATEGORY NAME {i + 1}: cat{i + 1}")
            for i in range(1, m + 1):
                L.append(f"# ALTERNATIVE NAME {i}: alt{i}")
            for key, cnt in ballots.items():
                parts = []
                for g in key:
                    if kind == "cat" and len(g) == 0:
                        parts.append("{}")
                    elif len(g) == 1:
                        parts.append(str(g[0]))
                    else:
                        parts.append("{" + ",".join(map(str, g)) + "}")
                L.append(f"{cnt}: " + ",".join(parts))
            open(fn, "w").write("\n".join(L) + "\n")
            for mode in ({}, {"top_ranks": rng.randint(1, m + 1)}, {"setsize": rng.randint(1, m)}):
                exp = Counter()
                for key, cnt in ballots.items():
                    if "setsize" in mode:
                        s = []
                        for g in key:
                            if len(s) >= mode["setsize"]:
                                break
                            s += g
                        if 0 < len(s) < mode["setsize"]:
                            s = range(1, m + 1)
                    else:
                        s = [x for g in key[:mode.get("top_ranks", 1)] for x in g]
                    exp[frozenset(x - 1 for x in s)] += cnt
                for uw in (False, True):
                    q = fileio.read_preflib_file(fn, use_weights=uw, **mode)
                    b = Counter()
                    for v in q:
                        b[frozenset(v.approved)] += v.weight
                    need(b == exp, f"{kind} {mode}: ballots {dict(b)} instead of {dict(exp)} from {ballots}")
                    need(q.num_cand == m and q.cand_names == [f"alt{i}" for i in range(1, m + 1)], f"names {q.cand_names}")
                    need(len(q) == (sum(ballots.values()) if not uw else len(q)), "number of voters")
                if mode:
                    dd = fileio.read_preflib_files_from_dir(d, **mode)
                    need(list(dd) == ["x." + kind], "directory listing")
            for badkw in ({"top_ranks": 1, "setsize": 1}, {"top_ranks": -1}, {"setsize": -2}):
                try:
                    fileio.read_preflib_file(fn, **badkw)
                except ValueError:
                    continue
                raise Bad(f"parameters {badkw} accepted")


class C23(Prop):
    def exhaustive(self):
        for m in range(1, 130):
            for s in {1, 2, 3, m // 2, m - 1, m, (m * 29) % m + 1}:
                if 1 <= s <= m:
                    yield {"id": "IC fixed-size", "n": 2, "m": m, "par": {"setsize": s}}
        for m in range(1, 12):
            for s in range(1, m + 1):
                for i in ("Urn fixed-size", "Truncated Mallows", "Truncated Urn", "Euclidean fixed-size"):
                    yield {"id": i, "n": 3, "m": m, "par": {"setsize": s}, "seed": m * 100 + s}
        for m in (49, 98, 103, 107):
            for i in ("Urn fixed-size", "Truncated Mallows", "Truncated Urn", "Euclidean fixed-size"):
                yield {"id": i, "n": 2, "m": m, "par": {"setsize": 1}, "seed": 1}

    IDS = ["IC fixed-size", "IC", "Truncated Mallows", "Urn fixed-size", "Urn", "Truncated Urn", "Euclidean VCR",
           "Euclidean fixed-size", "Euclidean Threshold", "Resampling", "Disjoint Resampling", "Noise"]

    def nontrivial(self, case):
        return True

    def random(self, rng):
        i = rng.choice(self.IDS)
        m = rng.choice([1, 2, 3, 5, 8, 13, 29, 49])
        return {"id": i, "n": rng.randint(1, 6), "m": m, "par": {"setsize": rng.randint(1, m)}, "seed": rng.randrange(10 ** 6)}

    def check(self, case):
        import numpy as np
        from abcvoting import generate
        rng = random.Random(case.get("seed", 0))
        np.random.seed(case.get("seed", 0) % 2 ** 31)
        i, n, m, s = case["id"], case["n"], case["m"], case["par"]["setsize"]
        fixed = None
        par = {}
        if i in ("IC fixed-size",):
            par = {"setsize": s}
            fixed = s
        elif i == "IC":
            par = {"p": rng.choice([0.0, 0.3, 1.0])}
            if rng.random() < .3:
                par = {}
        elif i == "Truncated Mallows":
            par = {"setsize": s, "dispersion": rng.choice([0.0, 0.5, 1.0])}
            fixed = s
        elif i == "Urn fixed-size":
            par = {"setsize": s, "replace": rng.choice([0.0, 0.5, 2])}
            fixed = s
        elif i == "Urn":
            par = {"p": rng.choice([0.2, 0.7]), "replace": rng.choice([0.0, 0.5])}
        elif i == "Truncated Urn":
            par = {"setsize": s, "replace": rng.choice([0.0, 0.5])}
            fixed = s
        elif i.startswith("Euclidean"):
            D = ["1d_interval", "1d_gaussian", "1d_gaussian_interval", "2d_disc", "2d_square", "2d_gaussian", "2d_gaussian_disc", "3d_cube"]
            dv = rng.choice(D)
            dc = rng.choice([x for x in D if x[0] == dv[0]])
            par = {"voter_prob_distribution": generate.PointProbabilityDistribution(dv, center_point=[0] * int(dv[0])),
                   "candidate_prob_distribution": generate.PointProbabilityDistribution(dc, center_point=[0.2] * int(dc[0]))}
            if i == "Euclidean fixed-size":
                par["setsize"] = s
                fixed = s
            elif i == "Euclidean VCR":
                par["voter_radius"] = rng.choice([0, 0.3])
                par["candidate_radius"] = rng.choice([0.1, 0.5])
            else:
                par["threshold"] = rng.choice([1.0, 1.5, 3])
        elif i == "Resampling":
            par = {"p": rng.choice([0.2, 0.5, 1.0]), "phi": rng.choice([0.0, 0.4, 1.0])}
        elif i == "Disjoint Resampling":
            par = {"p": rng.choice([0.1, 0.3, 0.5]), "phi": rng.choice([0.0, 0.4]), "num_groups": rng.choice([1, 2])}
            if rng.random() < .3:
                par.pop("num_groups")
                par.pop("phi")
            if par.get("num_groups", 2) * par["p"] > 1:
                par["p"] = 0.2
        elif i == "Noise":
            if m > 13:
                m = 6
            par = {"p": rng.choice([0.3, 0.5]), "phi": rng.choice([0.0, 0.5, 1.0])}
            if rng.random() < .7:
                par["distance"] = rng.choice(["hamming", "jaccard", "zelinka", "bunke-shearer"])
        gens = []
        gens.append(generate.random_profile(n, m, dict(par, id=i)))
        gens.append(generate.PROBABILITY_DISTRIBUTIONS[i](n, m, **par))
        for pr in gens:
            need(len(pr) == n, f"{i}: {len(pr)} voters instead of {n}")
            need(pr.num_cand == m, f"{i}: {pr.num_cand} candidates instead of {m}")
            for v in pr:
                need(v.weight == 1, "non-unit weight")
                need(all(0 <= c < m for c in v.approved), "ballot out of range")
                if fixed is not None:
                    need(len(v.approved) == fixed, f"{i}: ballot size {len(v.approved)} instead of {fixed} (m={m})")
        if i == "Euclidean Threshold" or i == "Euclidean VCR" or i == "Euclidean fixed-size":
            pr, vp, cp = generate.random_profile(n, m, dict(par, id=i, return_points=True))
            need(len(vp) == n and len(cp) == m, "numbers of points")
            dist = [[float(np.linalg.norm(np.array(a) - np.array(b))) for b in cp] for a in vp]
            for v, row in zip(pr, dist):
                if i == "Euclidean fixed-size":
                    a = [row[c] for c in v.approved]
                    b = [row[c] for c in range(m) if c not in v.approved]
                    need(not a or not b or max(a) <= min(b) + 1e-9, "an unapproved candidate is closer than an approved one")
                elif i == "Euclidean Threshold":
                    need(all((c in v.approved) == (row[c] <= par["threshold"] * min(row)) or abs(row[c] - par["threshold"] * min(row)) < 1e-9 for c in range(m)), "threshold rule violated")
                else:
                    r = par["voter_radius"] + par["candidate_radius"]
                    need(all((c in v.approved) == (row[c] <= r) or abs(row[c] - r) < 1e-9 for c in range(m)), "radius rule violated")
        for bad in ({"id": "nosuch"}, {"p": .5}):
            try:
                generate.random_profile(n, m, bad)
            except (ValueError, KeyError):
                continue
            raise Bad(f"distribution {bad} accepted")


class C24(Prop):
    wkinds = ("unit", "unit", "int", "frac", "near")

    def big(self, rng):
        return True

    def variant(self, rng, case):
        case["seed"] = rng.randrange(10 ** 6)
        return case

    def check(self, case):
        p = gen.to_spec(case["profile"])
        k = case["k"]
        want = spec.eph(p, k)
        for a in EXACT:
            agree("eph", case["profile"], k, a, None, want)
        if p.m <= 6:
            agree("trivial", case["profile"], k, "standard", None, set(spec.combs(p.m, k)))
        if all(w == 1 for w in p.w):
            random.seed(case["seed"])
            for _ in range(3):
                r = run("rsd", case["profile"], k)
                wellformed(r, p.m, k, True, None)
                if p.n <= 6:
                    need(spec.rsd_possible(p, k, list(norm(r))[0]), f"rsd returned {fmt(r)}, which no voter order produces")


class C25(Prop):
    def exhaustive(self):
        for s in range(150):
            yield {"seed": s}

    def random(self, rng):
        return {"seed": rng.randrange(10 ** 9)}

    def nontrivial(self, case):
        return True

    def check(self, case):
        import math
        from abcvoting import misc, abcrules
        rng = random.Random(case["seed"])
        m = rng.randint(1, 5)
        k = rng.randint(1, m)
        pool = [set(c) for c in itertools.combinations(range(m), k)]
        typ = rng.choice([set, misc.CandidateSet])
        a = [typ(x) for x in rng.sample(pool, rng.randint(0, min(3, len(pool))))]
        b = [typ(x) for x in (rng.sample(a, len(a)) if rng.random() < .4 else rng.sample(pool, rng.randint(0, min(3, len(pool)))))]
        if rng.random() < .3 and a:  # lists with repeated committees
            a = a + [typ(rng.choice(a)) for _ in range(rng.randint(1, 2))]
        if rng.random() < .3 and b:
            b = b + [typ(rng.choice(b)) for _ in range(rng.randint(1, 2))]
        eq = norm(a) == norm(b)
        need(misc.compare_list_of_committees(a, b) == eq, f"comparison of {a} and {b}")
        for res in (False, True):
            ok = (len(a) == 1 and norm(a) <= norm(b)) if res else eq
            try:
                misc.verify_expected_committees_equals_actual_committees(a, b, resolute=res)
                got = True
            except (ValueError, RuntimeError):
                got = False
            need(got == ok, f"verification of {a} against {b} (resolute={res}) gave {got}")
        # compute(result=...)
        pr_case = gen.profile(rng, m=rng.randint(2, 4), n=3, wkinds=("unit",))
        kk = rng.randint(1, pr_case["m"])
        for rid in ("av", "seqpav", "pav"):
            for res in (None, True, False):
                kw = {} if res is None else {"resolute": res}
                pr = gen.to_profile(pr_case)
                act = abcrules.compute(rid, pr, kk, algorithm="standard" if rid != "pav" else "brute-force", **kw)
                isres = {"av": False, "seqpav": True, "pav": False}[rid] if res is None else res
                allc = [set(c) for c in itertools.combinations(range(pr_case["m"]), kk)]
                exp = [misc.CandidateSet(x) for x in (act if rng.random() < .4 else rng.sample(allc, rng.randint(0, min(3, len(allc)))))]
                rng.shuffle(exp)
                ok = norm(act) <= norm(exp) if isres else norm(act) == norm(exp)
                try:
                    out = abcrules.compute(rid, pr, kk, algorithm="standard" if rid != "pav" else "brute-force", result=exp, **kw)
                    got = True
                except (ValueError, RuntimeError):
                    got = False
                need(got == ok, f"{rid} resolute={res}: computed {fmt(act)}, expected {fmt(exp)}: verification gave {got}")
        # helpers
        s1 = set(rng.sample(range(8), rng.randint(0, 6)))
        s2 = set(rng.sample(range(8), rng.randint(0, 6)))
        need(misc.hamming(s1, s2) == len(s1 ^ s2), "hamming")
        it = rng.sample(range(9), rng.randint(0, 5))
        ms = rng.choice([None, 0, 1, 2, 3])
        ps = list(misc.powerset(it, max_size=ms) if ms is not None else misc.powerset(it))
        top = len(it) if ms is None else min(ms, len(it))
        want = [frozenset(c) for r in range(top + 1) for c in itertools.combinations(it, r)]
        need(sorted(map(sorted, ps)) == sorted(map(sorted, want)), f"powerset({it}, {ms})")
        n_, k_ = rng.randint(0, 9), rng.randint(0, 9)
        need(misc.binom(n_, k_) == math.comb(n_, k_), f"binom({n_},{k_})")
        sp = gen.to_spec(pr_case)
        c1, c2 = (set(rng.sample(range(sp.m), rng.randint(1, sp.m))) for _ in range(2))
        need(bool(misc.dominate(gen.to_profile(pr_case), c1, c2)) == spec.dominates(sp, c1, c2), f"dominate {c1} {c2}")
        coms = [rng.sample(range(12), 3) for _ in range(rng.randint(0, 4))]
        out = misc.sorted_committees(coms)
        need(sorted(map(sorted, out)) == sorted(map(sorted, coms)), "sorted_committees lost or added a committee")
        need(all(isinstance(x, misc.CandidateSet) for x in out), "sorted_committees type")
        need(misc.sorted_committees(list(reversed(coms))) == out, "sorted_committees depends on the order")


PROPS = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Prop) and k[0] == "C" and k[1:].isdigit()}
