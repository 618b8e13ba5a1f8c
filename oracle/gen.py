"""Case generators (seeded).  A case profile is a JSON-able dict {"m":, "ballots":[[..]], "weights":["1/2",..]}."""
import itertools
from fractions import Fraction as Fr


def mk(m, ballots, weights=None):
    ballots = [sorted(set(b)) for b in ballots]
    return {"m": m, "ballots": ballots, "weights": [str(Fr(w)) for w in (weights or [1] * len(ballots))]}


def small_exhaustive(max_m=3, max_n=2):
    """all profiles (up to voter order) with at most max_m candidates, max_n voters, unit weights"""
    for m in range(1, max_m + 1):
        subsets = [s for r in range(m + 1) for s in itertools.combinations(range(m), r)]
        for n in range(1, max_n + 1):
            for bs in itertools.combinations_with_replacement(subsets, n):
                yield mk(m, bs)


WEIGHTS = {
    "unit": lambda rng, n: [1] * n,
    "int": lambda rng, n: [rng.choice([1, 1, 2, 3, 5]) for _ in range(n)],
    "frac": lambda rng, n: [Fr(rng.choice([1, 2, 3, 5, 7]), rng.choice([1, 2, 3, 4, 6])) for _ in range(n)],
    "half": lambda rng, n: [Fr(rng.choice([1, 2, 3, 5, 7, 1]), rng.choice([1, 2, 4, 3, 10])) for _ in range(n)],
    "tiny": lambda rng, n: [Fr(rng.choice([1, 1, 2, 3]), rng.choice([10, 20, 7, 30])) for _ in range(n)],
    # almost equal weights: exact arithmetic must tell them apart
    "near": lambda rng, n: _near(rng, n),
}


def _near(rng, n):
    eps = rng.choice([Fr(1, 10 ** 14), Fr(1, 10 ** 10), Fr(1, 10 ** 20)])
    if rng.random() < 0.5:
        big = rng.choice([10 ** 13, 10 ** 17])
        return [big * rng.choice([1, 1, 2]) + rng.choice([0, 0, 1]) for _ in range(n)]
    return [rng.choice([1, 1, 2]) + eps * rng.choice([0, 0, 1]) for _ in range(n)]


def ballots(rng, m, n, style):
    if style == "uniform":
        p = rng.choice([0.2, 0.4, 0.6, 0.8])
        return [[c for c in range(m) if rng.random() < p] for _ in range(n)]
    if style == "size":
        s = rng.randint(1, m)
        return [rng.sample(range(m), s) for _ in range(n)]
    if style == "party":
        g = rng.randint(1, min(4, m))
        parts = [[c for c in range(m) if c % g == i] for i in range(g)]
        return [list(rng.choice(parts)) for _ in range(n)]
    if style == "few":  # some candidates unapproved, empty ballots
        pool = rng.sample(range(m), rng.randint(0, m - 1) if m > 1 else 1) if m else []
        return [[c for c in pool if rng.random() < 0.6] for _ in range(n)]
    if style == "copies":
        base = [[c for c in range(m) if rng.random() < 0.5] for _ in range(max(1, n // 2))]
        return [list(rng.choice(base)) for _ in range(n)]
    if style == "cyclic":  # many ties
        s = rng.randint(1, m)
        off = rng.randrange(m)
        return [[(i + j + off) % m for j in range(s)] for i in range(n)]
    if style == "singletons":
        return [[rng.randrange(m)] for _ in range(n)]
    if style == "sparse":  # one big ballot, rest small
        return [list(range(m))] + [rng.sample(range(m), min(m, rng.randint(0, 2))) for _ in range(n - 1)]
    raise ValueError(style)


STYLES = ["uniform", "size", "party", "few", "copies", "cyclic", "singletons", "sparse", "uniform", "size"]


def profile(rng, m=None, n=None, wkinds=("unit", "int", "frac"), big=False, style=None):
    if m is None:
        m = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
        if big and rng.random() < 0.25:
            m = rng.choice([8, 9, 10, 11, 12])
    if n is None:
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7])
    w = WEIGHTS[rng.choice(list(wkinds))](rng, n)
    return mk(m, ballots(rng, m, n, style or rng.choice(STYLES)), w)


def to_profile(case):
    """abcvoting profile (weights: int when integral, else Fraction)"""
    from abcvoting.preferences import Profile, Voter
    pr = Profile(case["m"], cand_names=case.get("names"))
    for b, w in zip(case["ballots"], case["weights"]):
        w = Fr(w)
        w = w.numerator if w.denominator == 1 and not case.get("exact") else w
        pr.add_voter(Voter(b, weight=w, num_cand=case["m"]))
    return pr


def to_spec(case):
    from oracle.spec import P
    return P(case["m"], case["ballots"], case["weights"])
