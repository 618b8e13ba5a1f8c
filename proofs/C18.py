from proofs.common import *
from engine.builtins_ import cnd

LEVEL = "exploration"
TECHNIQUE = "contracts on the real functions: brute-force checks by VCs generated from /repo's source on every run (z3); Gurobi checks by executable contracts on bounded inputs"
NOTE = "The brute-force Pareto and core checks are proved exact for all profiles, committees and positive quotas (with the lemma that unapproved candidates can be removed from a blocking set); the Gurobi formulations are checked by the executable contracts on bounded inputs only. Trusted: engine/, z3, itertools."


def dominates(a, b):
    return And_(All("voter", lambda v: sat(v, a) >= sat(v, b)), Ex("voter", lambda v: sat(v, a) > sat(v, b)))


def quota(M):
    q = M.fresh("quota", "real")
    M.assume(q > 0)
    M.g.q = q
    return q


def blocking(C, q):
    """a set T of candidates whose size times the quota is at most the weight of the voters preferring T to C, of which there is one"""
    return Ex("com", lambda T: blocks(T, C, q))


def supp(T, C):
    return Sum(n, lambda v: z3.If(sat(v, T) > sat(v, C), w(v), z3.RealVal(0)), "voter")


def blocks(T, C, q):
    return And_(Ex("voter", lambda v: sat(v, T) > sat(v, C)), z3.ToReal(L.size_of(T)) * q <= supp(T, C))


def small(U, C, q):
    """a blocking set of approved candidates only, of size at most floor(total weight / quota)"""
    return [All("cand", lambda c: Imp(L.read(U, c), approved(c))), Ex("voter", lambda v: sat(v, U) > sat(v, C)),
            z3.ToReal(L.size_of(U)) * q <= supp(U, C), L.size_of(U) <= z3.ToInt(total() / q)]


def restrict_lemma():
    """if a set blocks C, then its approved members form a blocking set that is small()"""
    def build(M):
        T, C = arr_of(M, com(M, "T")), arr_of(M, com(M, "C"))
        q = M.fresh("q", "real")
        M.oblige("candidates of ballots are approved", All("voter", lambda v: All("cand", lambda c: Imp(A(v)[c], approved(c)))))
        M.oblige("the weight of a group is at most the total weight", supp(T, C) <= total())
        U = L.Lam(lambda c: z3.And(L.read(T, c), approved(c)), L.B)
        M.pool("com", U)
        M.oblige("unapproved candidates can be removed (same satisfaction)", All("voter", lambda v: sat(v, U) == sat(v, T)))
        M.oblige("not larger", L.size_of(U) <= L.size_of(T))
        M.oblige("same group", supp(U, C) == supp(T, C))

    def build2(M):
        # the numbers of the previous part: sizes a <= b, weights of the groups s, total weight W
        a, b = M.fresh("a", "int"), M.fresh("b", "int")
        q, s_, W = (z3.Real(x) for x in "qsW")
        M.assume(z3.And(q > 0, a >= 0, a <= b, z3.ToReal(b) * q <= s_, s_ <= W))
        M.oblige("smaller sets need less weight", z3.ToReal(a) * q <= z3.ToReal(b) * q)
        M.oblige("size bound of the quota", z3.ToReal(a) * q <= s_)
        M.oblige("weight bound of the quota", z3.ToReal(a) * q <= W)
        use_quota(M, a, W, q)
        M.oblige("at most floor(total weight / quota) candidates", a <= z3.ToInt(W / q))
    return [lemma("blocking sets without unapproved candidates", build), lemma("blocking sets without unapproved candidates (size)", build2)]


def targets(tree):
    out = [quota_lemma()] + restrict_lemma()

    def args(M):
        M.g.C = com(M, "C", "cset")
        return [profile, M.g.C], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        C = arr_of(M, M.g.C)
        iff(M, "_check_pareto_optimality_brute_force", r[0], All("com", lambda T: Imp(L.size_of(T) == L.size_of(C), Not_(dominates(T, C)))))
    out.append(Target("properties._check_pareto_optimality_brute_force", ("properties", "_check_pareto_optimality_brute_force"), args, post))

    def args(M):
        M.g.C = com(M, "C", "cset")
        return [profile, M.g.C, quota(M)], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        C = arr_of(M, M.g.C)
        ans = bi.truth(M, r[0])
        if ans is not True:
            T = arr_of(M, bi.get_item(M, r[1], "objection"))
            for i, f in enumerate(blocks(T, C, M.g.q).fs):
                M.oblige(f"_check_core_brute_force: the reported set blocks the committee if the answer is no ({i + 1})", Imp(Not_(ans), f), assume=False)
        if ans is not False:
            q = M.g.q
            # if there is a blocking set, there is a small one (restrict_lemma)
            U = M.fresh("U", "com")
            M.assume(cnd(ans))
            for f in small(U, C, q):
                M.assume(f)
            M.oblige("_check_core_brute_force: no blocking set if the answer is yes", False)
    out.append(Target("properties._check_core_brute_force", ("properties", "_check_core_brute_force"), args, post, tlimit=350))
    return out
