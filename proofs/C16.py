from proofs.common import *

LEVEL = "exploration"
TECHNIQUE = "contracts on the real functions: _check_JR by VCs generated from /repo's source on every run (z3); the rest by executable contracts on bounded inputs"
NOTE = "_check_JR is proved exact for all profiles, committees and positive quotas; _check_EJR_plus, the default quota and the reported groups are checked by the executable contracts on bounded inputs only. Trusted: engine/, z3."


def quota(M):
    q = M.fresh("quota", "real")
    M.assume(q > 0)
    M.g.q = q
    return q


def jr_violation(C, q):
    """some candidate is jointly approved by voters with no approved member, of total weight at least q"""
    return Ex("cand", lambda c: Sum(n, lambda v: z3.If(z3.And(A(v)[c], sat(v, C) == 0), w(v), z3.RealVal(0)), "voter") >= q)


def ejrp_violation(C, q):
    """a candidate outside C is jointly approved by voters with fewer than l approved members, of total weight at least l*q"""
    return Ex("cand", lambda c: And_(z3.Not(L.read(C, c)), Ex("int", lambda l: And_(l >= 1, Sum(n, lambda v: z3.If(z3.And(A(v)[c], sat(v, C) < l), w(v), z3.RealVal(0)), "voter") >= z3.ToReal(l) * q))))


def targets(tree):
    out = []

    def args(M):
        M.g.C = com(M, "C", "cset")
        return [profile, M.g.C, quota(M)], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        C = arr_of(M, M.g.C)
        iff(M, "_check_JR", r[0], Not_(jr_violation(C, M.g.q)))
    out.append(Target("properties._check_JR", ("properties", "_check_JR"), args, post))

    return out
