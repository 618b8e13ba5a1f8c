from proofs.common import *

LEVEL = "proof"
TECHNIQUE = "contracts on the real functions, VCs generated from /repo's source on every run, z3"
NOTE = "hamming, dominate and compare_list_of_committees are proved for all inputs; the remaining functions are cross-checked on bounded inputs only. Trusted: the executor's Python semantics (engine/), z3."


def targets(tree):
    out = []

    # hamming
    def args(M):
        M.g.a, M.g.b = com(M, "X"), com(M, "Y", "lcom")
        return [M.g.a, M.g.b], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        a, b = arr_of(M, M.g.a), arr_of(M, M.g.b)
        M.oblige("hamming = size of the symmetric difference", r == Card(lambda c: L.read(a, c) != L.read(b, c)),
                 comb=[r - Card(lambda c: L.read(a, c) != L.read(b, c))])
    out.append(Target("misc.hamming", ("misc", "hamming"), args, post))

    # dominate
    def args(M):
        M.g.a, M.g.b = com(M, "X", "cset"), com(M, "Y", "lcom")
        return [profile, M.g.a, M.g.b], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        a, b = arr_of(M, M.g.a), arr_of(M, M.g.b)
        iff(M, "dominate", r, And_(All("voter", lambda v: sat(v, a) >= sat(v, b)), Ex("voter", lambda v: sat(v, a) > sat(v, b))))
    out.append(Target("misc.dominate", ("misc", "dominate"), args, post))

    # compare
    def args(M):
        M.g.a, M.g.P = bag(M, "L1")
        M.g.b, M.g.Q = bag(M, "L2")
        return [M.g.a, M.g.b], {}

    def post(M, o):
        r = returned(M, o)
        if r is None:
            return
        iff(M, "compare_list_of_committees", r, All("com", lambda C: M.g.P(C) == M.g.Q(C)))
    out.append(Target("misc.compare_list_of_committees", ("misc", "compare_list_of_committees"), args, post))
    return out
