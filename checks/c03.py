"""C03  The Laue operator sets are the 11 rotation groups."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot, sym
from ebsdtorch.s2_and_so3.laue_generators import laue_elements, get_laue_mult
import ebsdtorch.s2_and_so3.quaternions as Q

N = 5 if THOROUGH else 3
ck = Check("C03", bounds="11 operator sets: all products, inverses and all words over the operators until closure; "
           f"orbits of all primitive directions with indices up to {N}")


def key(q):
    return tuple(np.round(sym.canon(q), 6) + 0.0)


def mk(L):
    @ck.group(f"group{L}")
    def g(cx):
        e = cx.call(laue_elements, L)
        if e is None:
            return
        n = sym.MULT[L] // 2
        cx.expect(get_laue_mult(L) == sym.MULT[L], "mult", "multiplicity")
        cx.expect(tuple(e.shape) == (n, 4), "shape", f"{tuple(e.shape)} operators instead of {n}")
        q = e.double().numpy()
        cx.close(np.linalg.norm(q, axis=1), np.ones(len(q)), "unit", "operators are unit quaternions", tol=1e-12)
        cx.close(q[0], [1, 0, 0, 0], "identity", "the first operator is the identity", tol=0)
        S = {key(x) for x in q}
        cx.expect(len(S) == len(q), "distinct", "operators are pairwise distinct rotations")
        ref = {key(x) for x in sym.GROUP[L]}
        cx.expect(S == ref, "reference", "operator set differs from the group generated by the axes of the Laue class")
        for x in S:
            cx.state(L, x)
        # products through the library, exact closure
        P = cx.call(Q.qu_prod, e[:, None], e[None])
        if P is not None:
            P = P.reshape(-1, 4).numpy()
            cx.expect_all([key(x) in S for x in P], "closed", "product of two operators is an operator")
            d = np.minimum(np.abs(P[:, None] - q[None]).max(-1), np.abs(P[:, None] + q[None]).max(-1)).min(1)
            cx.expect_all(d < 1e-12, "closed-exact", "the product is an operator to double precision")
        C = cx.call(Q.qu_conj, e)
        cx.expect_all([key(x) in S for x in C.numpy()], "inverse", "the inverse of an operator is an operator")
        # all words over the operators, by breadth first search
        words, edges = sym.closure(list(q), limit=400)
        cx.trans(edges)
        cx.expect(len(words) == n, "words", f"the words over the operators reach {len(words)} rotations instead of {n}")
        # orbits of directions
        dirs = rot.lattice_dirs(N)
        o = cx.call(Q.qu_apply, e[None], torch.tensor(dirs)[:, None, :]).numpy()
        Ro = np.einsum("sij,nj->nsi", sym.GROUPR[L], dirs)
        a = np.sort(np.round(o, 6).astype(np.float64) @ np.array([1, 1e3, 1e6]), 1)
        b = np.sort(np.round(Ro, 6) @ np.array([1, 1e3, 1e6]), 1)
        # orbits as multisets
        ok = np.abs(np.abs(o[:, :, None] - Ro[:, None]).max(-1).min(2)).max(1) < 1e-9
        ok &= np.abs(np.abs(o[:, :, None] - Ro[:, None]).max(-1).min(1)).max(1) < 1e-9
        cx.expect_all(ok, "orbit", "orbit of a direction under the operators", rows=dirs)
        cx.states(("orbit", L), dirs)
        for i in range(0, len(dirs), max(1, len(dirs) // 50)):
            pts = {tuple(np.round(x, 6) + 0.0) for x in o[i]}
            stab = int((np.abs(o[i] - dirs[i]).max(-1) < 1e-9).sum())
            cx.expect(len(pts) * stab == n, "orbit-stabiliser", "orbit size times stabiliser size is the group order", d=dirs[i])
        if L == 11:
            cx.sample(laue=L, direction=dirs[7], orbit=sorted({tuple(np.round(x, 6)) for x in o[7].tolist()}))


for L in range(1, 12):
    mk(L)


@ck.group("history")
def history(cx):
    """what a caller does to the operators does not change those of the next one"""
    for a in range(1, 12):
        for b in range(1, 12):
            for op in ("fill", "conj", "rows", "transpose"):
                cx.state("history", a, b, op)
                e = cx.call(laue_elements, a)
                if e is None:
                    return
                if op == "fill":
                    e.fill_(0.25)
                elif op == "conj":
                    e[:, 1:] *= -1
                elif op == "rows":
                    e[0] = e[-1].clone()
                else:
                    e.t_()
                for L in {a, b}:
                    q = cx.call(laue_elements, L)
                    cx.expect(q is not None and tuple(q.shape) == (sym.MULT[L] // 2, 4) and {key(x) for x in q.double().numpy()} == {key(x) for x in sym.GROUP[L]},
                              "history", f"operators of group {L} after those of {a} were changed by {op}")


@ck.group("subgroups")
def subgroups(cx):
    es = {L: {key(x) for x in laue_elements(L).numpy()} for L in range(1, 12)}
    rs = {L: {key(x) for x in sym.GROUP[L]} for L in range(1, 12)}
    for a in range(1, 12):
        for b in range(1, 12):
            cx.state(a, b)
            cx.expect((es[a] <= es[b]) == (rs[a] <= rs[b]), f"sub/{a}/{b}", f"is Laue group {a} a subgroup of {b}")
    inc = [(a, b) for a in es for b in es if es[a] < es[b]]
    cx.sample(proper_inclusions=inc)


if __name__ == "__main__":
    ck.main()
