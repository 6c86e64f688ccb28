"""C16  Space group operators: closed groups of the right type and origin."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, hashlib, io, json
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
import ebsdtorch.crystallography.groups as G

ck = Check("C16", bounds="all 230 space groups and all 24 second settings: every operator, every product of two operators, every inverse; every symmetry element named in the symbol")
GOLD = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "sg_golden.json")))


def fingerprint(S):
    return hashlib.blake2b(repr(sorted(S)).encode(), digest_size=10).hexdigest()


def operators(cx, sg, s):
    with contextlib.redirect_stdout(io.StringIO()):
        o = cx.call(G.sg_operators, sg, s, _key=f"sg{sg}-{s}")
    if o is None:
        return None
    o = o.double().numpy()
    if not cx.expect(o.ndim == 3 and o.shape[1:] == (4, 4), f"{sg}-{s}/shape", f"{o.shape}"):
        return None
    return o


def mk(lo, hi):
    @ck.group(f"groups{lo}", timeout=500)
    def g(cx):
        for sg in range(lo, hi):
            for s in (1, 2) if sg in R.TWO else (1,):
                o = operators(cx, sg, s)
                if o is None:
                    continue
                nm = f"{sg} {R.HM[sg-1]} setting {s}"
                k = f"{sg}-{s}"
                W, w = np.round(o[:, :3, :3]).astype(int), o[:, :3, 3]
                w24 = np.round(w * 24).astype(int)
                cx.expect(np.abs(o[:, :3, :3] - W).max() < 1e-12 and np.abs(w * 24 - w24).max() < 1e-9, f"{k}/exact", f"{nm}: rotation parts are integers and translations multiples of 1/24")
                cx.expect((o[:, 3] == [0, 0, 0, 1]).all(), f"{k}/homogeneous", f"{nm}: the last row of every operator is 0 0 0 1")
                cx.expect((w > -1e-12).all() and (w < 1 - 1e-9).all(), f"{k}/range", f"{nm}: translations lie in [0, 1)")
                key = [(tuple(int(x) for x in a.ravel()), tuple(int(x) % 24 for x in b)) for a, b in zip(W, w24)]
                S = set(key)
                cx.expect(len(S) == len(key), f"{k}/distinct", f"{nm}: operators are pairwise distinct")
                n = R.PG_ORDER[R.pg_index(sg)] * len(R.centering(sg))
                cx.expect(len(S) == n, f"{k}/order", f"{nm}: {len(S)} operators instead of {n}")
                cx.expect(G.sg_ords[sg - 1] == n, f"{k}/table", f"{nm}: tabulated order {G.sg_ords[sg-1]} instead of {n}")
                for x in S:
                    cx.state(sg, s, x)
                # closure: all products, all inverses
                PW = np.einsum("aij,bjk->abik", W, W).reshape(-1, 9)
                Pw = ((np.einsum("aij,bj->abi", W, w24) + w24[:, None]) % 24).reshape(-1, 3)
                prod = set(map(tuple, np.concatenate([PW, Pw], 1).tolist()))
                flat = {a + b for a, b in S}
                cx.trans(len(PW))
                cx.expect(prod == flat, f"{k}/closed", f"{nm}: not closed under products")
                I = (1, 0, 0, 0, 1, 0, 0, 0, 1)
                cx.expect((I, (0, 0, 0)) in S, f"{k}/identity", f"{nm}: no identity")
                cen = {b for a, b in S if a == I}
                cx.expect(cen == set(R.centering(sg)), f"{k}/centering", f"{nm}: lattice translations {sorted(cen)}")
                cx.expect(R.laue_from_ops(list(W)) == R.laue(sg), f"{k}/laue", f"{nm}: Laue class of the rotation parts")
                ops = list(zip(W, w24))
                cx.expect(R.symmorphic(ops, sg) == (sg in G.sg_symmorphic), f"{k}/symmorphic", f"{nm}: listed as {'' if sg in G.sg_symmorphic else 'not '}symmorphic")
                f = R.kinds(ops, sg)
                for di, toks in enumerate(R.parts(sg)):
                    for t in toks:
                        cx.expect(R.has(f, di, t, sg), f"{k}/element{di}{t}", f"{nm}: no symmetry element {t} along direction {di}")
                inv = [b for a, b in S if a == tuple(-x for x in I)]
                if inv and (sg not in R.TWO or s == 2):
                    cx.expect((0, 0, 0) in inv, f"{k}/origin", f"{nm}: no inversion centre at the origin")
                if sg in G.sg_symmorphic:
                    cx.expect({b for a, b in S} == set(R.centering(sg)), f"{k}/origin-symmorphic", f"{nm}: origin is not on the point of full symmetry")
                cx.expect(GOLD.get(k) == fingerprint(S), f"{k}/reference", f"{nm}: operators differ from the reference table (origin or axes)")
                if s == 2:
                    o1 = operators(cx, sg, 1)
                    cx.expect(o1 is not None and o1.shape == o.shape, f"{k}/settings", f"{nm}: the settings have different orders")
        cx.expect(sorted(G.sg_two_settings) == R.TWO, "two", "space groups with two origin choices")
        cx.sample(sg=lo, symbol=R.HM[lo - 1], order=len(operators(cx, lo, 1)))


for lo in range(1, 231, 23):
    mk(lo, min(lo + 23, 231))

if __name__ == "__main__":
    if "--freeze" in sys.argv:
        out = {}
        for sg in range(1, 231):
            for s in (1, 2) if sg in R.TWO else (1,):
                o = G.sg_operators(sg, s).double().numpy()
                out[f"{sg}-{s}"] = fingerprint({(tuple(int(x) for x in np.round(a[:3, :3]).astype(int).ravel()), tuple(int(x) % 24 for x in np.round(a[:3, 3] * 24).astype(int))) for a in o})
        json.dump(out, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "sg_golden.json"), "w"), indent=0)
        sys.exit(0)
    ck.main()
