"""C21  Wigner d functions."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from ebsdtorch.harmonics import wigner_d_logspace as W
from ebsdtorch.harmonics import wigner_d_xnum as X

PI, HALF, CPU = math.pi, math.pi / 2, torch.device("cpu")
LMAX = 40 if THOROUGH else 24
DEEP = (100, 200, 300, 365, 500) if THOROUGH else (100, 200, 300, 365)
ck = Check("C21", bounds=f"every (l, m, n) of every table of maximum degree 0..{LMAX} over a lattice of angles that includes both ends, pi/2 and their neighbours, four methods, both number types; "
           f"tables of degree {DEEP} at selected degrees; every index up to degree 150 (and the edges of every block up to 2500); all signs and orders of (l, m, n) in the lookups")


def jx(l):
    m = np.arange(-l, l)
    c = np.sqrt(l * (l + 1.0) - m * (m + 1.0)) / 2
    w, v = np.linalg.eigh(np.diag(c, 1) + np.diag(c, -1))
    return np.round(w), v


_J = {}


def dmat(l, b):
    """d^l(b) = exp(-i b Jy) with Jy = i^-m Jx i^m, indices (m + l, n + l)"""
    if l not in _J:
        _J[l] = jx(l)
    w, v = _J[l]
    c, s = (v * np.cos(b * w)) @ v.T, (v * np.sin(b * w)) @ v.T
    k = np.arange(2 * l + 1)
    k = (k[None] - k[:, None]) % 4  # i^(n - m) (c - i s)
    return np.select([k == 0, k == 1, k == 2], [c, s, -c], -s)


def block(l, b):
    """entries l >= m >= n >= 0 in the order of the table"""
    d = dmat(l, b)[l:, l:]
    i, j = np.tril_indices(l + 1)
    return d[j, i]


def size(l):
    return (l + 1) * (l + 2) * (l + 3) // 6


def coords(L):
    return np.array([(l, m, n) for l in range(L + 1) for m in range(l + 1) for n in range(m + 1)])


NEAR = (1e-10, 1e-6, 1e-3)
LAT = 24
LO = sorted({HALF * k / LAT for k in range(LAT + 1)} | set(NEAR) | {HALF - e for e in NEAR})
HI = sorted({HALF + HALF * k / LAT for k in range(LAT + 1)} | {HALF + e for e in NEAR} | {PI - e for e in NEAR} | {PI})
F64, F32 = torch.float64, torch.float32
METHODS = {
    "lower64": (lambda b, L: W.wigner_d_lt_half_pi(b, L, F64, CPU), LO, 2e-10),
    "lower32": (lambda b, L: W.wigner_d_lt_half_pi(b, L, F32, CPU), LO, 3e-4),
    "upper64": (lambda b, L: W.wigner_d_gt_half_pi(b, L, F64, CPU), HI, 2e-10),
    "upper32": (lambda b, L: W.wigner_d_gt_half_pi(b, L, F32, CPU), HI, 3e-4),
    "half64": (lambda b, L: W.wigner_d_eq_half_pi(L, F64, CPU), [HALF], 2e-10),
    "half32": (lambda b, L: W.wigner_d_eq_half_pi(L, F32, CPU), [HALF], 3e-4),
    "extended": (lambda b, L: X.wigner_d_xnum(torch.tensor(b, dtype=F64), L, CPU), sorted(set(LO) | set(HI)), 2e-10),
}


def lattice(name):
    fn, angles, tol = METHODS[name]

    @ck.group(f"tables-{name}", timeout=800)
    def g(cx):
        co = coords(LMAX)
        for b in angles:
            ref = np.concatenate([block(l, b) for l in range(LMAX + 1)])
            for L in range(LMAX + 1):
                if not THOROUGH and L > 6 and L % 6 and len(angles) > 1:
                    continue
                t = cx.call(fn, b, L, _key="table", _case=dict(method=name, beta=b, degree=L))
                if t is None:
                    continue
                n = size(L)
                t = t.double().reshape(-1).numpy()
                if not cx.expect(len(t) >= n, "size", f"table of degree {L} has {len(t)} entries", beta=b, degree=L):
                    continue
                cx.close(t[:n], ref[:n], "value", f"{name}: entry of the table is not the Wigner d function", tol=tol, rows=co[:n], beta=b, degree=L)
                cx.state(name, b, L)
            cx.states((name, round(b, 12)), co)
        cx.sample(method=name, degree=L, beta=angles[-1], last=float(t[-1]))


for name in METHODS:
    lattice(name)


def deep(L):
    @ck.group(f"deep-{L}", timeout=800)
    def g(cx):
        for name, (fn, _, _) in METHODS.items():
            tol = 1e-8 if not name.endswith("32") else 2e-2 * max(1, L / 300) ** 2
            angles = {"lower": (1e-6, 0.02, 0.3, 1.2, HALF - 1e-6), "upper": (HALF + 1e-6, 1.9, 2.8, PI - 0.02, PI - 1e-6), "half": (HALF,)}.get(name[:-2], (0.0, 0.02, 0.3, 1.2, HALF, 1.9, PI - 0.02, PI))
            if not THOROUGH and L > 200:
                angles = {5: angles[1:4:2], 8: angles[1:-1:2]}.get(len(angles), angles)
            for b in angles:
                t = cx.call(fn, b, L, _key="table", _case=dict(method=name, beta=b, degree=L))
                if t is None:
                    continue
                t = t.reshape(-1)[: size(L)]
                cx.expect(bool(torch.isfinite(t).all()), name + "-finite", f"{name}: entries of degree {L} are not finite", beta=b, n_bad=int((~torch.isfinite(t)).sum()))
                cx.expect(float(t.abs().max()) < 1 + 10 * tol, name + "-bounded", f"{name}: entries of degree {L} exceed 1", beta=b)
                for l in sorted({50, L // 2, L}):
                    s = size(l - 1)
                    i, j = np.tril_indices(l + 1)
                    cx.close(t[s : s + (l + 1) * (l + 2) // 2].double().numpy(), block(l, b), name, f"{name}: entry is not the Wigner d function", tol=tol, rows=np.stack([i, j], 1), beta=b, degree=l, of=L)
                    cx.state(name, b, L, l)
        cx.sample(method=name, degree=L, beta=b)


for L in DEEP[::-1]:
    deep(L)


@ck.group("beyond", timeout=800, thorough_only=True)
def beyond(cx):
    L, b = 1030, 0.8
    for nm, fn in (("extended", METHODS["extended"][0]), ("lower64", METHODS["lower64"][0])):
        t = cx.call(fn, b, L, _key="table", _case=dict(method=nm, beta=b, degree=L))
        if t is None:
            continue
        cx.expect(bool(torch.isfinite(t).all()), "finite", f"{nm}: entries of degree {L} are not finite")
        for l in (1022, 1024, 1030):
            s = size(l - 1)
            cx.close(t[s : s + (l + 1) * (l + 2) // 2].numpy(), block(l, b), "value", f"{nm}: entry is not the Wigner d function", tol=1e-7, degree=l)
            cx.state(nm, l)
        del t
    cx.sample(degree=L, beta=b)


@ck.group("index", timeout=600)
def index(cx):
    L = 150
    co = torch.from_numpy(coords(L))
    want = torch.arange(len(co))
    for mod in (W, X):
        for dt in (torch.int32, torch.int64):
            i = cx.call(mod.index_from_coords, co.to(dt), _key="index", _case=str(dt))
            if i is not None:
                cx.close(i.long(), want, "index", "index of (l, m, n) is not its place in the order of l, m, n", tol=0, rows=co, dtype=str(dt))
    for dt in (torch.int32, torch.int64):
        c = cx.call(W.coords_from_index, want.to(dt), _key="coords", _case=str(dt))
        if c is not None:
            cx.close(c.long(), co, "coords", "coordinates of an index are not (l, m, n) of its place", tol=0, dtype=str(dt))
        # each index alone or with others
        for k in range(200):
            c = cx.call(W.coords_from_index, want[k : k + 1].to(dt), _key="coords", _case=k)
            if c is not None:
                cx.close(c.long(), co[k : k + 1], "alone", "coordinates depend on the other indices", tol=0, index=k)
    cx.states("lmn", co)
    sh = co[:120].reshape(2, 3, 20, 3)
    cx.close(W.index_from_coords(sh), torch.arange(120).reshape(2, 3, 20), "shape", "index of a block of coordinates", tol=0)
    cx.close(W.coords_from_index(torch.arange(120).reshape(2, 3, 20)).long(), sh, "shape", "coordinates of a block of indices", tol=0)
    cx.sample(coords=[5, 3, 2], index=int(W.index_from_coords(torch.tensor([[5, 3, 2]]))[0]))


@ck.group("edges", timeout=600)
def edges(cx):
    """first and last entries of the blocks of every degree"""
    rows = []
    for l in range(1, 2501):
        for m in sorted({0, 1, l // 2, l - 1, l}):
            for n in sorted({0, m // 2, m}):
                if n <= m <= l:
                    rows.append((l, m, n))
    co = torch.tensor(rows)
    want = torch.tensor([l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + n for l, m, n in rows])
    cx.close(W.index_from_coords(co), want, "index", "index of (l, m, n)", tol=0, rows=co)
    small = want < 2**28
    for nm, idx, cc in (("small", want[small].int(), co[small]), ("small64", want[small], co[small]), ("large", want, co)):
        c = cx.call(W.coords_from_index, idx, _key=nm, _case=nm)
        if c is not None:
            cx.close(c.long(), cc, nm, "coordinates of an index", tol=0, rows=idx)
    # 32 bit coordinates and indices, as long as the indices fit into 32 bits and half of the products do
    fit = co[:, 0] <= 1600
    for mod in (W, X):
        i = cx.call(mod.index_from_coords, co[fit].int(), _key="index32", _case="int32")
        if i is not None:
            cx.close(i.long(), want[fit], "index32", "index of 32 bit coordinates (l, m, n)", tol=0, rows=co[fit])
    for lo in (0, 600, 1172, 1250, 1289, 1400, 1550):
        sel = (co[:, 0] >= lo) & (co[:, 0] <= 1600)
        for part in (slice(None), slice(0, 1), slice(-1, None), slice(7, 12)):
            c = cx.call(W.coords_from_index, want[sel][part].int(), _key="coords32", _case=lo)
            if c is not None:
                cx.close(c.long(), co[sel][part], "coords32", "coordinates of a 32 bit index", tol=0, rows=want[sel][part])
    cx.states("lmn", co)
    cx.sample(coords=rows[-1], index=int(want[-1]))


@ck.group("lookup", timeout=600)
def lookup(cx):
    L = 16 if THOROUGH else 10
    for dt, tol in ((F64, 1e-11), (F32, 1e-4)):
        t = W.wigner_d_eq_half_pi(L, dt, CPU)
        co = [(l, m, n) for l in range(L + 1) for m in range(-l, l + 1) for n in range(-l, l + 1)]
        ref = {l: dmat(l, HALF) for l in range(L + 1)}
        plain = np.array([ref[l][n + l, m + l] for l, m, n in co])
        swapped = np.array([ref[l][m + l, n + l] for l, m, n in co])
        for it in (torch.int32, torch.int64):
            c = torch.tensor(co, dtype=it)
            for swap, want in ((False, plain), (True, swapped)):
                for nm, fn in (("table", W.read_lmn_wigner_d_half_pi_table), ("retrieve", X.retrieve_wigner_d)):
                    r = cx.call(fn, t, c, swap, _key=nm, _case=dict(swap=swap))
                    if r is not None:
                        cx.close(r.double(), want, nm, "looked up value is not the Wigner d function at pi/2", tol=tol, rows=c, swap=swap)
                        cx.states((nm, swap), c)
                    r = cx.call(fn, t, c[:360].reshape(3, 4, 30, 3), swap, _key=nm, _case=dict(swap=swap))
                    if r is not None:
                        cx.close(r.double(), want[:360].reshape(3, 4, 30), nm + "-shape", "lookup of a block", tol=tol, swap=swap)
                for l in range(L + 1):
                    m, n = torch.meshgrid(torch.arange(-l, l + 1, dtype=it), torch.arange(-l, l + 1, dtype=it), indexing="ij")
                    r = cx.call(W.read_mn_wigner_d_half_pi_table, t, m, n, l, swap, _key="degree", _case=dict(l=l, swap=swap))
                    if r is not None:
                        cx.close(r.double(), ref[l] if swap else ref[l].T, "degree", "looked up value is not the Wigner d function at pi/2", tol=tol, l=l, swap=swap)
                        cx.state("degree", l, swap, str(it))
    cx.sample(l=3, m=-2, n=1, value=float(W.read_lmn_wigner_d_half_pi_table(t, torch.tensor([[3, -2, 1]]))[0]))


@ck.group("products", timeout=600)
def products(cx):
    """rotations about one axis multiply: the tables of all methods together, with the symmetries of d"""
    L = 8
    half = W.wigner_d_eq_half_pi(L, F64, CPU)

    def full(t, l, b):
        """whole matrix from the stored octant and the octant of pi - b"""
        lo, hi = t(b), t(PI - b)
        s = size(l - 1) if l else 0
        d = np.zeros((2 * l + 1, 2 * l + 1))
        for m in range(-l, l + 1):
            for n in range(-l, l + 1):
                a, c, sg = m, n, 1.0
                if abs(a) < abs(c):
                    a, c, sg = c, a, sg * (-1) ** (m - n)
                if a < 0:
                    a, c, sg = -a, -c, sg * (-1) ** (a - c)
                k = s + a * (a + 1) // 2 + abs(c)
                # d_{-n, m}(b) = (-1)^(l + m) d_{n, m}(pi - b)
                v = lo[k] if c >= 0 else hi[k] * (-1) ** (l + a)
                d[n + l, m + l] = sg * v
        return d

    def table(b):
        if b == HALF:
            return half.numpy()
        return (W.wigner_d_lt_half_pi if b < HALF else W.wigner_d_gt_half_pi)(b, L, F64, CPU).numpy()

    def ext(b):
        return X.wigner_d_xnum(torch.tensor(b, dtype=F64), L, CPU).numpy()

    angles = [PI * k / 12 for k in range(0, 13)]
    for nm, t in (("log", table), ("extended", ext)):
        M = {}
        for k, b in enumerate(angles):
            if b == HALF or abs(b - HALF) < 1e-12:
                b = HALF
            for l in range(L + 1):
                M[k, l] = full(t, l, b)
        for i in range(13):
            for j in range(13 - i):
                for l in range(L + 1):
                    cx.close(M[i, l] @ M[j, l], M[i + j, l], nm, "rotations by a and b are not the rotation by a + b", tol=1e-9, a=i, b=j, l=l)
                    cx.state(nm, i, j, l)
    cx.sample(a=3, b=4, l=2, method="log")


@ck.group("numbers", timeout=600)
def numbers(cx):
    """the arithmetic beneath the tables against exact rational numbers"""
    from fractions import Fraction as Fr

    BIG = Fr(2) ** 460

    def val(x, i):
        return Fr(float(x)) * BIG ** int(i)

    ms = [1.0, -1.0, 1.5, -0.75, 2.0**-229, 1.25 * 2.0**229, -(2.0**100) / 3, 3.0 * 2.0**-150, 1 - 2.0**-50]
    es = [-3, -2, -1, 0, 1, 2]
    num = [(m, e) for m in ms for e in es]
    # values may not change when they are brought to the normal form, and 0, the
    # ends of the range and their neighbours have one
    raw = [(m * 2.0**k, e) for m in (1.0, -1.5, 1 + 2.0**-52, 0.0) for k in (-460, -459, -231, -230, -229, -1, 0, 1, 229, 230, 231, 459, 460) for e in es]
    t = torch.tensor([m for m, _ in raw], dtype=F64), torch.tensor([e for _, e in raw], dtype=torch.int32)
    r = cx.call(X.xnum_norm, t, _key="norm", _case="lattice")
    if r is not None:
        ok = [val(x, i) == val(m, e) for x, i, (m, e) in zip(r[0].tolist(), r[1].tolist(), raw)]
        cx.expect_all(np.array(ok), "norm", "normalising changes the value of an extended number", rows=np.array(raw))
        w = r[0].abs()
        cx.expect_all((w == 0) | ((w >= 2.0**-230) & (w < 2.0**230)), "normal", "the normal form has its mantissa near 1", rows=np.array(raw))
        cx.states("norm", np.array(raw))
    fp = [(m, e) for m, e in num if e in (-1, 0, 1)]
    r = cx.call(X.xnum_to_fp, (torch.tensor([m for m, _ in fp], dtype=F64), torch.tensor([e for _, e in fp], dtype=torch.int32)), _key="fp", _case="lattice")
    if r is not None:
        cx.expect_all(np.array([Fr(v) == val(*n) for v, n in zip(r.tolist(), fp)]), "fp", "conversion to a float changes the value", rows=np.array(fp))
        cx.states("fp", np.array(fp))
    a, b = [p for p in num for _ in num], [q for _ in num for q in num]
    ta = torch.tensor([m for m, _ in a], dtype=F64), torch.tensor([e for _, e in a], dtype=torch.int32)
    tb = torch.tensor([m for m, _ in b], dtype=F64), torch.tensor([e for _, e in b], dtype=torch.int32)
    for fa, fb in itertools.product((1.0, -1.0, 0.37, 250.25), (1.0, -1.0, -3.5)):
        ga, gb = torch.full_like(ta[0], fa), torch.full_like(ta[0], fb)
        r = cx.call(X.xnum_sum, ta, tb, ga, gb, _key="sum", _case=(fa, fb)) if "Tensor factor_a" in str(getattr(X.xnum_sum, "schema", "")) else cx.call(X.xnum_sum, ta, tb, fa, fb, _key="sum", _case=(fa, fb))
        if r is None:
            break
        ok = []
        for x, i, p, q in zip(r[0].tolist(), r[1].tolist(), a, b):
            u, v = Fr(fa) * val(*p), Fr(fb) * val(*q)
            ok.append(abs(val(x, i) - (u + v)) <= (abs(u) + abs(v)) * Fr(1, 2**50))
        cx.expect_all(np.array(ok), "sum", "linear combination of two extended numbers", rows=np.array([p + q for p, q in zip(a, b)]), factors=(fa, fb))
        cx.states(("sum", fa, fb), np.array([p + q for p, q in zip(a, b)]))
    r = cx.call(X.half_powers_xnum, 3000, CPU, _key="half", _case=3000)
    if r is not None:
        cx.expect_all(np.array([abs(val(x, i) * 2**k - 1) < Fr(1, 10**10) for k, (x, i) in enumerate(zip(r[0].tolist(), r[1].tolist()))]), "half", "powers of one half", rows=np.arange(3001)[:, None])
        cx.states("half", np.arange(3001)[:, None])
    from mpmath import mp, mpf

    with mp.workdps(40):
        for b in (0.0, 1e-12, 1e-3, 0.4, 1.0, HALF, 2.0, 3.0, PI - 1e-3):
            r = cx.call(X.trig_powers_xnum, 1500, torch.tensor(b, dtype=F64), CPU, _key="trig", _case=b)
            if r is None:
                continue
            for nm, (x, i), base in (("cos", r[0], mp.cos(mpf(b) / 2)), ("sin", r[1], mp.sin(mpf(b) / 2))):
                ok = []
                for k in range(0, 1501, 1 if THOROUGH else 7):
                    want = base**k
                    got = mpf(float(x[k])) * mpf(2) ** (460 * int(i[k]))
                    ok.append(abs(got - want) <= 1e-10 * abs(want))
                cx.expect_all(np.array(ok), nm, f"powers of the {nm}ine of half the angle", rows=np.arange(len(ok))[:, None], beta=b)
                cx.states((nm, b), np.arange(len(ok))[:, None])
        # signed sums of exponentials
        ln = [-np.inf, -2000.0, -745.5, -30.0, -1.0, 0.0, 1e-9, 0.5, 30.0, 709.0, 2000.0, 2000.25]
        c = [(x, y, i, j) for x in ln for y in ln for i in (True, False) for j in (True, False)]
        for dt, tol in ((F64, 1e-12), (F32, 1e-4)):
            tt = [torch.tensor([z[k] for z in c], dtype=dt if k < 2 else torch.bool) for k in range(4)]
            r = cx.call(W.signedlogsumexp, *tt, _key="logsum", _case=str(dt))
            if r is None:
                continue
            ok = []
            for k, (x, y, i, j) in enumerate(c):
                x, y = float(tt[0][k]), float(tt[1][k])
                top = max(x, y)
                got, sg = float(r[0][k]), bool(r[1][k])
                if top == -np.inf:
                    ok.append(got == -np.inf)
                    continue
                # the sum in units of its larger term
                w = (mp.exp(mpf(x) - mpf(top)) if x > -np.inf else 0) * (1 if i else -1) + (mp.exp(mpf(y) - mpf(top)) if y > -np.inf else 0) * (1 if j else -1)
                g = (mp.exp(mpf(got) - mpf(top)) if got > -np.inf else mpf(0)) * (1 if sg else -1) if got == got else mpf(9)
                ok.append(abs(g - w) <= tol * (1 + abs(top)))
            cx.expect_all(np.array(ok), "logsum", "signed sum in logarithms", rows=np.array([[float(v) for v in z] for z in c]), dtype=str(dt))
            cx.states(("logsum", str(dt)), np.array([[float(v) for v in z] for z in c]))
    cx.sample(sum="2**460 * 1.5 - 1", exact=True)


if __name__ == "__main__":
    ck.main()
