"""C17  Unit cells: metric, frame changes, orbits of atoms, averages."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contextlib, io, itertools, math
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import sgref as R
from ebsdtorch.crystallography.unit_cell import Cell

CO = [0, 3, 6, 8, 12, 16, 5] if THOROUGH else [0, 3, 8, 12, 5]
ck = Check("C17", bounds=f"230 space groups + second settings x all {len(CO)**3} positions with coordinates in {CO}/24 (general and special); 14 lattices (all systems, oblique) x all words of "
           "up to 4 frame changes between direct, reciprocal and Cartesian, all lattice vector pairs with indices up to 2, all 9 cross product frames, all unit combinations")
LAT = {1: [(0.4, 0.5, 0.6, 91, 95, 99), (0.458, 0.53, 0.563, 103.46, 98.57, 99.32), (0.5, 0.5, 0.7, 70, 65, 110), (0.3, 0.9, 0.5, 120, 100, 60)],
       2: [(0.4, 0.5, 0.6, 90, 97, 90), (0.6, 0.3, 0.5, 90, 125, 90)], 3: [(0.4, 0.5, 0.6, 90, 90, 90)], 4: [(0.4, 0.4, 0.6, 90, 90, 90)],
       5: [(0.4, 0.4, 0.6, 90, 90, 120)], 6: [(0.3, 0.3, 0.5, 90, 90, 120)], 7: [(0.4, 0.4, 0.4, 90, 90, 90)]}


def cell(cx, sg, atoms, lat, setting=1, au="nm", gu="deg", **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return cx.call(Cell, sg, atoms, lat[:3], au, lat[3:], gu, setting, _key="Cell", _case=(sg, setting, lat, au, gu), **kw)


def ref(lat):
    a, b, c = lat[:3]
    al, be, ga = np.deg2rad(lat[3:])
    G = np.array([[a * a, a * b * np.cos(ga), a * c * np.cos(be)], [a * b * np.cos(ga), b * b, b * c * np.cos(al)], [a * c * np.cos(be), b * c * np.cos(al), c * c]])
    V = math.sqrt(np.linalg.det(G))
    # a along x, b in the xy plane, c* along z
    A = np.linalg.cholesky(G).T
    return G, V, A


VEC = np.array([v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(v)], float)
VEC = VEC[:: (1 if THOROUGH else 3)]


@ck.group("frames", timeout=500)
def frames(cx):
    T = lambda x: torch.tensor(np.asarray(x, float), dtype=torch.float64)
    for s, lats in LAT.items():
        for lat in lats:
            sg = R.SYS_BEG[s - 1]
            c = cell(cx, sg, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], lat)
            if c is None:
                continue
            G, V, A = ref(lat)
            B = np.linalg.inv(A).T
            nm = str(lat)
            cx.close(c.get_direct_metric_tensor, G, "dmt", f"direct metric tensor {nm}", tol=1e-12)
            cx.close(c.get_reciprocal_metric_tensor, np.linalg.inv(G), "rmt", f"reciprocal metric tensor {nm}", tol=1e-9)
            cx.close(c.get_direct_structure_matrix, A, "dsm", f"direct structure matrix {nm} (a along x, c* along z)", tol=1e-12)
            cx.close(c.get_reciprocal_structure_matrix, B, "rsm", f"reciprocal structure matrix {nm}", tol=1e-10)
            cx.close(c.get_volume, V, "vol", f"volume {nm}", tol=1e-12)
            F = {"d": A, "r": B, "c": np.eye(3)}  # columns: basis vectors in Cartesian coordinates
            inv = {k: np.linalg.inv(v) for k, v in F.items()}
            # every word of frame changes
            for n in range(1, 4 if not THOROUGH else 5):
                for w in itertools.product("drc", repeat=n + 1):
                    x = T(VEC)
                    for i in range(n):
                        if x is not None:
                            x = cx.call(c.transform_space, x, w[i], w[i + 1], _key="transform" + w[i] + w[i + 1])
                    if x is not None:
                        want = VEC @ F[w[0]].T @ inv[w[-1]].T
                        cx.state(nm, w)
                        cx.close(x, want, "space" + "".join(w[:3]), f"components along {'->'.join(w)}", tol=1e-9 * max(1, np.abs(want).max()), rows=VEC)
            # batch shapes
            x = T(VEC[:12])
            for shp in ((3,), (12, 3), (2, 6, 3), (1, 12, 1, 3)):
                y = cx.call(c.transform_space, x[0] if shp == (3,) else x.reshape(shp), "d", "c", _key="shape")
                if y is not None:
                    cx.expect(tuple(y.shape) == shp, f"shape{shp}", f"shape {tuple(y.shape)}")
                    cx.close(y.reshape(-1, 3), VEC[:1 if shp == (3,) else 12] @ A.T, f"shape-value{shp}", "value for other batch shapes", tol=1e-10)
            P, Q = VEC[:, None], VEC[None]
            i, j = [a.ravel() for a in np.meshgrid(np.arange(len(VEC)), np.arange(len(VEC)), indexing="ij")]
            p, q = VEC[i], VEC[j]
            for sp in "drc":
                pc, qc = p @ F[sp].T, q @ F[sp].T
                dot = (pc * qc).sum(1)
                lp, lq = np.linalg.norm(pc, axis=1), np.linalg.norm(qc, axis=1)
                g = cx.call(c.calc_dot, T(p), T(q), sp, _key="dot")
                if g is not None:
                    cx.close(g, dot, "dot" + sp, f"dot product in space {sp}", tol=1e-10 * max(1, np.abs(dot).max()))
                g = cx.call(c.calc_auto_dot, T(VEC), sp, _key="autodot")
                if g is not None:
                    cx.close(g, ((VEC @ F[sp].T) ** 2).sum(1), "autodot" + sp, "squared length", tol=1e-9, rtol=1e-10)
                for v in (T(VEC), torch.tensor(VEC).long(), torch.tensor(VEC).int()):
                    g = cx.call(c.calc_length, v, sp, _key="length")
                    if g is not None:
                        cx.close(g, np.linalg.norm(VEC @ F[sp].T, axis=1), f"length{sp}{v.dtype}", f"length in space {sp}", tol=1e-9, rtol=1e-10)
                g = cx.call(c.calc_angle, T(p), T(q), sp, _key="angle")
                if g is not None:
                    cx.close(g, np.arctan2(np.linalg.norm(np.cross(pc, qc), axis=1), dot), "angle" + sp, f"angle in space {sp}", tol=1e-6, rows=np.concatenate([p, q], 1))
                z0 = np.concatenate([VEC, [[0, 0, 0]]])
                g = cx.call(c.norm_vec, T(z0), sp, _key="norm")
                if g is not None:
                    cx.close(g, np.concatenate([VEC / np.linalg.norm(VEC @ F[sp].T, axis=1)[:, None], [[0, 0, 0]]]), "norm" + sp, "unit vector", tol=1e-10, rtol=1e-9)
                for e in (1e-8, 1e-5, 1e-2, 1e3, 1e7):
                    g = cx.call(c.norm_vec, T(VEC * e), sp, _key="norm")
                    if g is not None:
                        cx.close(g, VEC / np.linalg.norm(VEC @ F[sp].T, axis=1)[:, None], "norm" + sp, "unit vector of a short or long one", tol=1e-10, rtol=1e-9, scale=e)
                # nearly parallel and nearly opposite vectors
                for e, sg_ in itertools.product((1e-2, 1e-3, 3e-4, 1e-4), (1, -1)):
                    m = np.abs(np.cross(pc, qc)).max(1) > 1e-9
                    u = sg_ * (p[m] + e * q[m])
                    uc = u @ F[sp].T
                    g = cx.call(c.calc_angle, T(p[m]), T(u), sp, _key="angle")
                    if g is not None:
                        cx.close(g, np.arctan2(np.linalg.norm(np.cross(pc[m], uc), axis=1), (pc[m] * uc).sum(1)), "angle-near" + sp, f"angle of nearly parallel vectors in space {sp}", tol=1e-8, scale=e, sign=sg_)
                for out in "drc":
                    g = cx.call(c.calc_cross, T(p), T(q), sp, out, True, _key="cross" + sp + out)
                    if g is not None:
                        cr = np.cross(pc, qc)
                        want = cr @ inv[out].T
                        cx.close(g, want, f"cross{sp}{out}", f"cross product {sp} -> {out}", tol=1e-9 * max(1, np.abs(want).max()), rows=np.concatenate([p, q], 1))
                try:
                    c.calc_angle(T([[0, 0, 0]]), T([[1, 0, 0]]), sp)
                    cx.fail("zero-angle", "angle with a zero vector must be refused")
                except ValueError:
                    cx.trans()
    cx.sample(lattice=LAT[1][1], volume=ref(LAT[1][1])[1])


@ck.group("coordinates")
def coords(cx):
    """change of basis: components transform so that the physical vector stays"""
    c = cell(cx, 2, [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], LAT[1][1])
    G, V, A = ref(LAT[1][1])
    T = lambda x: torch.tensor(np.asarray(x, float), dtype=torch.float64)
    k = 0
    for rows in itertools.product(itertools.product((-1, 0, 1), repeat=3), repeat=3):
        al = np.array(rows, float)
        if abs(np.linalg.det(al)) < 0.5:
            continue
        k += 1
        if k % (7 if THOROUGH else 41):
            continue
        cx.state("basis", rows)
        v = VEC[:20]
        new = al @ A.T  # rows: new basis vectors (a'_i = alpha_ij a_j)
        for sp, b0, b1 in (("d", A.T, new), ("r", np.linalg.inv(A), np.linalg.inv(new).T)):
            x = v @ b0
            want = x @ np.linalg.inv(b1)
            on = cx.call(c.transform_coordinates, T(v), T(al), sp, "on", _key="on" + sp)
            if on is not None:
                cx.close(on, want, "on" + sp, f"old to new components in space {sp}", tol=1e-9 * max(1, np.abs(want).max()), alpha=al)
            no = cx.call(c.transform_coordinates, T(want), T(al), sp, "no", _key="no" + sp)
            if no is not None:
                cx.close(no, v, "no" + sp, f"new to old components in space {sp}", tol=1e-9 * max(1, np.abs(want).max()), alpha=al)
    th = 0.3
    rot = np.array([[math.cos(th), math.sin(th), 0], [-math.sin(th), math.cos(th), 0], [0, 0, 1]])
    for sp in "drc":
        y = cx.call(c.transform_coordinates, T(VEC), T(rot), sp, "on", _key="rot")
        if y is not None:
            cx.close(y, VEC @ rot.T, "rot" + sp, "rotation of the frame", tol=1e-9)
            z = cx.call(c.transform_coordinates, y, T(rot), sp, "no", _key="rot")
            cx.close(z, VEC, "unrot" + sp, "rotation of the frame and back", tol=1e-9)


@ck.group("units")
def units(cx):
    for s, lats in LAT.items():
        for lat in lats:
            G, V, A = ref(lat)
            for au, f in (("nm", 1.0), ("angstrom", 10.0), ("pm", 1000.0)):
                for gu in ("deg", "rad"):
                    l2 = tuple(x * f for x in lat[:3]) + tuple(lat[3:] if gu == "deg" else np.deg2rad(lat[3:]).tolist())
                    c = cell(cx, R.SYS_BEG[s - 1], [(14, 0.1, 0.2, 0.3, 1.0, 0.005)], l2, au=au, gu=gu)
                    cx.state(lat, au, gu)
                    if c is not None:
                        cx.close(c.dmt, G, f"{au}-{gu}", f"metric tensor from {au}/{gu}", tol=1e-12)
                        cx.close(torch.stack([c.a, c.b, c.c]), lat[:3], f"abc-{au}", "lattice parameters in nm", tol=1e-12)
    for au, gu in (("km", "deg"), ("nm", "grad"), ("", "")):
        try:
            Cell(1, [(14, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.5, 0.5, 0.5), au, (90.0, 90.0, 90.0), gu)
            cx.fail("bad-unit", f"units {au!r} {gu!r} accepted")
        except ValueError:
            cx.trans()
    try:
        Cell(1, [(14, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.5, 0.5, 0.001), "angstrom", (90.0, 90.0, 90.0), "deg")
        cx.fail("tiny", "cell of vanishing volume accepted")
    except ValueError:
        cx.trans()


POS = np.array(list(itertools.product(CO, repeat=3)))


def orb(lo, hi):
    @ck.group(f"orbits{lo}", timeout=800)
    def g(cx):
        for sg in range(lo, hi):
            for s in (1, 2) if sg in R.TWO else (1,):
                lat = LAT[R.system(sg)][0]
                pos = POS if THOROUGH or R.system(sg) < 7 else POS[:: 2]
                atoms = [(26, *(p / 24.0).tolist(), 1.0, 0.005) for p in pos]
                c = cell(cx, sg, atoms, lat, s)
                if c is None:
                    continue
                k = f"{sg}-{s}"
                ops = c.sg_ops.double().numpy()
                W, w = np.round(ops[:, :3, :3]).astype(int), np.round(ops[:, :3, 3] * 24).astype(int)
                G = ref(lat)[0]
                cx.expect_all(np.abs(np.einsum("nji,jk,nkl->nil", W, G, W) - G).max((1, 2)) < 1e-9, f"{k}/metric", "operators preserve the metric of the cell")
                im = (np.einsum("nij,pj->pni", W, pos) + w[None]) % 24
                cx.expect(len(c.apos) == len(pos), f"{k}/n", "one orbit per atom")
                for i in range(len(pos)):
                    want = np.unique(im[i], axis=0)
                    a = c.apos[i].double().numpy()
                    ok = a.ndim == 2 and len(a) == len(want) and np.abs(a * 24 - np.round(a * 24)).max() < 1e-3 and (a >= 0).all() and (a < 1).all()
                    ok = ok and np.array_equal(np.unique(np.round(a * 24).astype(int) % 24, axis=0), want)
                    cx.expect(ok, f"{k}/orbit", f"orbit of an atom in space group {sg} setting {s}: {len(a)} positions instead of {len(want)}", position=pos[i])
                    cx.expect(int(c.mults[i]) == len(want), f"{k}/mult", f"multiplicity {int(c.mults[i])} instead of {len(want)}", position=pos[i])
                    cx.state(k, tuple(map(tuple, want[:2])), len(want))
                # averages of this many-site cell
                n = np.array([len(np.unique(x, axis=0)) for x in im])
                cx.close(c.get_density, 55.845 * n.sum() / (math.sqrt(np.linalg.det(G)) * 602.214076), f"{k}/density", "density", tol=1e-9, rtol=1e-9)
        cx.sample(sg=lo, position=POS[7].tolist())


for lo in range(1, 231, 16):
    orb(lo, min(lo + 16, 231))


@ck.group("rounded_positions")
def rounded(cx):
    """coordinates typed with five or six digits denote the same special position"""
    for sg in range(143, 195):
        for p, q in (((1 / 3, 2 / 3, 0.25), (0.33333, 0.66667, 0.25)), ((1 / 3, 2 / 3, 1 / 3), (0.33333, 0.66667, 0.33333)), ((1 / 3, 2 / 3, 2 / 3), (0.333333, 0.666667, 0.666667)),
                     ((2 / 3, 1 / 3, 0.0), (0.66667, 0.33333, 0.0)), ((0, 0, 1 / 3), (0, 0, 0.333333)), ((0, 0, 2 / 3), (0, 0, 0.66667)), ((0, 0, 0), (0.99999999, 1e-9, 1.0)), ((0.5, 0, 0), (-0.5, 1.0, 2.0))):
            c = cell(cx, sg, [(6, *p, 1.0, 0.005), (6, *q, 1.0, 0.005)], LAT[5][0])
            cx.state(sg, q)
            if c is not None:
                cx.expect(int(c.mults[0]) == int(c.mults[1]), f"{sg}", f"space group {sg}: {q} has multiplicity {int(c.mults[1])}, the exact position {int(c.mults[0])}")


@ck.group("averages")
def averages(cx):
    """density, mean atomic number and weight count every atom of the cell once"""
    AW = {6: 12.0107, 8: 15.9994, 11: 22.98976928, 13: 26.9815386, 17: 35.453, 26: 55.845, 28: 58.6934, 22: 47.867, 79: 196.966569, 92: 238.02891}
    known = [(225, [(11, 0, 0, 0, 1, .005), (17, .5, .5, .5, 1, .005)], (.564, .564, .564, 90, 90, 90), 14.0, 2.16),
             (225, [(28, 0, 0, 0, 1, .003)], (.3524, .3524, .3524, 90, 90, 90), 28.0, 8.91), (194, [(22, 1 / 3, 2 / 3, .25, 1, .005)], (.2951, .2951, .464, 90, 90, 120), 22.0, 4.54),
             (167, [(13, 0, 0, .35216, 1, .005), (8, .30624, 0, .25, 1, .005)], (.4759, .4759, 1.2991, 90, 90, 120), 10.0, 3.99)]
    for sg, at, lat, z, rho in known:
        c = cell(cx, sg, at, lat)
        if c is not None:
            cx.close(c.get_average_atomic_number, z, f"z{sg}", "mean atomic number of a known compound", tol=1e-6)
            cx.close(c.get_density, rho, f"rho{sg}", "density of a known compound", tol=0.03)
            cx.expect(f"{float(c.get_density):.4f}" in str(c), f"str{sg}", "density is printed")
    sites = [(6, 0.0, 0.0, 0.0), (8, 0.25, 0.25, 0.25), (26, 0.5, 0.5, 0.5), (79, 0.1, 0.2, 0.3), (92, 0.3, 0.3, 0.3)]
    for n in range(1, 6):
        for sub in itertools.combinations(sites, n):
            for occ in itertools.product((1.0, 0.5), repeat=n) if n < 4 or THOROUGH else [(1.0,) * n, (0.5,) * n, (0.25, 1.0, 0.5, 1.0, 0.1)[:n]]:
                for sg in (1, 2, 62, 123):
                    lat = LAT[R.system(sg)][0]
                    c = cell(cx, sg, [(*p, o, 0.005) for p, o in zip(sub, occ)], lat)
                    cx.state(sg, sub, occ)
                    if c is None:
                        continue
                    m = c.mults.double().numpy() * np.array(occ)
                    Z, A = np.array([p[0] for p in sub]), np.array([AW[p[0]] for p in sub])
                    V = math.sqrt(np.linalg.det(ref(lat)[0]))
                    cx.close(c.get_average_atomic_number, (Z * m).sum() / m.sum(), "meanZ", "mean atomic number", tol=1e-8, sites=sub, occ=occ)
                    cx.close(c.get_average_atomic_weight, (A * m).sum() / m.sum(), "meanA", "mean atomic weight", tol=1e-9, sites=sub, occ=occ)
                    cx.close(c.get_density, (A * m).sum() / (V * 602.214076), "rho", "density", tol=1e-10, rtol=1e-10, sites=sub, occ=occ)


# standard atomic weights of the elements 1 to 98 (the mass number where there is none)
WEIGHTS = [1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.180, 22.990, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.948, 39.098, 40.078,
           44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.63, 74.922, 78.971, 79.904, 83.798, 85.468, 87.62, 88.906, 91.224,
           92.906, 95.95, 98, 101.07, 102.91, 106.42, 107.87, 112.41, 114.82, 118.71, 121.76, 127.60, 126.90, 131.29, 132.91, 137.33, 138.91, 140.12, 140.91, 144.24,
           145, 150.36, 151.96, 157.25, 158.93, 162.50, 164.93, 167.26, 168.93, 173.05, 174.97, 178.49, 180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59,
           204.38, 207.2, 208.98, 209, 210, 222, 223, 226, 227, 232.04, 231.04, 238.03, 237, 244, 243, 247, 247, 251]


@ck.group("elements", timeout=400)
def elements(cx):
    """every element weighs what it weighs, alone and beside another"""
    for z in range(1, 99):
        a = WEIGHTS[z - 1]
        tol = a * (1e-2 if a == int(a) else 1.5e-3)
        c = cell(cx, 1, [(z, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.3, 0.4, 0.5, 90, 90, 90))
        cx.state(z)
        if c is None:
            continue
        cx.close(c.get_average_atomic_number, z, "Z", "atomic number of a crystal of one element", tol=1e-9, z=z)
        cx.close(c.get_average_atomic_weight, a, "A", "atomic weight of a crystal of one element", tol=tol, z=z)
        cx.close(c.get_density, a / (0.06 * 602.214076), "rho", "density of a crystal of one element", tol=tol / (0.06 * 602), z=z)
        for y in (1, 26, 98):
            c = cell(cx, 1, [(z, 0.1, 0.2, 0.3, 1.0, 0.005), (y, 0.6, 0.7, 0.8, 0.5, 0.005)], (0.3, 0.4, 0.5, 90, 90, 90))
            cx.state(z, y)
            if c is not None:
                cx.close(c.get_average_atomic_weight, (a + 0.5 * WEIGHTS[y - 1]) / 1.5, "pair", "mean atomic weight of two elements", tol=tol + 2.6, z=z, y=y)
                cx.close(c.get_average_atomic_number, (z + 0.5 * y) / 1.5, "pairZ", "mean atomic number of two elements", tol=1e-9, z=z, y=y)
    for n in range(1, 5):
        for Z in itertools.product((1, 26, 92), repeat=n):
            for k in itertools.product((1, 4), repeat=n):
                for o in ((1.0,) * n, (1.0, 0.5, 0.25, 0.1)[:n]):
                    ap = torch.tensor([(0.1, 0.2, 0.3, x, 0.005) for x in o], dtype=torch.float64)
                    r = cx.call(Cell.z2_percent, torch.tensor(Z), torch.tensor(k), ap, _key="z2", _case=(Z, k, o))
                    w = np.array(Z) ** 2 * np.array(k) * np.array(o)
                    cx.state("z2", Z, k, o)
                    if r is not None:
                        cx.close(r, 100 * w / w.sum(), "z2", "share of the scattering power of every site", tol=1e-4, Z=Z, k=k, o=o)
    cx.sample(Z=28, A=58.693)


@ck.group("rhombohedral")
def rhombo(cx):
    """conversion of rhombohedral axes to hexagonal axes keeps the crystal"""
    for al in (50.0, 60.0, 75.0, 90.0, 100.0, 115.0):
        for sg in (146, 148, 155, 160, 161, 166, 167):
            atoms = [(26, 0.1, 0.1, 0.1, 1.0, 0.005), (8, 0.25, 0.75, 0.5, 0.5, 0.007), (6, 0.1, 0.2, 0.4, 1.0, 0.004)]
            lat = (0.5, 0.5, 0.5, al, al, al)
            G, V, A = ref(lat)
            c = cell(cx, sg, atoms, lat)
            if c is None:
                continue
            m2 = c.dsm2.double().numpy()
            cx.close(m2.T @ m2, G, "dsm2-metric", "the second structure matrix keeps lengths and angles", tol=1e-9)
            d = m2 @ np.ones(3)
            cx.expect(d[2] > 0 and abs(d[:2]).max() < 1e-6 * d[2], "dsm2-axis", f"three fold axis along z in the second structure matrix (alpha {al}): {d}")
            with contextlib.redirect_stdout(io.StringIO()):
                cx.call(c.convert_from_R_to_H, _key="RtoH")
            cx.state(al, sg)
            P = np.array([[1, 0, 1], [-1, 1, 1], [0, -1, 1]])  # obverse: columns are the hexagonal axes
            GH = P.T @ G @ P
            cx.close(c.dmt, GH, "metric", "metric tensor of the hexagonal cell", tol=1e-9, alpha=al)
            cx.close(c.get_volume, 3 * V, "volume", "the hexagonal cell is three times larger", tol=1e-9)
            X = np.array([a[1:4] for a in atoms]) @ np.linalg.inv(P).T
            D = c.atom_data[:, :3].double().numpy() - X
            cx.expect(np.abs(D - np.round(D)).max() < 1e-9, "positions", "atoms are at the same places", alpha=al, got=c.atom_data[:, :3], want=X)
            cx.close(c.atom_data[:, 3:], [[1.0, 0.005], [0.5, 0.007], [1.0, 0.004]], "occupancy", "occupancies and Debye-Waller factors are kept", tol=1e-12)
            # orbits of the hexagonal cell contain the atoms
            for i in range(3):
                e = c.apos[i].double().numpy() - X[i]
                cx.expect(np.abs(e - np.round(e)).max(1).min() < 1e-6, "orbit", "the orbit belongs to the converted position")


@ck.group("dtype")
def dtype(cx):
    for s in LAT:
        c = cell(cx, R.SYS_BEG[s - 1], [(28, 0.1, 0.2, 0.3, 1.0, 0.005)], LAT[s][0])
        if c is None:
            continue
        before = [x.double().clone() for x in (c.dmt, c.rmt, c.dsm, c.rsm, c.vol, c.density, c.sg_ops, c.apos[0], c.atom_data)]
        r = cx.call(c.set_fp_dtype, torch.float32)
        cx.expect(r is c or r is not None, "chain", "set_fp_dtype returns the cell")
        after = (c.dmt, c.rmt, c.dsm, c.rsm, c.vol, c.density, c.sg_ops, c.apos[0], c.atom_data)
        for n, x, y in zip("dmt rmt dsm rsm vol density ops apos atoms".split(), before, after):
            cx.state(s, n)
            cx.expect(y.dtype == torch.float32, f"dtype-{n}", f"{n} has dtype {y.dtype}")
            cx.close(y.double(), x, f"value-{n}", f"{n} keeps its value", tol=1e-5, rtol=1e-6)
        cx.expect(c.to(torch.device("cpu")) is c, "to", "moving to the same device is the same cell")


if __name__ == "__main__":
    ck.main()
