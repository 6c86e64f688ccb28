"""C31  Atomic scattering factors of all elements."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, json, math
import mpmath
import numpy as np
import torch
from mc.core import Check, THOROUGH, VERIF
import ebsdtorch.crystallography.scattering_factors.scattering_factors_WK as MW
import ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid as MH
import ebsdtorch.crystallography.scattering_factors.scattering_factors_LVD_TCB as ML

WK, HY, LV = MW.scatter_factor_WK, MH.scatter_factor_hybrid, ML.scatter_factor_LVD
D = torch.float64
SIG = (0.03, 0.06, 0.1) + ((0.015, 0.045, 0.08, 0.15, 0.2) if THOROUGH else ())
KV = (1.0, 5.0, 20.0, 30.0, 200.0)
ck = Check("C31", bounds=f"all 98 elements x momentum transfers 0 to 6 per Angstrom x thermal displacements {SIG} A x voltages {KV} kV x flags")
ZA = torch.arange(1, 99)
T = json.load(open(os.path.join(VERIF, "mc", "itc.json")))
TS = np.array(T["pg_263"])[:, 0]
TF = np.concatenate([np.array(T[k])[:, 1:] for k in ("pg_263", "pg_264", "pg_265")], 1)  # [s, Z = 2..33]
GOLD = os.path.join(VERIF, "mc", "sf_golden.json")
GG = [0.0, 0.2, 0.6, 1.3, 2.7, 5.0]
K0 = lambda V: 2 * math.pi / (12.2642584554 / math.sqrt(V * 1e3 * (1 + 0.00097847561649 * V)))
GAM = lambda V: 1 + V * 1.9569511835738734e-03


def itc(cx, f, g, Z=ZA):
    g = np.asarray(g, float)
    r = cx.call(f, torch.tensor(g.ravel()), Z, torch.full((len(Z),), 0.06, dtype=D), torch.tensor([20.0], dtype=D), return_type="ITC", _key="itc")
    return None if r is None else r[0].numpy().reshape(len(Z), *g.shape)


def wk(g, Z, s, V, **k):
    """2 pi convention of this model is hidden: momentum transfers in 1/Angstrom"""
    return WK(g * 2 * math.pi, Z, s, V, **k)


@ck.group("elastic", timeout=600)
def elastic(cx):
    """the elastic factors of all elements: tables, the other fit, golden values; exact relation of EMsoft and ITC conventions"""
    g = np.concatenate([np.linspace(0, 6, 121), [1e-4, 0.003]])
    w, h, l = itc(cx, WK, g), itc(cx, HY, g), itc(cx, LV, g)
    if w is None or h is None or l is None:
        return
    for z in range(98):
        cx.state(z + 1)
        for nm, f in (("WK", w), ("LVD", l)):
            o = np.argsort(g)
            cx.expect((f[z] > 0).all() and np.isfinite(f[z]).all(), f"{nm}/positive", f"{nm} Z={z+1}: elastic factor is finite and positive")
            cx.expect((np.diff(f[z][o]) < 1e-9).all(), f"{nm}/decreasing", f"{nm} Z={z+1}: elastic factor decreases with the scattering angle")
            # Mott-Bethe limit f -> Z / (8 pi^2 a0 s^2)
            mb = 0.023934 * (z + 1) / (g[118:121] / 2) ** 2
            cx.expect((f[z][118:121] / mb < 1.12).all() and (f[z][118:121] / mb > 0.6).all(), f"{nm}/coulomb", f"{nm} Z={z+1}: high angle limit of Coulomb scattering {f[z][118:121]/mb}")
        cx.expect(np.abs(h[z] - l[z]).max() < 1e-6 * l[z].max(), "hybrid", f"Z={z+1}: hybrid uses the LVD elastic factor")
        d = np.abs(w[z] - l[z]) / l[z]
        cx.expect(d[:121].max() < 0.125, "fits", f"Z={z+1}: the two independent fits agree, off by {d.max():.3f}")
        gold = json.load(open(GOLD))
        for nm, f in (("WK", w), ("LVD", l)):
            v = np.array([f[z][np.argmin(np.abs(g - x))] for x in GG])
            cx.expect((np.abs(v / np.array(gold[nm][z]) - 1) < 2e-4).all(), f"{nm}/reviewed", f"{nm} Z={z+1}: values {v} differ from the reviewed ones {gold[nm][z]}")
    for nm, f in (("WK", WK), ("LVD", LV), ("Hybrid", HY)):
        r = itc(cx, f, TS * 2, torch.arange(2, 34))
        for z in range(32):
            e = np.abs(r[z] - TF[:, z]) / TF[:, z]
            lim = 0.045 if not (nm != "WK" and z + 2 == 24) else 0.07  # chromium: other configuration in LVD
            cx.trans(len(e))
            cx.expect(e.max() < lim, f"{nm}/table", f"{nm} Z={z+2}: off by {e.max():.3f} from the International Tables at s={TS[e.argmax()]}")
    # EMsoft convention: x Debye-Waller x gamma
    for s, V in itertools.product(SIG, KV):
        sg = torch.full((98,), s, dtype=D)
        B = 8 * math.pi**2 * s * s
        for nm, f, base in (("WK", wk, w), ("Hybrid", HY, h)):
            r = cx.call(f, torch.tensor(g), ZA, sg, torch.tensor([V], dtype=D))
            cx.state(nm, s, V)
            if r is None:
                continue
            want = base * np.exp(-B * (g / 2) ** 2) * GAM(V)
            cx.expect_all(np.abs(r[0].real.numpy() - want).max(1) < 1e-4 * want.max(1), f"{nm}/real", f"{nm}: real part is gamma f exp(-B s^2), sigma {s}, {V} kV", rows=ZA)


_q = {}


def quad(cx, f, Z, g, sig):
    """thermal diffuse absorption by quadrature over the plane: int f(s1) f(s2) (1 - exp(-2B(s'^2 - s^2/4)))"""
    M = sig**2 * 8 * math.pi**2
    x, w = np.polynomial.legendre.leggauss(300)
    lo, hi = math.log(1e-4), math.log(60.0)
    r = np.exp((hi - lo) / 2 * x + (hi + lo) / 2)
    wr = w * (hi - lo) / 2 * r
    y, v = np.polynomial.legendre.leggauss(40)
    th, wt = (y + 1) * math.pi / 4, v * math.pi / 4
    sx, sy = r[:, None] * np.cos(th), r[:, None] * np.sin(th)
    out = []
    for gg in g:
        s = gg / 2
        key = (id(f), tuple(Z.tolist()), gg)
        if key not in _q:
            a, b = itc(cx, f, 2 * np.hypot(s / 2 + sx, sy), Z), itc(cx, f, 2 * np.hypot(s / 2 - sx, sy), Z)
            if a is None:
                return None
            _q[key] = a * b
        F = _q[key] * (1 - np.exp(-2 * M * (sx**2 + sy**2 - s * s / 4)))
        out.append(4 * np.einsum("zrt,r,t->z", F, wr * r, wt) * np.exp(-M * s * s))
    return np.array(out).T


GT = np.array([0.0, 0.1, 0.3, 0.7, 1.0, 1.5, 2.0, 3.0, 4.0] + ([0.02, 0.2, 0.5, 1.25, 2.5, 5.0, 6.0] if THOROUGH else []))


def mkt(lo, hi):
    @ck.group(f"thermal{lo}", timeout=800)
    def g(cx):
        """absorption by thermal diffuse scattering equals its defining integral over the model's own elastic factors"""
        Z = ZA[lo:hi]
        for s in SIG:
            q = quad(cx, WK, Z, GT, s)
            if q is None:
                return
            for V in KV:
                w = q * 4 * math.pi * GAM(V) ** 2 / K0(V)
                for nm, f in (("WK", wk), ("Hybrid", HY)):
                    r = cx.call(f, torch.tensor(GT), Z, torch.full((len(Z),), s, dtype=D), torch.tensor([V], dtype=D), include_core=False)
                    cx.state(nm, s, V, lo)
                    if r is None:
                        continue
                    im, ww = r[0].imag.numpy(), w
                    if nm == "Hybrid":  # documented: never negative
                        cx.expect((im >= 0).all(), "Hybrid/sign", "absorption is not negative")
                        ww = np.maximum(w, 0)
                    cx.expect_all(np.abs(im - ww).max(1) < 4e-3 * w.max(1), f"{nm}/tds", f"{nm}: absorptive part against quadrature, sigma {s}, {V} kV", rows=Z)
                    r0 = cx.call(f, torch.tensor(GT), Z, torch.full((len(Z),), s, dtype=D), torch.tensor([V], dtype=D), include_core=False, include_phonon=False)
                    if r0 is not None:
                        cx.expect(r0[0].imag.abs().max() == 0 and (r0[0].real - r[0].real).abs().max() < 1e-12 * r[0].real.abs().max(), f"{nm}/off", "no absorption without core and thermal losses")
        zz = Z[::3] if not THOROUGH else Z
        gl = GT[[0, 2, 4, 6, 8]]
        for s in (0.06, 0.1):
            q = quad(cx, LV, zz, gl, s)
            V = 20.0
            r = [cx.call(LV, torch.tensor(gl), z.reshape(1), torch.tensor([s], dtype=D), torch.tensor([V], dtype=D)) for z in zz]
            if q is None or any(x is None for x in r):
                continue
            r = np.concatenate([x[0].numpy() for x in r])
            w = q * 4 * math.pi * GAM(V) ** 2 / K0(V)
            cx.state("LVD", s, lo)
            cx.expect_all(np.abs(r.imag - w).max(1) < 4e-3 * w.max(1), "LVD/tds", f"LVD: absorptive part against quadrature, sigma {s}", rows=zz)
            B = 8 * math.pi**2 * s * s
            e = itc(cx, LV, gl, zz) * np.exp(-B * gl**2 / 4) * GAM(V)
            cx.expect_all(np.abs(r.real - e).max(1) < 1e-5 * e.max(1), "LVD/real", "LVD: real part is gamma f exp(-B s^2)", rows=zz)
        cx.sample(Z=lo + 1)


for lo in range(0, 98, 14):
    mkt(lo, min(lo + 14, 98))


def core_ref(Z, g, V, k0):
    """core excitation loss in the Weickenmeier-Kohl model (Rose's inelastic form factor)"""
    G = 2 * math.pi * g
    th = 6e-3 * Z / (2 * V) * (2 * V + 1022) / (V + 1022)
    ta = 1 / (k0 * 0.885 * 0.5289 * Z ** (-1 / 3))
    om, ka = G / k0 / ta, th / ta
    k2, o2 = ka * ka, om * om
    r = math.sqrt(o2 + 4 * k2)
    x1 = om / ((1 + o2) * r) * math.log((om + r) / (2 * ka))
    q = math.sqrt((1 + o2) ** 2 + 4 * k2 * o2)
    x2 = math.log((1 + 2 * k2 + o2 + q) / (2 * ka * math.sqrt(1 + k2))) / q
    if om > 1e-2:
        p = math.sqrt(o2 + 4 * (1 + k2))
        x3 = math.log((om + p) / (2 * math.sqrt(1 + k2))) / (om * p)
    else:
        x3 = 1 / (4 * (1 + k2))
    return 4 / 0.5289**2 * 2 * math.pi / k0**2 * 2 * Z / ta**2 * (x2 - x1 - x3)


@ck.group("core", timeout=600)
def core(cx):
    g = [0.0, 0.001, 0.05, 0.2, 0.5, 1.0, 2.0, 4.0]
    s = 0.06
    for V in KV:
        k0 = K0(V)
        want = np.array([[core_ref(z, x, V, k0) * math.exp(-0.5 * s * s * (2 * math.pi * x) ** 2) * GAM(V) ** 2 / (4 * math.pi * k0) for x in g] for z in range(1, 99)])
        cx.expect((np.diff(want, axis=1) < 0).all() and (want > 0).all(), "reference", "core loss decreases with angle")
        for nm, f in (("WK", wk), ("Hybrid", HY)):
            r = cx.call(f, torch.tensor(g, dtype=D), ZA, torch.full((98,), s, dtype=D), torch.tensor([V], dtype=D), include_phonon=False)
            a = cx.call(f, torch.tensor(g, dtype=D), ZA, torch.full((98,), s, dtype=D), torch.tensor([V], dtype=D))
            b = cx.call(f, torch.tensor(g, dtype=D), ZA, torch.full((98,), s, dtype=D), torch.tensor([V], dtype=D), include_core=False)
            cx.state(nm, V)
            if r is None or a is None or b is None:
                continue
            cx.expect_all(np.abs(r[0].imag.numpy() - want).max(1) < 2e-3 * want.max(1), f"{nm}/core", f"{nm}: core losses, {V} kV", rows=ZA)
            if nm == "WK":
                cx.expect_all((a - b - 1j * r.imag).abs()[0].amax(1) < 1e-6 * a[0].abs().amax(1), f"{nm}/sum", "losses add up", rows=ZA)


@ck.group("models", timeout=600)
def models(cx):
    """WK and hybrid describe the same absorption, in both precisions, for every displacement and voltage at once"""
    g = torch.tensor([0.0, 0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 1.0, 1.3, 1.7, 2.0, 2.5, 3.0, 3.5, 4.0], dtype=D)
    for s in SIG:
        ref = None
        for dt in (torch.float64, torch.float32):
            V = torch.tensor(KV, dtype=dt)
            a, b = cx.call(wk, g.to(dt), ZA, torch.full((98,), s, dtype=dt), V), cx.call(HY, g.to(dt), ZA, torch.full((98,), s, dtype=dt), V)
            cx.state(s, str(dt))
            if a is None or b is None:
                continue
            cx.expect(tuple(a.shape) == tuple(b.shape) == (len(KV), 98, len(g)), "shape", f"{tuple(a.shape)} {tuple(b.shape)}")
            cx.expect(bool(torch.isfinite(torch.view_as_real(a)).all() and torch.isfinite(torch.view_as_real(b)).all()), "finite", f"finite, sigma {s} {dt}")
            m = b.imag.amax(2, keepdim=True)
            cx.expect_all(((a.imag.clamp_min(0) - b.imag).abs() < 2e-3 * m).all(2).all(0), f"imag-{str(dt)[6:]}", "absorption of both models", rows=ZA)
            if ref is None:
                ref = (a, b)
            else:
                for nm, x, y in (("WK", a, ref[0]), ("Hybrid", b, ref[1])):
                    cx.expect_all(((x - y).abs() < 1.5e-2 * y.abs().amax(2, keepdim=True)).all(2).all(0), f"{nm}/float32", "single precision agrees with double precision", rows=ZA)


@ck.group("batching", timeout=600)
def batching(cx):
    """any layout of the arguments gives the values of single evaluations"""
    zs, gs, vs = [1, 6, 28, 79, 98], [0.0, 0.4, 1.1], [10.0, 25.0]
    sg = [0.03, 0.05, 0.07, 0.09, 0.11]
    for nm, f, kw in (("WK", wk, {}), ("Hybrid", HY, {}), ("LVD", LV, dict(intervals=60))):
        one = np.array([[[complex(f(torch.tensor([g], dtype=D), torch.tensor([z]), torch.tensor([s], dtype=D), torch.tensor([v], dtype=D), **kw)[0, 0, 0]) for g in gs] for z, s in zip(zs, sg)] for v in vs])
        T_ = lambda x: torch.tensor(x, dtype=D)
        for perm in itertools.permutations(range(3)):
            for r in range(1, 6):
                z, s, g = zs[:r][::-1], sg[:r][::-1], [gs[i] for i in perm]
                for vv in ([0], [1], [0, 1], [1, 0]):
                    cx.state(nm, perm, r, vv)
                    if nm == "LVD" and r not in (1, 3):
                        continue
                    o = cx.call(f, T_(g), torch.tensor(z), T_(s), T_([vs[i] for i in vv]), _key=nm, **kw)
                    if o is None:
                        continue
                    w = one[vv][:, list(range(r))[::-1]][:, :, list(perm)]
                    if cx.expect(tuple(o.shape) == w.shape, f"{nm}/shape", f"{tuple(o.shape)}"):
                        cx.close(o.numpy(), w, f"{nm}/value", "batched values equal single ones", tol=1e-9 * (1 + np.abs(w).max()))
        for z, s, v in ((28, 0.06, 20.0), (28, 0.06, 20)):
            o = cx.call(f, T_(gs), z, s, v, _key=f"{nm}/scalar", **kw)
            w = f(T_(gs), torch.tensor([z]), T_([s]), T_([float(v)]), **kw)
            if o is not None and cx.expect(o.shape == w.shape, f"{nm}/scalar-shape", f"{tuple(o.shape)}"):
                cx.close(o.numpy(), w.numpy(), f"{nm}/scalar", "numbers instead of tensors", tol=1e-6 * w.abs().max().item())


@ck.group("exponential-integral", timeout=600)
def ei(cx):
    x = sorted({s * m * 10.0**e for s in (1, -1) for m in (1, 1.3, 1.9, 2.7, 3.5, 4.9, 5.99, 6.01, 7.3, 9.1, 9.99) for e in range(-6, 2)} | set(np.arange(-60, 81, 0.37).tolist()) | {6.0, 10.0, 20.0, 40.0, -1.0, -6.0, 0.37250741078136663})
    x = [v for v in x if v != 0 and -80 < v <= 80]
    ref = np.array([float(mpmath.ei(v)) for v in x])
    r1 = np.array([float(mpmath.e1(v)) for v in x if v > 0])
    for nm, m in (("WK", MW), ("Hybrid", MH)):
        for dt, tol in ((torch.float64, 2e-6), (torch.float32, 2e-5)):
            for shp in ((-1,), (1, -1)):
                o = cx.call(m.expi, torch.tensor(x, dtype=dt).reshape(shp), _key="expi")
                cx.state(nm, str(dt), shp)
                if o is None:
                    continue
                d = np.abs(o.double().numpy().ravel() - ref)
                cx.expect_all(d <= tol * np.maximum(np.abs(ref), 0.1 if dt == torch.float32 else 1e-6), f"{nm}/expi-{str(dt)[6:]}", "exponential integral Ei", rows=x)
                xp = torch.tensor([v for v in x if v > 0], dtype=dt)
                o = cx.call(m.exp1, xp.reshape(shp), _key="exp1")
                if o is not None:
                    d = np.abs(o.double().numpy().ravel() - r1)
                    cx.expect_all(d <= tol * np.maximum(np.abs(r1), 1e-30), f"{nm}/exp1-{str(dt)[6:]}", "exponential integral E1", rows=xp)
    for nm, m in (("WK", MW), ("Hybrid", MH), ("LVD", ML)):
        e = torch.tensor([100.0, 1e3, 2e4, 3e5, 1e6], dtype=D)
        w = [12.2642584554 / math.sqrt(v * (1 + 0.97847561649e-6 * v)) for v in e.tolist()]
        cx.close(m.e_wavelength_eV_to_A(e), w, f"{nm}/wavelength", "relativistic wavelength in Angstrom", tol=1e-5)


if __name__ == "__main__":
    if "--golden" in sys.argv:
        out = {}
        for nm, f in (("WK", WK), ("LVD", LV)):
            r = f(torch.tensor(GG, dtype=D), ZA, torch.full((98,), 0.06, dtype=D), torch.tensor([20.0], dtype=D), return_type="ITC")[0]
            out[nm] = np.round(r.numpy(), 7).tolist()
        json.dump(out, open(GOLD, "w"))
    else:
        ck.main()
