"""C26  Every simulated electron is counted once, in the bin of its exit energy, depth and direction."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools
import types
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from mc.core import Check, THOROUGH
from mc.env import NAMES
from mc import opencl
from checks.c10 import quiet
from ebsdtorch.simulation import monte_carlo as T

opencl.install()
from ebsdtorch.crystallography import ebsd_mc as K

torch.set_num_threads(1)
ck = Check("C26", bounds="all histories of an electron over 1 to 3 collisions (thorough: up to 4) with every collision on a lattice of free path x scattering angle x azimuth, all cyclic histories with period up to 3 over 12 to 300 collisions; materials, energies, tilts, bin layouts, number formats; every split of electrons over batches, trials and runs")
MATERIALS = {"Ni": (28.0, 8.911, 58.6934), "Au": (79.0, 19.3, 196.97), "C": (6.0, 2.26, 12.011), "Si": (14.0, 2.33, 28.085)}


class Physics:
    """Joy's single scattering model, double precision, any number of electrons"""

    def __init__(self, E0, mat, sigma, omega, bins, log=False, tol=1e-9):
        self.E0, self.Z, self.rho, self.A = (E0,) + MATERIALS[mat]
        self.J = (9.76 * self.Z + 58.5 * self.Z**-0.19) * 1e-3
        s, o = np.radians(sigma), np.radians(omega)
        self.start = np.array([np.sin(s) * np.cos(o), np.sin(s) * np.sin(o), np.cos(s)])
        self.nE, self.nD, self.nX, self.bE, self.bD = bins
        self.log, self.tol = log, tol

    def fresh(self, n):
        st = dict(E=np.full(n, self.E0), d=np.zeros(n), c=np.repeat(self.start[None], n, 0), vague=np.zeros(n, bool))
        return dict(st, E2=st["E"].copy(), d2=st["d"].copy(), c2=st["c"].copy())

    def move(self, E, d, c, u):
        """one collision: energy, depth, direction, exit depth, free path, distances from the special cases"""
        with np.errstate(all="ignore"):
            al = 3.4e-3 * self.Z**0.66667 / E
            cross = 5.21 * 602.2 * (self.Z / E) ** 2 * 4 * np.pi / (al * (1 + al)) * ((511 + E) / (1024 + E)) ** 2
            path = -(1e7 * self.A / (self.rho * cross)) * np.log(u[0])
            loss = -0.00785 * self.Z / (self.A * E) * np.log(1.166 * E / self.J + 0.9911)
            cp = 1 - 2 * al * u[1] / (1 + al - u[1])
            sp = np.sqrt(np.clip(1 - cp * cp, 0, None))
            ps = 2 * np.pi * u[2]
            pole = np.abs(c[:, 2]) > 0.99999
            q = np.sqrt(np.clip(1 - c[:, 2] ** 2, 0, None))
            # any pair of axes across the direction: (e1, e2, c)
            e1 = np.stack([c[:, 0] * c[:, 2] / q, c[:, 1] * c[:, 2] / q, -q], 1)
            e2 = np.stack([-c[:, 1] / q, c[:, 0] / q, 0 * q], 1)
            n = (sp * np.cos(ps))[:, None] * e1 + (sp * np.sin(ps))[:, None] * e2 + cp[:, None] * c
            n = np.where(pole[:, None], np.stack([sp * np.cos(ps), sp * np.sin(ps), np.sign(c[:, 2]) * cp], 1), n)
            n /= np.linalg.norm(n, axis=1, keepdims=True)
            depth = np.abs(d / n[:, 2])
            return E + path * self.rho * loss, d + path * n[:, 2], n, depth, path, np.abs(c[:, 2]) - 0.99999

    def bins(self, E, n, depth):
        with np.errstate(all="ignore"):
            x = np.stack([(self.E0 - E) / self.bE, (np.log1p(depth) if self.log else depth) / self.bD], 1)
            w = np.sqrt(np.clip(2 * (1 - np.abs(n[:, 2])), 0, None))
            flip = np.abs(n[:, 1]) > np.abs(n[:, 0])
            big, sml = np.where(flip, n[:, 1], n[:, 0]), np.where(flip, n[:, 0], n[:, 1])
            one = np.sign(big) * w / np.sqrt(2.0)
            two = w * 2 * np.sqrt(2.0) / np.pi * np.arctan2(sml, np.abs(big))
            ab = np.stack([np.where(flip, two, one), np.where(flip, one, two)], 1)
            return np.concatenate([x, (ab * 0.499999 + 0.5) * self.nX], 1)

    def step(self, st, u):
        """u: (3, n) free path, scattering angle, azimuth; returns stopped, exited, bins (n, 4; -1: outside), vague bins
        a second electron that is disturbed in every collision tells how certain the history is"""
        t = self.tol
        E, d, n, depth, path, pole = self.move(st["E"], st["d"], st["c"], u)
        k = np.arange(u.shape[1])
        sign = np.where(k % 2, 1.0, -1.0)
        c2 = st["c2"] + t * np.stack([np.cos(k + 0.3), np.sin(2.0 * k + 0.7), np.cos(3.0 * k + 1.1)], 1)
        c2 /= np.linalg.norm(c2, axis=1, keepdims=True)
        u2 = np.clip(u * (1 - t * sign), 0, 1 - 1e-16)
        u2[0] = np.where(u[0] < 0.5, u[0] * (1 - t * sign), 1 - (1 - u[0]) * (1 + t * sign))
        E2, d2, n2, depth2, _, pole2 = self.move(st["E2"], st["d2"], c2, u2)
        stopped = ~(E > 0)
        exited = (d < 0) & ~stopped
        with np.errstate(all="ignore"):
            vague = st["vague"] | ((pole > 0) != (pole2 > 0)) | (np.abs(pole) < min(t, 2e-6) + 4 * np.abs(pole - pole2)) | (stopped != ~(E2 > 0))
            vague |= (np.abs(E) < t * self.E0 + 4 * np.abs(E - E2)) & np.isfinite(E)
            slip = t * (np.abs(path) + np.abs(st["d"]) + 1e-3) + 4 * np.abs(d - d2)
            vague |= (np.abs(d) < slip) & np.isfinite(path) & (path > 0) & ~stopped
            x = self.bins(E, n, depth)
            slack = t * (1 + np.abs(x)) + 4 * np.abs(x - self.bins(E2, n2, depth2))
        slack[:, 1] += t * np.abs(x[:, 1]) / np.maximum(np.abs(n[:, 2]), 1e-12)
        lim = np.array([self.nE, self.nD, self.nX, self.nX])
        ok = np.isfinite(x).all(1) & (np.abs(x) < 1e9).all(1)
        xs = np.where(ok[:, None], x, -1.0)
        slack = np.where(ok[:, None] & np.isfinite(slack), slack, np.where(ok[:, None], 1.0, 0.0))
        i = np.floor(xs).astype(int)
        # the edge at 0 of energy and depth is no edge: nothing is below
        near = np.abs(xs - np.round(xs)) < slack
        near[:, :2] &= (np.round(xs[:, :2]) > 0) | (slack[:, :2] > 0.5)
        inside = ok & (i >= 0).all(1) & (i < lim).all(1)
        st.update(E=E, d=d, c=n, vague=vague, E2=E2, d2=d2, c2=n2)
        return stopped, exited, np.where(inside[:, None], i, -1), vague | (near & (np.round(xs) - slack <= lim)).any(1)

    def reset(self, st, m):
        st["E"][m], st["d"][m], st["c"][m] = self.E0, 0.0, self.start
        st["E2"][m], st["d2"][m], st["c2"][m] = self.E0, 0.0, self.start

    def empty(self):
        return np.zeros((self.nE, self.nD, self.nX, self.nX))

    def put(self, h, i):
        i = i[(i >= 0).all(1)]
        np.add.at(h, tuple(i.T), 1)


# ---------------------------------------------------------------- torch

class Draws(TorchDispatchMode):
    """answers the random numbers of the simulation: numbers[tick, role, electron], drawn in the given order of roles"""

    def __init__(self, numbers, order):
        super().__init__()
        self.u, self.order, self.k, self.n = numbers, order, 0, numbers.shape[2]
        self.odd = False

    def __torch_dispatch__(self, func, types_, args=(), kwargs=None):
        kwargs = kwargs or {}
        out = func(*args, **kwargs)
        name = func.name()
        if name in NAMES:
            lo, hi = 0.0, 1.0
            if name.startswith("aten::uniform_"):
                lo = args[1] if len(args) > 1 else kwargs.get("from", 0.0)
                hi = args[2] if len(args) > 2 else kwargs.get("to", 1.0)
            elif name not in ("aten::rand", "aten::rand_like"):
                self.odd = True
                return out
            if out.numel() % self.n:
                self.odd = True
                return out
            m = out.numel() // self.n
            rows = []
            for _ in range(m):
                t, r = divmod(self.k, 3)
                rows.append(self.u[t % len(self.u), self.order[r]])
                self.k += 1
            a = np.stack(rows)
            if out.dim() == 2 and out.shape[0] == self.n and m > 1:
                a = a.T
            a = torch.as_tensor(lo + (hi - lo) * a).to(out.dtype).reshape(out.shape)
            if name.endswith("_"):
                out.copy_(a)
            else:
                out = a
        return out


ORDERS = list(itertools.permutations(range(3)))


def torch_run(cx, ph, u, max_steps, n_sim, n_bse, dtype, key, case):
    """the histogram, whichever of the numbers drawn in a collision plays which role"""

    def run(order):
        env = Draws(u, order)
        with quiet(), env:
            h = cx.call(T.bse_sim_mc, ph.E0, ph.nE, ph.nX, ph.nD, ph.bE, ph.bD, ph.Z, ph.rho, ph.A, u.shape[2], n_bse, n_sim, max_steps, case["sigma"], case["omega"], dtype, torch.device("cpu"), _key=key, _case=case)
        return None if h is None else h.double().numpy(), env

    for o in sorted(ORDERS, key=lambda o: o != torch_run.order):
        h, env = run(o)
        if h is None:
            return
        yield h, env
        torch_run.order = o


torch_run.order = ORDERS[0]


def predict(ph, u, max_steps, ticks, n_sim=None, n_bse=None):
    """certain counts, possible further counts, finished and backscattered electrons after every tick"""
    n = u.shape[2]
    st = ph.fresh(n)
    age = np.zeros(n, int)
    sure, maybe = ph.empty(), 0
    fin, bse = [], []
    f = b = 0
    for t in range(ticks):
        stopped, exited, i, vague = ph.step(st, u[t % len(u)])
        ph.put(sure, i[exited & ~vague])
        # an electron whose history is not certain can be counted at most once per collision
        maybe += int((vague & exited).sum()) + int(st["vague"].sum())
        age += 1
        done = (age >= max_steps) | exited | stopped
        f += int(done.sum())
        b += int(exited.sum())
        fin.append(f)
        bse.append(b)
        ph.reset(st, done)
        age[done] = 0
        if (n_sim is not None and f >= n_sim) or (n_bse is not None and b >= n_bse):
            break
    return sure, maybe, fin, bse


def torch_case(cx, name, E0, mat, sigma, omega, bins, u, max_steps, ticks, dtype=torch.float64, **more):
    ph = Physics(E0, mat, sigma, omega, bins, tol=1e-9 if dtype == torch.float64 else 2e-4)
    case = dict(energy=E0, material=mat, sigma=sigma, omega=omega, bins=list(bins), max_steps=max_steps, collisions=ticks, electrons=u.shape[2], dtype=str(dtype), **more)
    sure, maybe, fin, bse = predict(ph, u, max_steps, ticks)
    # stop after exactly the given number of collisions
    lo = fin[-2] if ticks > 1 else 0
    if fin[-1] - lo < 2 * maybe + 2:
        if u.shape[2] > 1:
            cx.sample(skipped=True, **case)
        if fin[-1] == lo:
            return
    n_sim = (lo + fin[-1] + 1) // 2
    best = None
    for h, env in torch_run(cx, ph, u, max_steps, n_sim, 10**9, dtype, name, case):
        if h.shape != sure.shape:
            cx.expect(False, f"{name}-shape", f"histogram of shape {h.shape}", **case)
            return
        miss, extra = np.clip(sure - h, 0, None).sum(), np.clip(h - sure, 0, None).sum()
        bad = miss + max(0, extra - maybe)
        if best is None or bad < best[0]:
            best = (bad, miss, extra, env.k)
        if bad == 0 or env.odd:
            break
    if best is None:
        return
    cx.trans(u.shape[2] * ticks)
    if env.odd:
        cx.sample(unknown_random_numbers=True)
        return
    cx.expect(best[0] == 0, name, f"{best[1]:.0f} of {sure.sum():.0f} electrons are missing and {best[2]:.0f} are in other bins ({maybe} are uncertain)", **case)


def lattice(*axes):
    """all combinations of the numbers of one collision"""
    return np.array(list(itertools.product(*axes))).T  # (3, m)


def histories(letters, length):
    """(length, 3, m^length): all histories"""
    m = letters.shape[1]
    ix = np.stack(np.meshgrid(*[np.arange(m)] * length, indexing="ij"), 0).reshape(length, -1)
    return letters[:, ix].transpose(1, 0, 2)


def jitter(u):
    """no two electrons on the same edge of a bin"""
    k = np.arange(u.size).reshape(u.shape)
    return np.clip(u + 1e-3 * ((k * 0.6180339887) % 1.0 - 0.5) * (u > 1e-6) * (u < 0.999), 0, 1)


STEP, PHI, PSI = (0.05, 0.4, 0.9), (0.05, 0.6, 0.97), (0.07, 0.4, 0.77)
FINE = lattice((0.01, 0.2, 0.5, 0.93), (0.02, 0.5, 0.93, 0.995), (0.06, 0.3, 0.57, 0.86))
COARSE = lattice(STEP, PHI, PSI)
BINS = [(16, 30, 11, 1.0, 1.0), (4, 6, 4, 0.3, 0.5), (1, 1, 1, 100.0, 1e5), (40, 3, 7, 1.0, 40.0)]
BEAMS = [(0.0, 0.0), (30.0, 90.0), (70.0, 0.0), (70.0, 213.0), (85.0, -40.0)]


for _mat in MATERIALS:
    def _g(mat):
        @ck.group(f"torch-two-{mat}", timeout=900)
        def two(cx):
            """all histories of two collisions"""
            u = jitter(histories(FINE, 2))
            for E0, (sigma, omega), bins in itertools.product((30.0, 12.0, 3.0), BEAMS, BINS):
                cx.states((mat, E0, sigma, omega, bins,), np.arange(u.shape[2]))
                torch_case(cx, "histories", E0, mat, sigma, omega, bins, u, 2, 2)
    _g(_mat)


@ck.group("torch-three", timeout=900)
def three(cx):
    """all histories of three collisions"""
    u = jitter(histories(COARSE, 3))
    for mat, E0, (sigma, omega) in itertools.product(MATERIALS, (20.0, 2.0), ((70.0, 0.0), (0.0, 0.0), (45.0, 130.0))):
        if not THOROUGH and (mat == "Si" or (E0 < 5 and sigma != 70.0)):
            continue
        cx.states((mat, E0, sigma,), np.arange(u.shape[2]))
        torch_case(cx, "histories", E0, mat, sigma, omega, BINS[0], u, 3, 3)


@ck.group("torch-four", timeout=1500, thorough_only=True)
def four(cx):
    u = jitter(histories(COARSE, 4))
    for mat, sigma in (("Ni", 70.0), ("Au", 30.0)):
        cx.states((mat, sigma,), np.arange(u.shape[2]))
        torch_case(cx, "histories", 20.0, mat, sigma, 10.0, BINS[0], u, 4, 4)


@ck.group("torch-long", timeout=900)
def long(cx):
    """cyclic histories until the electrons leave, stop, or reach the maximal number of collisions, and start again"""
    for period in (1, 2, 3):
        letters = FINE if period < 3 else lattice((0.1, 0.6), (0.5, 0.97), (0.1, 0.4, 0.8))
        base = jitter(histories(letters, period))
        for mat, E0, (mx, ticks), dtype in itertools.product(("Ni", "Au", "C"), (25.0, 5.0, 1.0), ((1, 5), (2, 9), (5, 23), (12, 30), (60, 61), (300, 150)), (torch.float64, torch.float32)):
            if ticks > 100 and (period > 2 or E0 > 5) and not THOROUGH:
                continue
            if not THOROUGH and (dtype == torch.float32 and (mat == "C" or mx > 12)):
                continue
            u = np.concatenate([jitter(base * 0.999 + 1e-4 * k) for k in range(7)])  # the numbers never repeat exactly
            cx.states((period, mat, E0, mx, dtype,), np.arange(base.shape[2]))
            torch_case(cx, "long", E0, mat, 70.0, 20.0, BINS[3], u, mx, ticks, dtype, period=period)


@ck.group("torch-extreme", timeout=300)
def extreme(cx):
    """random numbers 0 and just below 1 in every role and place"""
    top = 1 - 2.0**-24
    ax = (0.0, 1e-12, 0.5, top)
    u = histories(lattice(ax, (0.0, 1e-12, 0.5, 0.99), ax), 2)
    u = u + 1e-4 * ((np.arange(u.size).reshape(u.shape) * 0.618) % 1.0) * (u == 0.5)
    for mat, E0, (sigma, omega) in itertools.product(("Ni", "Au"), (20.0, 2.0), BEAMS):
        cx.states((mat, E0, sigma, omega,), np.arange(u.shape[2]))
        torch_case(cx, "extreme", E0, mat, sigma, omega, BINS[0], u, 2, 2)


NORMAL = [(0.0, 0.0), (0.0, 75.0), (180.0, 0.0)]


@ck.group("torch-normal", timeout=600)
def normal(cx):
    """electrons on their way along the normal of the surface, down and up"""
    u = histories(lattice((0.1, 0.5, 0.9), (0.0, 1e-9, 0.5, 0.95, 1 - 1e-13), (0.07, 0.4, 0.77)), 3 if THOROUGH else 2)
    w = histories(lattice((0.1, 0.8), (0.0, 0.5, 1 - 1e-13), (0.1, 0.7)), 3)
    for v, n in ((jitter(u), len(u)), (jitter(w), 3)):
        for mat, E0, (sigma, omega), bins in itertools.product(MATERIALS, (20.0, 2.0), NORMAL, BINS):
            cx.states((n, mat, E0, sigma, omega, bins,), np.arange(v.shape[2]))
            torch_case(cx, "normal", E0, mat, sigma, omega, bins, v, n, n)


@ck.group("torch-batches", timeout=600)
def batches(cx):
    """the number of electrons at once, many of which leave into the same bin"""
    base = jitter(histories(COARSE, 2))
    for n in (1, 2, 3, 7, 50, 729):
        for rep in (1, 2, 5):
            for bins in (BINS[0], BINS[2], (3, 2, 2, 10.0, 10.0)):
                # groups of identical electrons
                for first in range(0, 729, 1 if n > 300 else 243 if n > 10 else 31):
                    u = np.repeat(base[:, :, first : first + n], rep, axis=2)
                    if u.shape[2] != n * rep:
                        continue
                    cx.state("batch", n, rep, bins, first)
                    torch_case(cx, "batches", 20.0, "Ni", 70.0, 0.0, bins, u, 2, 2, copies=rep, first=first)


@ck.group("torch-limits", timeout=600)
def limits(cx):
    """the simulation ends when either number is reached"""
    u = jitter(histories(COARSE, 2))[:, :, ::7]
    ph = Physics(20.0, "Ni", 70.0, 0.0, BINS[0])
    for mx in (1, 2, 3, 5):
        _, _, fin, bse = predict(ph, u, mx, 12)
        for n_sim, n_bse in [(f + o, 10**9) for f in fin for o in (0, 1)] + [(10**9, b + o) for b in bse for o in (0, 1)] + [(0, 10**9), (10**9, 0), (1, 1)]:
            if min(n_sim, n_bse) == 0:
                want, ticks = ph.empty(), 0
            else:
                want, maybe, f, _ = predict(ph, u, mx, 40, n_sim, n_bse)
                ticks = len(f)
            cx.state("limit", mx, n_sim, n_bse)
            case = dict(sigma=70.0, omega=0.0, max_steps=mx, n_sim=n_sim, n_bse=n_bse)
            for h, env in torch_run(cx, ph, u, mx, n_sim, n_bse, torch.float64, "limits", case):
                ok = np.array_equal(h, want)
                if ok or env.odd:
                    break
            else:
                h = None
            if h is not None:
                cx.expect(ok or env.odd, "limits", f"{h.sum():.0f} counts, expected {want.sum():.0f} after {ticks} collisions", **case)
            cx.trans(ticks)


# ---------------------------------------------------------------- OpenCL

SOLVE = {n: opencl.Seeds(n, b) for n, b in ((3, 32), (6, 18))}


def kernel(cx, params, seeds, key, case):
    """the histogram of the kernel for given seeds"""
    it = iter(np.asarray(seeds))
    opencl.STATE.seeds = lambda n: np.stack([next(it) for _ in range(n)])
    opencl.STATE.gets.clear()
    try:
        with quiet():
            return cx.call(K.run_monte_carlo_simulation, params, {}, _key=key, _case=case)
    finally:
        opencl.STATE.seeds = None
        opencl.STATE.given.clear()
        opencl.STATE.launches.clear()


def streams(seeds, n):
    """(n, electrons) random numbers of the generator"""
    z = np.asarray(seeds, np.uint64)
    out = []
    for _ in range(n):
        z = opencl.lfsr(z)
        out.append(opencl.words(z).astype(float) * 2.32830643708079737e-10)
    return np.stack(out)


def follow(ph, seeds, max_steps, trials):
    """all trials of each electron: certain histogram and number of uncertain electrons, per electron the bin of a single trial"""
    n = len(seeds)
    z = np.asarray(seeds, np.uint64).copy()
    sure, maybe = ph.empty(), 0
    single = np.full((n, 4), -1)
    unsure = np.zeros(n, bool)
    lost = np.zeros(n, bool)  # the place in the sequence of random numbers is not certain any more
    for _ in range(trials):
        st = ph.fresh(n)
        alive = np.ones(n, bool)
        for _ in range(max_steps):
            u = np.empty((3, n))
            for r in range(3):
                z = np.where(alive[:, None], opencl.lfsr(z), z)
                u[r] = opencl.words(z).astype(float) * 2.32830643708079737e-10
            old = {k: v.copy() for k, v in st.items()}
            stopped, exited, i, vague = ph.step(st, u)
            for k in st:
                st[k][~alive] = old[k][~alive]
            vague = (vague | lost) & alive
            ph.put(sure, i[exited & ~vague & alive])
            single[exited & alive] = i[exited & alive]
            maybe += int((vague & exited & alive).sum())
            unsure |= vague
            lost |= st["vague"] & alive
            alive &= ~(stopped | exited)
            if not alive.any():
                break
        maybe += int(lost.sum())
    return sure, maybe, single, unsure


def parameters(ph, mat, sigma, omega, max_steps, n, trials=1):
    return dict(n_electrons=n, n_trials_per_electron=trials, starting_E_keV=ph.E0, n_exit_energy_bins=ph.nE, n_exit_direction_bins=ph.nX, n_exit_depth_bins=ph.nD, binsize_exit_energy=ph.bE, binsize_exit_depth=ph.bD,
                atom_num=ph.Z, unit_cell_density_rho=ph.rho, atomic_weight_A=ph.A, n_max_steps=max_steps, sigma=sigma, omega=omega, depth_mode="log" if ph.log else "linear", residual=0.0)


def can_run(cx):
    try:
        with quiet():
            ph = Physics(20.0, "Ni", 70.0, 0.0, BINS[0])
            K.run_monte_carlo_simulation(parameters(ph, "Ni", 70.0, 0.0, 1, 1), {})
        return True
    except opencl.CannotRun as e:
        cx.sample(kernel_not_run=str(e)[:200])
        return False


def kernel_case(cx, key, E0, mat, sigma, omega, bins, log, seeds, max_steps, trials=1, singles=False):
    ph = Physics(E0, mat, sigma, omega, bins, log, tol=2e-4)
    case = dict(energy=E0, material=mat, sigma=sigma, omega=omega, bins=list(bins), log=log, max_steps=max_steps, trials=trials, electrons=len(seeds))
    sure, maybe, single, unsure = follow(ph, seeds, max_steps, trials)
    h = kernel(cx, parameters(ph, mat, sigma, omega, max_steps, len(seeds), trials), seeds, key, case)
    cx.trans(len(seeds) * trials)
    if h is None:
        return
    if not cx.expect(h.shape == sure.shape, f"{key}-shape", f"histogram of shape {h.shape}", **case):
        return
    h = h.astype(float)
    miss, extra = np.clip(sure - h, 0, None).sum(), np.clip(h - sure, 0, None).sum()
    cx.expect(miss == 0 and extra <= maybe, key, f"{miss:.0f} of {sure.sum():.0f} electrons are missing and {extra:.0f} are in other bins ({maybe} are uncertain)", **case)
    if singles:
        total = np.zeros_like(h)
        for k in range(len(seeds)):
            one = kernel(cx, parameters(ph, mat, sigma, omega, max_steps, 1, trials), seeds[k : k + 1], key, case)
            if one is None:
                return
            total += one
            if not unsure[k] and trials == 1:
                want = ph.empty()
                ph.put(want, single[k : k + 1])
                cx.expect(np.array_equal(one, want), f"{key}-single", f"electron in {np.argwhere(one).tolist()}, expected {single[k].tolist()}", seed=[int(v) for v in seeds[k]], **case)
        cx.expect(np.array_equal(total, h), f"{key}-sum", "the electrons are not independent", **case)


def seed_lattice(letters, n):
    u = histories(letters, n)
    u = jitter(u).transpose(2, 0, 1).reshape(u.shape[2], -1)
    return np.array([SOLVE[3 * n].solve(v) for v in u], np.uint64)


@ck.group("kernel-one", timeout=600)
def kernel_one(cx):
    """every collision on a fine lattice"""
    if not can_run(cx):
        return
    letters = lattice((0.0, 1e-6, 0.02, 0.15, 0.4, 0.7, 0.95), (0.0, 0.02, 0.3, 0.7, 0.93, 0.99), (0.0, 0.06, 0.3, 0.57, 0.86, 0.97))
    seeds = seed_lattice(letters, 1)
    u = jitter(histories(letters, 1)).transpose(2, 0, 1).reshape(-1, 3)
    # the generator gives the numbers that were solved for
    cx.expect(np.abs(streams(seeds, 3).T - u).max() < 1e-9, "solver", "seeds")
    for mat, E0, (sigma, omega), bins, log in itertools.product(MATERIALS, (30.0, 3.0), BEAMS, BINS, (False, True)):
        cx.states((mat, E0, sigma, omega, bins, log,), np.arange(len(seeds)))
        kernel_case(cx, "collision", E0, mat, sigma, omega, bins, log, seeds, 1)


@ck.group("kernel-two", timeout=900)
def kernel_two(cx):
    """all histories of two collisions, each electron alone and together"""
    if not can_run(cx):
        return
    seeds = seed_lattice(COARSE if not THOROUGH else FINE, 2)
    for mat, E0, (sigma, omega), (bins, log) in itertools.product(MATERIALS, (30.0, 3.0), BEAMS, ((BINS[0], False), (BINS[1], True), (BINS[3], True))):
        cx.states((mat, E0, sigma, omega, bins, log,), np.arange(len(seeds)))
        kernel_case(cx, "history", E0, mat, sigma, omega, bins, log, seeds, 2, singles=bins == BINS[0] and not THOROUGH and mat == "Ni")


@ck.group("kernel-normal", timeout=900)
def kernel_normal(cx):
    """electrons on their way along the normal of the surface"""
    if not can_run(cx):
        return
    seeds = seed_lattice(lattice((0.1, 0.5, 0.9), (0.0, 0.5, 0.95, 1.0), (0.07, 0.4, 0.77)), 2)
    for mat, E0, (sigma, omega), (bins, log) in itertools.product(MATERIALS, (30.0, 3.0), NORMAL, ((BINS[0], False), (BINS[2], False), (BINS[3], True))):
        cx.states((mat, E0, sigma, omega, bins, log,), np.arange(len(seeds)))
        kernel_case(cx, "normal", E0, mat, sigma, omega, bins, log, seeds, 2)


@ck.group("kernel-long", timeout=900)
def kernel_long(cx):
    """the random numbers of each seed to the end of the electron, several trials"""
    if not can_run(cx):
        return
    seeds = seed_lattice(COARSE, 2)
    for mat, E0, mx, trials, log in itertools.product(("Ni", "Au", "C"), (20.0, 1.0), (3, 10, 40, 300), (1, 2, 7), (False, True)):
        if not THOROUGH and mx * trials > 400:
            continue
        cx.states((mat, E0, mx, trials, log,), np.arange(len(seeds)))
        kernel_case(cx, "trials", E0, mat, 70.0, 15.0, BINS[3] if log else BINS[0], log, seeds, mx, trials)


# ---------------------------------------------------------------- simulator

def fake_cell(mat):
    Z, rho, A = MATERIALS[mat]
    t = torch.tensor
    return types.SimpleNamespace(get_average_atomic_number=t(Z), get_density=t(rho), get_average_atomic_weight=t(A))


@ck.group("simulator", timeout=900)
def simulator(cx):
    """energies, symmetry, totals and the number of runs"""
    if not can_run(cx):
        return
    pool = seed_lattice(COARSE, 2)
    for mat, kV, sigma, omega, (bE, extra), (nD, bD, mode), nX, n, trials, mass in itertools.product(
            ("Ni", "Au"), (20.0, 5.5), (70.0, 40.0), (0.0, 25.0), ((0.5, 4), (2.0, 0), (1.5, 2)), ((20, 0.2, "log"), (6, 3.0, "linear")), (5, 6), (40, 729), (1, 3), (1, 60, 150)):
        if not THOROUGH and ((nX == 6) != (n == 729) or (sigma == 40.0) != (omega == 25.0)):
            continue
        nE = int(kV // bE)
        ph = Physics(kV + extra * bE, mat, sigma, omega, (nE + extra, nD, nX, bE, bD), mode == "log", tol=2e-4)
        # the runs end
        if follow(ph, pool, 40, 1)[0][extra:].sum() < 30 or (n == 40 and mass > 60 and not THOROUGH):
            cx.outcome("too few leave", mat, kV, extra)
            continue
        case = dict(material=mat, kV=kV, sigma=sigma, omega=omega, energy_bin=bE, extra=extra, depth=[nD, bD, mode], directions=nX, electrons=n, trials=trials, mass=mass)
        cx.state(*map(str, case.values()))
        used = []

        def give(k, used=used):
            start = sum(map(len, used)) * 5
            s = pool[(start + 3 * np.arange(k)) % len(pool)]
            used.append(s)
            return s

        with quiet():
            sim = cx.call(K.MonteCarloSimulator, fake_cell(mat), kV, sigma, _key="construct", _case=case, binsize_exit_energy=bE, binsize_exit_depth=bD, n_depth_bins=nD, depth_mode=mode, n_direction_bins=nX, n_energy_bins_extra=extra, min_histogram_mass=mass, omega=omega, n_max_steps_override=40)
            if sim is None:
                continue
            opencl.STATE.seeds = give
            r = cx.call(sim.run_simulation, n, trials, _key="run", _case=case)
            opencl.STATE.seeds = None
        cx.trans()
        if r is None:
            continue
        h, total = r
        if not cx.expect(tuple(h.shape) == (nE, nD, nX, nX), "shape", f"histogram of shape {tuple(h.shape)}", **case):
            continue
        h = h.double().numpy()
        sums, slack, want = [], 0, 0
        for s in used:
            a, maybe, _, _ = follow(ph, s, 40, trials)
            a = a[extra:]
            if omega == 0.0:
                a = (a + a[..., ::-1]) / 2
            want = want + a
            slack += maybe
            sums.append(a.sum())
        miss, more = np.clip(want - h, 0, None).sum(), np.clip(h - want, 0, None).sum()
        cx.expect(miss == 0 and more <= slack, "simulator", f"{miss} of {want.sum()} counts are missing and {more} are in other bins ({slack} are uncertain)", **case)
        cx.expect(total == len(used) * n * trials, "total", f"{total} simulated electrons, {len(used)} runs of {n} x {trials}", **case)
        cx.expect(h.sum() >= mass, "mass", f"only {h.sum()} counts", **case)
        cx.expect(sum(sums[:-1]) < mass + slack, "runs", "more runs than needed", **case)


@ck.group("steps", timeout=600)
def steps(cx):
    """the number of collisions that is chosen fills all energies, or is the largest"""
    if not can_run(cx):
        return
    for mat, kV, sigma, bE in itertools.product(("Ni", "C"), (2.0, 4.0, 6.0), (70.0, 80.0), (1.0, 2.0)):
        case = dict(material=mat, kV=kV, sigma=sigma, energy_bin=bE)
        cx.state(*map(str, case.values()))
        pool = seed_lattice(COARSE, 2)
        opencl.STATE.gets.clear()
        opencl.STATE.seeds = lambda k: pool[np.arange(k) % len(pool)]
        with quiet():
            sim = cx.call(K.MonteCarloSimulator, fake_cell(mat), kV, sigma, _key="steps", _case=case, binsize_exit_energy=bE, n_direction_bins=3, n_depth_bins=40, n_energy_bins_extra=1, find_steps_fraction=4e-5)
        opencl.STATE.seeds = None
        if sim is None:
            continue
        runs = [g[1:].sum((1, 2, 3)) for g in opencl.STATE.gets]
        cx.trans(len(runs))
        filled = [bool((r > 0).all()) for r in runs]
        cx.expect(len(runs) > 0 and not any(filled[:-1]) and (filled[-1] or sim.n_max_steps >= 2000), "steps", f"{sim.n_max_steps} collisions after {filled}", **case)


@ck.group("resample", timeout=600)
def resample(cx):
    """resampling in depth is exact for densities that the interpolation can represent, one energy and direction at a time"""
    torch.manual_seed(1)
    for nD, bD, nL, bL, nE, nX in itertools.product((5, 8, 40, 80, 128), (0.05, 0.1, 0.15, 0.3, 0.7), (1, 7, 50, 200), (0.1, 0.5, 1.0, 2.5), (1, 3), (1, 2)):
        if (nE, nX) == (3, 1):
            continue
        if not np.isfinite(np.exp(np.float32(nD * bD))) or nD * bD > 30:
            continue
        case = dict(depth_bins=nD, bin=bD, linear_bins=nL, linear_bin=bL, energies=nE, directions=nX)
        cx.state(*case.values())
        with quiet():
            sim = cx.call(K.MonteCarloSimulator, fake_cell("Ni"), float(nE), 70.0, _key="construct", _case=case, binsize_exit_energy=1.0, binsize_exit_depth=bD, n_depth_bins=nD, n_direction_bins=nX, n_max_steps_override=3)
        if sim is None:
            continue
        edges = np.expm1(np.arange(nD + 1) * bD)
        mid, width = (edges[1:] + edges[:-1]) / 2, np.diff(edges)
        out = (np.arange(nL) + 0.5) * bL
        rng = np.random.default_rng(nD + nL)
        scale = out.max() + 1
        for kind, deg in (("linear", 1), ("quadratic", 2)):
            if out[-1] > mid[-1] * 0.999 and kind == "linear":
                try:
                    sim.resample_to_linear(torch.ones(nE, nD, nX, nX), nL, bL, kind)
                    cx.expect(out[-1] <= mid[-1] * 1.001, "range", "depths outside of the histogram are accepted", kind=kind, **case)
                except ValueError:
                    pass
                continue
            co = np.abs(rng.random((deg + 1, nE, nX, nX))) + 0.1
            f = lambda d: sum(c[:, None] * (d / scale)[None, :, None, None] ** k for k, c in enumerate(co))
            hist = f(mid) * width[None, :, None, None]
            for norm in (False, True):
                x = torch.as_tensor(hist).float()
                keep = x.clone()
                r = cx.call(sim.resample_to_linear, x, nL, bL, kind, norm, _key="resample", _case=dict(kind=kind, **case))
                cx.trans()
                if r is None:
                    continue
                cx.expect(torch.equal(x, keep), "inputs", "the histogram changed", kind=kind, **case)
                r = r.double().numpy()
                if not cx.expect(r.shape == (nE, nL, nX, nX), "resample-shape", f"{r.shape}", kind=kind, **case):
                    continue
                ok = (out >= mid[0]) & (out <= mid[-1])
                want = f(out)
                if norm:
                    cx.expect(abs(r.sum() - 1) < 1e-3, "normalized", f"sum {r.sum()}", kind=kind, **case)
                    if not ok.all():
                        continue
                    want = want / want.sum()
                err = np.abs(r - want)[:, ok]
                if err.size:
                    cx.expect(err.max() < 2e-3 * np.abs(want).max(), "resample", f"density is off by {err.max():.3g} of {np.abs(want).max():.3g}", kind=kind, normalize=norm, **case)
    # a single bin spreads over its neighbors only
    with quiet():
        sim = K.MonteCarloSimulator(fake_cell("Ni"), 1.0, 70.0, binsize_exit_energy=1.0, binsize_exit_depth=0.2, n_depth_bins=20, n_direction_bins=1, n_max_steps_override=3)
    edges = np.expm1(np.arange(21) * 0.2)
    mid = (edges[1:] + edges[:-1]) / 2
    out = (np.arange(80) + 0.5) * 0.5
    for k, (kind, reach) in itertools.product(range(20), (("linear", 1), ("quadratic", 2))):
        cx.state("impulse", k, kind)
        x = torch.zeros(1, 20, 1, 1)
        x[0, k] = 1.0
        r = cx.call(sim.resample_to_linear, x, 80, 0.5, kind, _key="impulse", _case=dict(bin=k, kind=kind))
        if r is None:
            continue
        r = r[0, :, 0, 0].double().numpy()
        ok = (out >= mid[0]) & (out <= mid[-1])
        near = (out > mid[max(k - reach, 0)] - 1e-4) & (out < mid[min(k + reach, 19)] + 1e-4)
        cx.expect((r >= 0).all() and (np.abs(r[ok & ~near]) < 1e-6).all(), "impulse", "a bin spreads further than its neighbors", bin=k, kind=kind)
        cx.trans()
    for kw, mode in ((dict(interpolation="cubic"), "log"), (dict(), "linear")):
        cx.state("refused", mode)
        with quiet():
            sim = K.MonteCarloSimulator(fake_cell("Ni"), 1.0, 70.0, binsize_exit_energy=1.0, n_depth_bins=20, n_direction_bins=1, depth_mode=mode, n_max_steps_override=3)
        try:
            sim.resample_to_linear(torch.ones(1, 20, 1, 1), 3, 0.5, **kw)
            cx.expect(False, "refused", "accepted", mode=mode, **kw)
        except ValueError:
            cx.trans()


if __name__ == "__main__":
    ck.main()
