"""C34  Array functions depend on the values only: not on layout, batch shape, company or earlier calls; inputs stay unchanged."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math, re
import numpy as np
import torch
from mc.core import Check, THOROUGH
from mc import rot
import ebsdtorch.s2_and_so3.orientations as O
import ebsdtorch.s2_and_so3.quaternions as Q
import ebsdtorch.s2_and_so3.laue_fz_ori as LO
import ebsdtorch.s2_and_so3.laue_fz_s2 as LS
import ebsdtorch.s2_and_so3.laue_fz_misori as LM
import ebsdtorch.s2_and_so3.sphere as SP
import ebsdtorch.utils.rosca_lambert as RL
import ebsdtorch.lie_algebra.se3 as S

torch.set_num_threads(1)
F32, F64 = torch.float32, torch.float64
N = 12  # rows of the base data
LAUES = range(1, 12)


# ---- base data: generic rows first, special rows last; nothing on a tie ------------------------
def base_quats():
    q = []
    for i in range(N):
        k = np.array([5 - i % 3, 1.3 + 0.7 * i, -2.1 + 0.45 * i * (-1) ** i, 0.9 - 0.31 * i])
        q.append(k / np.linalg.norm(k))
    c = math.cos
    q[8] = np.array([1.0, 0, 0, 0])
    q[9] = np.array([c(0.15), 0, 0, math.sin(0.15)])
    q[10] = np.array([c(0.1), -math.sin(0.1), 0, 0])
    q[11] = np.array([c(1e-4), 0, math.sin(1e-4), 0])
    return torch.tensor(np.array(q), dtype=F64)


QU = base_quats()
QU2 = QU.flip(0)[:, [0, 2, 3, 1]] * torch.tensor([1.0, -1, 1, 1], dtype=F64)
QU3 = QU.roll(5, 0)[:, [0, 3, 1, 2]]
ANYQU = QU * torch.tensor([1.0, -1, 1, -1, 1, -1, 1, -1, 1, -1, 1, 1], dtype=F64)[:, None]
DIR = torch.tensor([[0.31 + 0.13 * i, 0.77 - 0.29 * i, 0.52 * (-1) ** i + 0.11 * i] for i in range(N)], dtype=F64)
DIR = DIR / DIR.norm(dim=-1, keepdim=True)
DIRZ = DIR.clone()
DIRZ[10] = torch.tensor([0.0, 0, 1])
DIRZ[11] = torch.tensor([0.6, 0.0, -0.8])
SQ = torch.tensor([[math.sin(1.7 * i + 0.3) * 0.93, math.cos(2.3 * i) * 0.89] for i in range(N)], dtype=F64)
SQ[11] = 0.0
HEX = SQ * 0.7
TW = torch.tensor([[math.sin(1.1 * i + j * 0.9 + 0.2) * (1.1 if j < 3 else 2.0) for j in range(6)] for i in range(N)], dtype=F64)
TW[9, :3] *= 1e-5
TW[10, :3] = 0.0
TW[11] = 0.0
W3 = TW[:, :3].clone()
ROT = O.qu2om(QU)
CUBE = TW[:, 3:] / 2.0 * 0.4

DATA = dict(qu=QU, qu2=QU2, qu3=QU3, any=ANYQU, dir=DIR, dirz=DIRZ, sq=SQ, hex=HEX, tw=TW, w=W3, om=ROT, cube=CUBE)
TAIL = dict(om=2)
for r in ("ho", "om", "ax", "ro", "cu", "bu", "zh"):
    DATA["r" + r] = ROT if r == "om" else getattr(O, "qu2" + r)(QU)
DATA["rqu"] = QU


def tail(k):
    return 2 if k in ("om", "rom") else 1


# ---- functions -----------------------------------------------------------------------------------
FAM = {}


def add(fam, name, fn, *args, post=None, tol=1e-7, tol32=2e-3):
    FAM.setdefault(fam, []).append((name, fn, args, post, tol, tol32))


for n_ in sorted(vars(O)):
    m_ = re.fullmatch(r"(ho|om|ax|ro|cu|bu|zh|qu)2(ho|om|ax|ro|cu|bu|zh|qu|cl)", n_)
    if m_ and callable(getattr(O, n_)):
        add("from-" + m_.group(1), n_, getattr(O, n_), "r" + m_.group(1))
add("from-ho", "ho2ax_reference", lambda h: O.ho2ax_reference(h), "rho")
add("from-ho", "ho2ax_newton", lambda h: O.ho2ax_newton(h), "rho")
for n_ in ("qu_std", "qu_norm", "qu_conj", "qu_norm_std", "qu_angle"):
    add("quaternions", n_, getattr(Q, n_), "any")
for n_ in ("qu_prod_raw", "qu_prod", "qu_prod_pos_real", "qu_prod_axis"):
    add("quaternions", n_, getattr(Q, n_), "any", "qu2")
add("quaternions", "qu_triple_prod_pos_real", Q.qu_triple_prod_pos_real, "any", "qu2", "qu3")
add("quaternions", "qu_slerp", lambda a, b: Q.qu_slerp(a, b, 0.3), "qu", "qu2")
add("quaternions", "qu_apply", Q.qu_apply, "any", "dirz")


def bind(f, *L):
    return lambda *a: f(*a, *L)


def real(q):
    return q[..., 0].abs()


for L_ in LAUES:
    for n_ in ("ori_to_fz_laue", "ori_equiv_laue", "ori_in_fz_laue_brute", "ori_in_fz_laue"):
        add("orientations", f"{n_}({L_})", bind(getattr(LO, n_), L_), "qu" if "in_fz" in n_ else "any")
    add("orientations", f"ori_angle_laue({L_})", bind(LO.ori_angle_laue, L_), "qu", "qu2")
    for n_ in ("s2_in_fz_laue", "s2_to_fz_laue", "s2_equiv_laue"):
        add("directions", f"{n_}({L_})", bind(getattr(LS, n_), L_), "dir")
for L_, M_ in [(1, 1), (1, 11), (2, 3), (4, 5), (6, 9), (7, 7), (8, 10), (9, 11), (11, 11), (11, 2)]:
    for md, tg in ((LO, "laue_fz_ori."), (LM, "laue_fz_misori.")):
        add("misorientations", f"{tg}disori_angle_laue({L_},{M_})", bind(md.disori_angle_laue, L_, M_), "any", "qu2")
    # several equivalents have the same smallest angle: compare that
    add("misorientations", f"disorientation({L_},{M_})", bind(LO.disorientation, L_, M_), "any", "qu2", post=real)
    add("misorientations", f"disorientation_naive({L_},{M_})", bind(LM.disorientation_naive, L_, M_), "any", "qu2", post=real)
    add("misorientations", f"misori_to_fz_laue({L_},{M_})", bind(LM.misori_to_fz_laue, L_, M_), "any", post=real)
add("orientations", "cube_to_rfz", bind(LO.cube_to_rfz, 11), "cube")
add("orientations", "rfz_to_cube", bind(LO.rfz_to_cube, 11), "cube")
add("sphere", "rosca_lambert", SP.rosca_lambert, "dirz")
add("sphere", "inv_rosca_lambert", SP.inv_rosca_lambert, "sq")
add("sphere", "rosca_lambert_side_by_side", SP.rosca_lambert_side_by_side, "dir")
add("sphere", "xyz_to_theta_phi", SP.xyz_to_theta_phi, "dirz")
add("sphere", "theta_phi_to_xyz", lambda a: SP.theta_phi_to_xyz(a[..., 0], a[..., 1]), "sq")
add("sphere", "square_to_hemisphere", RL.square_to_hemisphere, "sq")
add("sphere", "square_to_hemisphere_v2", RL.square_to_hemisphere_v2, "sq")
add("sphere", "hexagon_to_hemisphere", RL.hexagon_to_hemisphere, "hex")
for n_ in ("skew", "w_exp", "w_exp_vmat", "w_to_v", "w_to_v_inv"):
    add("motions", n_, getattr(S, n_), "w")
for n_ in ("se3_exp_map_quat", "se3_exp_map_om", "se3_exp_map_split"):
    add("motions", n_, getattr(S, n_), "tw")
add("motions", "om_to_w", S.om_to_w, "om")
add("motions", "se3_log_map_split", S.se3_log_map_split, "om", "w")
add("motions", "se3_log_map_quat", S.se3_log_map_quat, "qu", "w")
add("motions", "se3_log_map_om", lambda r, t: S.se3_log_map_om(mat4(r, t)), "om", "w")


def mat4(r, t):
    top = torch.cat([r, t[..., None]], -1)
    last = torch.zeros(r.shape[:-2] + (1, 4), dtype=r.dtype)
    last[..., 3] = 1
    return torch.cat([top, last], -2)


# ---- layouts: (tensor with the same values, everything its storage holds) ------------------------------
def contiguous(x, t):
    return x.clone(), None


def column_major(x, t):
    d = tuple(range(x.dim()))[::-1]
    return x.permute(d).contiguous().permute(d), None


def every_other_row(x, t):
    s = torch.stack([x, x * 0 + 7.5], 1)
    return s[:, 0], s


def inside_wider(x, t):
    s = torch.full(x.shape[:-1] + (x.shape[-1] + 3,), -3.25, dtype=x.dtype)
    s[..., 2:-1] = x
    return s[..., 2:-1], s


def every_other_column(x, t):
    s = torch.full(x.shape[:-1] + (2 * x.shape[-1],), 9.75, dtype=x.dtype)
    s[..., ::2] = x
    return s[..., ::2], s


def later_in_storage(x, t):
    s = torch.cat([torch.full_like(x[:3], 4.5), x])
    return s[3:], s


def wants_gradient(x, t):
    return x.clone().requires_grad_(True), None


LAYOUTS = [contiguous, column_major, every_other_row, inside_wider, every_other_column, later_in_storage, wants_gradient]
SHAPES = [(), (1,), (0,), (N,), (1, N), (N, 1), (3, 4), (2, 1, 6), (2, 3, 2), (2, 0), (0, 3)]
if THOROUGH:
    SHAPES += [(1, 1), (1, 1, 1, N), (2, 2, 3, 1), (4, 3), (6, 2), (3, 2, 2), (0, 0), (1, 0, 2), (5,), (7,), (2, 4), (3, 3)]
ck = Check("C34", bounds=f"{sum(len(v) for v in FAM.values())} functions x 2 dtypes x (all combinations of {len(LAYOUTS)} layouts of their arguments; {len(SHAPES)} batch shapes; all rows alone, all rotations and "
           f"the reversal of the order, every row next to NaN, zero or huge rows; all words of length {4 if THOROUGH else 3} over 6 kinds of earlier calls)")


def flat(r, post):
    r = r if isinstance(r, (tuple, list)) else (r,)
    r = [x.detach() for x in r]
    return [post(x) for x in r] if post else r


def same(a, b, tol):
    """per row agreement of lists of results; a NaN agrees with a NaN"""
    ok = None
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return None
        x, y = x.double(), y.double()
        o = ((x - y).abs() <= tol * (1 + y.abs())) | (x.isnan() & y.isnan()) | (x == y)
        o = o.reshape(o.shape[0], math.prod(o.shape[1:])).all(-1) if o.dim() else o.reshape(1)
        ok = o if ok is None else ok & o
    return ok


class F:
    """a function with base arguments in one dtype and its results on them"""

    def __init__(self, cx, entry, dt):
        self.cx = cx
        self.name, self.fn, self.kinds, self.post, t64, t32 = entry
        self.tol = t64 if dt == F64 else t32
        self.dt = dt
        self.args = [DATA[k].to(dt) for k in self.kinds]
        self.case = dict(function=self.name, dtype=str(dt).split(".")[-1])
        self.base = self.run("plain", [a.clone() for a in self.args])

    def run(self, key, args, **case):
        r = self.cx.call(self.fn, *args, _key=f"{self.name}/{key}", _case={**self.case, **case})
        return None if r is None else flat(r, self.post)

    def judge(self, key, what, got, want, **case):
        if got is None or want is None:
            return
        if len(got) != len(want):
            self.cx.fail(f"{self.name}/{key}", f"{what}: {len(got)} results instead of {len(want)}", **self.case, **case)
            return
        ok = same(got, want, self.tol)
        if ok is None:
            self.cx.expect(False, f"{self.name}/{key}", f"{what}: results are {[(tuple(g.shape), str(g.dtype)) for g in got]} instead of {[(tuple(w.shape), str(w.dtype)) for w in want]}", **self.case, **case)
        elif len(ok) == 0:
            self.cx.trans()
        else:
            self.cx.expect_all(ok, f"{self.name}/{key}", what, describe=lambda i: dict(got=[g[i] if g.dim() else g for g in got], want=[w[i] if w.dim() else w for w in want]), **self.case, **case)


def layouts(cx, f):
    for combo in itertools.product(LAYOUTS, repeat=len(f.args)):
        if len(combo) == 3 and not THOROUGH and len(set(combo)) == 3:
            continue
        cx.state("layout", f.name, f.dt, [c.__name__ for c in combo])
        made = [c(a, tail(k)) for c, a, k in zip(combo, f.args, f.kinds)]
        args = [m[0] for m in made]
        store = [None if m[1] is None else m[1].clone() for m in made]
        names = [c.__name__ for c in combo]
        got = f.run("layout", args, layouts=names)
        f.judge("layout", "the result depends on the memory layout of the inputs", got, f.base, layouts=names)
        for i, (m, s, a) in enumerate(zip(made, store, f.args)):
            ok = torch.equal(m[0].detach(), a) and (s is None or torch.equal(m[1], s))
            cx.expect(ok, f"{f.name}/input", f"argument {i} was modified", **f.case, layouts=names)
    # an expanded row: one row of memory for the whole batch
    for i in (0, 3, N - 1):
        args = [a[i : i + 1].expand_as(a) for a in f.args]
        keep = [a[i].clone() for a in f.args]
        cx.state("layout", f.name, f.dt, "expanded", i)
        got = f.run("layout", args, layouts="expanded")
        if f.base is not None:
            f.judge("layout", "the result depends on the memory layout of the inputs", got, [b[i : i + 1].expand_as(b) for b in f.base], layouts="expanded", row=i)
        cx.expect(all(torch.equal(a[0], k) for a, k in zip(args, keep)), f"{f.name}/input", "an argument was modified", **f.case, layouts="expanded")
    # results do not share memory with each other's inputs in a way that a later change of the input changes them
    with torch.inference_mode():
        cx.state("layout", f.name, f.dt, "inference")
        got = f.run("layout", [a.clone() for a in f.args], layouts="inference mode")
        f.judge("layout", "the result depends on inference mode", got, f.base, layouts="inference mode")


def shapes(cx, f):
    if f.base is None:
        return
    for sh in SHAPES:
        n = math.prod(sh)
        cx.state("shape", f.name, f.dt, sh)
        args = [a[:n].reshape(sh + a.shape[1:]) for a in f.args]
        got = f.run("shape", args, shape=sh)
        if got is None:
            continue
        want = [b[:n].reshape(sh + b.shape[1:]) for b in f.base]
        ok = len(got) == len(want) and all(g.shape == w.shape and g.dtype == w.dtype for g, w in zip(got, want))
        cx.expect(ok, f"{f.name}/shape", f"results are shaped {[tuple(g.shape) for g in got]} for data shaped {sh}, not {[tuple(w.shape) for w in want]}", **f.case, shape=sh)
        if ok and n:
            f.judge("shape", "the result depends on the shape of the batch", [g.reshape((n,) + b.shape[1:]) for g, b in zip(got, f.base)], [b[:n] for b in f.base], shape=sh)
        if len(sh) > 1 and n == N:
            # the same shape with the leading axes stored in the opposite order
            d = len(sh)
            p = list(range(d))[::-1]
            args = [a.reshape(sh + a.shape[1:]).permute(p + list(range(d, a.dim() + d - 1))).contiguous().permute(p + list(range(d, a.dim() + d - 1))) for a in f.args]
            got = f.run("shape", args, shape=sh, stored="reversed")
            if got is not None and ok:
                f.judge("shape", "the result depends on the storage order of the batch", [g.reshape(b.shape) for g, b in zip(got, f.base)], f.base, shape=sh)


HARD = [math.nan, 0.0, math.inf, 1e30]


def company(cx, f):
    if f.base is None:
        return
    for i in range(N):
        cx.state("alone", f.name, f.dt, i)
        got = f.run("alone", [a[i : i + 1].clone() for a in f.args], row=i)
        f.judge("alone", "a row alone differs from the row in a batch", got, [b[i : i + 1] for b in f.base], row=i)
    orders = [torch.arange(N).roll(k) for k in range(1, N)] + [torch.arange(N).flip(0), torch.arange(N).repeat(3), torch.arange(N).repeat_interleave(2)]
    for k, p in enumerate(orders):
        cx.state("order", f.name, f.dt, k)
        got = f.run("order", [a[p] for a in f.args], order=p.tolist())
        f.judge("order", "the order of the rows matters", got, [b[p] for b in f.base], order=p.tolist())
    big = torch.arange(N).repeat(400 // N if not THOROUGH else 6000 // N)
    cx.state("order", f.name, f.dt, "many")
    f.judge("order", "the number of rows matters", f.run("order", [a[big] for a in f.args], order="many"), [b[big] for b in f.base], order="many")
    for bad in HARD:
        for rows in ([0], [5], [N - 1], [0, 1, 2, 6, 7], list(range(0, N, 2)), list(range(1, N))):
            if len(rows) > 1 and bad == 1e30 and not THOROUGH:
                continue
            cx.state("company", f.name, f.dt, bad, rows)
            args = [a.clone() for a in f.args]
            for a in args:
                a[rows] = bad
            got = f.run("company", args, rows=rows, value=bad)
            if got is None:
                continue
            keep = [i for i in range(N) if i not in rows]
            f.judge("company", "a row changes when another one is invalid", [g[keep] for g in got], [b[keep] for b in f.base], rows=rows, value=bad)


def de_bruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


WORD = 4 if THOROUGH else 3
HIST = de_bruijn(6, WORD)


def histories(cx, f32, f64):
    """one process: every word of earlier calls (small, map shaped, empty, other number type, recording gradients) appears in front of every kind of call"""
    if f32.base is None or f64.base is None:
        return
    last = []
    for step in HIST:
        f = f32 if step in (0, 1, 2) else f64
        rq = False
        if step == 0:
            sh = (N,)
        elif step == 1:
            sh = (3, 4)
        elif step == 2:
            sh = (0,)
        elif step == 3:
            sh = (N,)
        elif step == 4:
            sh = ()
        else:
            sh, rq = (2, 6), True
        last = (last + [step])[-WORD:]
        cx.state("history", f.name, tuple(last))
        n = math.prod(sh)
        args = [a[:n].reshape(sh + a.shape[1:]).clone().requires_grad_(rq) for a in f.args]
        got = f.run("history", args, history=list(last))
        if got is None:
            return
        if n:
            f.judge("history", "the result depends on earlier calls", [g.reshape((n,) + b.shape[1:]) if g.numel() == b[:n].numel() else g for g, b in zip(got, f.base)], [b[:n] for b in f.base], history=list(last))


for fam_ in FAM:
    @ck.group(f"{fam_}", timeout=900)
    def family(cx, fam=fam_):
        for entry in FAM[fam]:
            fs = {}
            for dt in (F64, F32):
                f = fs[dt] = F(cx, entry, dt)
                if f.base is None:
                    continue
                cx.expect(all(b.shape[0] == N for b in f.base), f"{f.name}/rows", "one result per row", **f.case)
                cx.expect(all(b.dtype == dt or not b.is_floating_point() for b in f.base), f"{f.name}/dtype", "results have the number type of the inputs", **f.case)
                layouts(cx, f)
                shapes(cx, f)
                company(cx, f)
            histories(cx, fs[F32], fs[F64])
            f = fs[F64]
            cx.sample(function=f.name, base=[b[:1] for b in f.base] if f.base else None)


if __name__ == "__main__":
    ck.main()
