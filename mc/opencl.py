"""A stand-in for pyopencl that runs OpenCL kernels on the CPU: the kernel source of the code under
test is compiled by clang as OpenCL C for this machine, the built-in functions come from a small
shim, and the work items run one after another.  Random seeds can be chosen by the explorer."""
import ctypes
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import types
import numpy as np

SHIM = r"""
typedef float float2 __attribute__((ext_vector_type(2)));
typedef float float3 __attribute__((ext_vector_type(3)));
typedef float float4 __attribute__((ext_vector_type(4)));
extern "C" { long mc_id[3], mc_size[3]; }
unsigned long get_global_id(unsigned d) { return mc_id[d]; }
unsigned long get_global_size(unsigned d) { return mc_size[d]; }
unsigned long get_group_id(unsigned d) { return mc_id[d]; }
unsigned long get_num_groups(unsigned d) { return mc_size[d]; }
unsigned long get_local_id(unsigned) { return 0; }
unsigned long get_local_size(unsigned) { return 1; }
unsigned long get_global_offset(unsigned) { return 0; }
void barrier(unsigned) {}
#define F1(n) float n(float x) { return __builtin_##n##f(x); } float native_##n(float x) { return __builtin_##n##f(x); } float half_##n(float x) { return __builtin_##n##f(x); } double n(double x) { return __builtin_##n(x); }
F1(cos) F1(sin) F1(tan) F1(exp) F1(exp2) F1(exp10) F1(log) F1(log2) F1(log10) F1(sqrt)
#define G1(n) float n(float x) { return __builtin_##n##f(x); } double n(double x) { return __builtin_##n(x); }
G1(acos) G1(asin) G1(atan) G1(fabs) G1(floor) G1(ceil) G1(trunc) G1(round) G1(rint) G1(expm1) G1(log1p) G1(cbrt) G1(cosh) G1(sinh) G1(tanh)
#define F2(n) float n(float x, float y) { return __builtin_##n##f(x, y); } double n(double x, double y) { return __builtin_##n(x, y); }
F2(pow) F2(fmax) F2(fmin) F2(atan2) F2(hypot) F2(fmod) F2(copysign) F2(fdim)
float powr(float x, float y) { return __builtin_powf(x, y); }
float native_powr(float x, float y) { return __builtin_powf(x, y); }
float pown(float x, int y) { return __builtin_powif(x, y); }
float rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }
float native_rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }
float native_recip(float x) { return 1.0f / x; }
float native_divide(float x, float y) { return x / y; }
float mad(float a, float b, float c) { return a * b + c; }
float fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
float mix(float a, float b, float c) { return a + (b - a) * c; }
float sign(float x) { return x > 0 ? 1.0f : x < 0 ? -1.0f : 0.0f; }
float max(float a, float b) { return a > b ? a : b; }
float min(float a, float b) { return a < b ? a : b; }
int max(int a, int b) { return a > b ? a : b; }
int min(int a, int b) { return a < b ? a : b; }
int abs(int a) { return a < 0 ? -a : a; }
float clamp(float x, float a, float b) { return x < a ? a : x > b ? b : x; }
int clamp(int x, int a, int b) { return x < a ? a : x > b ? b : x; }
float radians(float x) { return x * 0.017453292519943295f; }
float degrees(float x) { return x * 57.29577951308232f; }
float acospi(float x) { return __builtin_acosf(x) * 0.3183098861837907f; }
float cospi(float x) { return __builtin_cosf(x * 3.141592653589793f); }
float sinpi(float x) { return __builtin_sinf(x * 3.141592653589793f); }
int isnan(float x) { return x != x; }
int isinf(float x) { return __builtin_isinf(x); }
int isfinite(float x) { return __builtin_isfinite(x); }
float select(float a, float b, unsigned c) { return c ? b : a; }
float select(float a, float b, int c) { return c ? b : a; }
unsigned rotate(unsigned x, unsigned n) { n &= 31; return n ? (x << n) | (x >> (32 - n)) : x; }
float sincos_p(float x, float *c) asm("_Z6sincosfPf");
float sincos_p(float x, float *c) { *c = __builtin_cosf(x); return __builtin_sinf(x); }
float sincos_q(float x, float *c) asm("_Z6sincosfPU9CLprivatef");
float sincos_q(float x, float *c) { *c = __builtin_cosf(x); return __builtin_sinf(x); }
float dot(float2 a, float2 b) { return a.x * b.x + a.y * b.y; }
float dot(float3 a, float3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
float dot(float4 a, float4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
float length(float2 a) { return __builtin_sqrtf(dot(a, a)); }
float length(float3 a) { return __builtin_sqrtf(dot(a, a)); }
float length(float4 a) { return __builtin_sqrtf(dot(a, a)); }
float fast_length(float3 a) { return length(a); }
float fast_length(float4 a) { return length(a); }
float2 normalize(float2 a) { return a / length(a); }
float3 normalize(float3 a) { return a / length(a); }
float4 normalize(float4 a) { return a / length(a); }
float3 fast_normalize(float3 a) { return a / length(a); }
float4 fast_normalize(float4 a) { return a / length(a); }
float3 cross(float3 a, float3 b) { float3 r = {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; return r; }
unsigned inc_u(volatile unsigned *p) asm("_Z10atomic_incPU8CLglobalVj");
unsigned inc_u(volatile unsigned *p) { unsigned o = *p; *p = o + 1; return o; }
int inc_i(volatile int *p) asm("_Z10atomic_incPU8CLglobalVi");
int inc_i(volatile int *p) { int o = *p; *p = o + 1; return o; }
unsigned inc_o(volatile unsigned *p) asm("_Z8atom_incPU8CLglobalVj");
unsigned inc_o(volatile unsigned *p) { unsigned o = *p; *p = o + 1; return o; }
unsigned add_u(volatile unsigned *p, unsigned v) asm("_Z10atomic_addPU8CLglobalVjj");
unsigned add_u(volatile unsigned *p, unsigned v) { unsigned o = *p; *p = o + v; return o; }
int add_i(volatile int *p, int v) asm("_Z10atomic_addPU8CLglobalVii");
int add_i(volatile int *p, int v) { int o = *p; *p = o + v; return o; }
"""


class CannotRun(Exception):
    """the stand-in lacks something that the kernel uses"""


_libs = {}


def compile_kernels(src):
    key = hashlib.sha1(src.encode()).hexdigest()
    if key in _libs:
        return _libs[key]
    d = tempfile.mkdtemp(prefix="mcocl.")
    try:
        for n, t in (("k.cl", src), ("s.cpp", SHIM)):
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        common = ["-target", "x86_64-unknown-linux-gnu", "-fPIC", "-O1", "-ffp-contract=off", "-w"]
        r = subprocess.run(["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", *common, "-c", "k.cl", "-o", "k.o"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("the kernel does not compile: " + r.stderr[:2000])
        r = subprocess.run(["clang++", *common, "-fno-builtin", "-c", "s.cpp", "-o", "s.o"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise CannotRun(r.stderr[:2000])
        r = subprocess.run(["clang++", "-shared", "-Wl,-z,defs", "k.o", "s.o", "-o", "k.so", "-lm"], cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise CannotRun(r.stderr[:2000])
        lib = ctypes.CDLL(os.path.join(d, "k.so"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _libs[key] = lib
    return lib


class Array:
    def __init__(self, a):
        self.a = np.ascontiguousarray(a)
        self.shape, self.dtype, self.size, self.nbytes = self.a.shape, self.a.dtype, self.a.size, self.a.nbytes

    @property
    def data(self):
        return self

    def get(self, *a, **k):
        out = self.a.copy()
        STATE.gets.append(out)
        return out

    def fill(self, v, *a, **k):
        self.a[...] = v
        return self

    def set(self, v, *a, **k):
        self.a[...] = v


class State:
    """what the explorer controls and observes"""

    def __init__(self):
        self.seeds = None  # function(shape) -> seeds, or None
        self.gets, self.given, self.launches = [], [], []


STATE = State()


def c_arg(x):
    if isinstance(x, Array):
        return x.a.ctypes.data_as(ctypes.c_void_p)
    if isinstance(x, np.generic):
        return {"f4": ctypes.c_float, "f8": ctypes.c_double, "i4": ctypes.c_int, "u4": ctypes.c_uint, "i8": ctypes.c_long, "u8": ctypes.c_ulong}[x.dtype.str[1:]](x.item())
    raise TypeError(f"kernel argument of type {type(x)}")


class Kernel:
    def __init__(self, program, name):
        self.fn = getattr(program.lib, name)
        self.fn.restype = None
        self.lib = program.lib
        self.args = ()

    def set_args(self, *args):
        self.args = args

    def __call__(self, queue, global_size, local_size, *args, **kw):
        args = args or self.args
        cargs = [c_arg(a) for a in args]
        ids = (ctypes.c_long * 3).in_dll(self.lib, "mc_id")
        size = (ctypes.c_long * 3).in_dll(self.lib, "mc_size")
        n = tuple(int(v) for v in global_size) + (1, 1)
        size[0], size[1], size[2] = n[:3]
        STATE.launches.append(n[:3])
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    ids[0], ids[1], ids[2] = i, j, k
                    self.fn(*cargs)
        return types.SimpleNamespace(wait=lambda: None)


class Program:
    def __init__(self, ctx, src):
        self.src = src

    def build(self, *a, **k):
        self.lib = compile_kernels(self.src)
        return self

    def __getattr__(self, name):
        if name.startswith("_") or name == "lib":
            raise AttributeError(name)
        return Kernel(self, name)


def to_device(queue, a, *args, **kw):
    a = np.asarray(a)
    if STATE.seeds is not None and a.dtype == np.uint32 and a.ndim == 2 and a.shape[1] == 4:
        a = np.asarray(STATE.seeds(len(a)), np.uint32).reshape(a.shape)
        STATE.given.append(a.copy())
    return Array(a.copy())


def install():
    m, a = types.ModuleType("pyopencl"), types.ModuleType("pyopencl.array")
    a.Array = Array
    a.zeros = lambda q, shape, dtype=np.float64, **k: Array(np.zeros(shape, dtype))
    a.empty = lambda q, shape, dtype=np.float64, **k: Array(np.zeros(shape, dtype))
    a.to_device = to_device
    m.array, m.Program, m.Kernel = a, Program, Kernel
    m.create_some_context = lambda *x, **k: types.SimpleNamespace(devices=[])
    m.CommandQueue = lambda *x, **k: types.SimpleNamespace(finish=lambda: None, flush=lambda: None)
    m.enqueue_nd_range_kernel = lambda q, k, g, l, **kw: k(q, g, l)
    sys.modules["pyopencl"], sys.modules["pyopencl.array"] = m, a


# ---- the random numbers of the kernel: LFSR113 is linear over GF(2), so seeds can be solved for ----

def lfsr(z):
    """one step of LFSR113 on (..., 4) uint32"""
    z = np.asarray(z, np.uint64)
    m = np.uint64(0xFFFFFFFF)
    out = []
    for k, (a, b, c, d) in enumerate(((6, 13, 18, 4294967294), (2, 27, 2, 4294967288), (13, 21, 7, 4294967280), (3, 12, 13, 4294967168))):
        v = z[..., k]
        t = (((v << np.uint64(a)) & m) ^ v) >> np.uint64(b)
        out.append((((v & np.uint64(d)) << np.uint64(c)) & m) ^ t)
    return np.stack(out, -1)


def words(z):
    return z[..., 0] ^ z[..., 1] ^ z[..., 2] ^ z[..., 3]


class Seeds:
    """seeds that make the first n numbers start with given bits"""

    def __init__(self, n, bits):
        self.n, self.bits = n, bits
        basis = []
        for i in range(128):
            z = np.zeros(4, np.uint64)
            z[i // 32] = np.uint64(1) << np.uint64(i % 32)
            o = 0
            for j in range(n):
                z = lfsr(z)
                o |= (int(words(z)) >> (32 - bits)) << (j * bits)
            basis.append(o)
        # rows: (output combination, seed combination); reduce to unit outputs
        rows = [(b, 1 << i) for i, b in enumerate(basis)]
        piv = {}
        for o, s in rows:
            for p, (po, ps) in piv.items():
                if o >> p & 1:
                    o, s = o ^ po, s ^ ps
            if o:
                p = o.bit_length() - 1
                for q, (qo, qs) in list(piv.items()):
                    if qo >> p & 1:
                        piv[q] = (qo ^ o, qs ^ s)
                piv[p] = (o, s)
        if len(piv) < n * bits:
            raise ValueError("not all outputs can be chosen")
        self.unit = [piv[p][1] for p in range(n * bits)]

    def solve(self, u):
        """u: (n,) numbers in [0, 1]; returns 4 words"""
        o = 0
        for j, v in enumerate(u):
            o |= min(int(v * 2**self.bits), 2**self.bits - 1) << (j * self.bits)
        s = 0
        while o:
            p = o.bit_length() - 1
            s ^= self.unit[p]
            o ^= 1 << p
        return [(s >> (32 * k)) & 0xFFFFFFFF for k in range(4)]
