"""C14  Integer factorisation and near square reshaping."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, math, random
from mc.core import Check, THOROUGH
import ebsdtorch.utils.factorize as Z

SMALL = 20000 if THOROUGH else 6000
WIN = 1500 if THOROUGH else 300
ck = Check("C14", bounds=f"every n in 1..{SMALL}, windows of {WIN} around 2^16, 10^6, 2^20, 2^24, 2^31 and 10^9, all products of two and three primes from a set straddling the "
           "method switch, prime powers, Carmichael numbers; several answers of the random source each")


def factor(n):
    out, d = [], 2
    while d * d <= n:
        while n % d == 0:
            out.append(d)
            n //= d
        d += 1 + (d > 2)
    return out + ([n] if n > 1 else [])


def judge(cx, n, seeds=(0,), want=None):
    want = want or factor(n)
    for s in seeds:
        random.seed(s)
        cx.state(n, s)
        f = cx.call(Z.FactorECM, n, _key="factor", _case=n)
        if f is not None:
            cx.expect(list(f) == want, "factors", f"factors of {n}", n=n, seed=s, got=f, want=want)
        random.seed(s)
        ab = cx.call(Z.nearly_square_factors, n, _key="square", _case=n)
        if ab is not None:
            a, b = ab
            cx.expect(a * b == n and a > 0 and b > 0, "product", f"{a} * {b} is not {n}", n=n)
            r = max(a, b) / min(a, b)
            cx.expect(r <= max(want or [1]) + 1e-9, "balance", f"{a} x {b}: sides differ by more than the largest prime factor of {n}", n=n)


@ck.group("small", timeout=300)
def small(cx):
    for n in range(1, SMALL + 1):
        judge(cx, n)
    cx.sample(n=5040, factors=Z.FactorECM(5040), sides=Z.nearly_square_factors(5040))


def win(c):
    @ck.group(f"around{c}", timeout=400)
    def g(cx):
        for n in range(c - WIN // 2, c + WIN // 2):
            judge(cx, n, (1, 2))
        cx.sample(n=c, factors=Z.FactorECM(c))


for c in (2**16, 10**6, 2**20, 2**24, 2**31, 10**9):
    win(c)


@ck.group("products", timeout=400)
def products(cx):
    P = [2, 3, 5, 7, 11, 13, 31, 251, 257, 509, 65521, 65537, 65539, 1000003]
    for a, b in itertools.combinations_with_replacement(P, 2):
        judge(cx, a * b, (1, 2, 3), sorted([a, b]))
    for t in itertools.combinations_with_replacement(P[:11], 3):
        judge(cx, math.prod(t), (1,), sorted(t))
    for p in (2, 3, 5, 7, 11, 251, 257):
        for e in range(2, 30):
            if p**e < 10**12:
                judge(cx, p**e, (1, 2), [p] * e)
    cx.sample(n=65537 * 65539, factors=Z.FactorECM(65537 * 65539))


@ck.group("carmichael", timeout=400)
def carmichael(cx):
    """composite numbers that satisfy Fermat's congruence for every base"""
    N = 4 * 10**6 if THOROUGH else 10**6
    got = []
    for n in range(3, N, 2):
        # Korselt: cheap necessary filter first
        if pow(2, n - 1, n) == 1:
            f = factor(n)
            if len(f) > 1 and len(set(f)) == len(f) and all((n - 1) % (p - 1) == 0 for p in f):
                got.append(n)
    # 6k+1, 12k+1, 18k+1 family: no small factor gives them away
    for k in range(1, 1200):
        t = [6 * k + 1, 12 * k + 1, 18 * k + 1]
        if all(len(factor(p)) == 1 for p in t):
            got.append(math.prod(t))
    got = sorted(set(got))
    for n in got:
        judge(cx, n, (1, 2, 3))
    cx.sample(n=got[-1], factors=Z.FactorECM(got[-1]))


def strong(n, bases):
    """n passes the strong primality test to these bases"""
    d, r = n - 1, 0
    while d % 2 == 0:
        d, r = d // 2, r + 1
    for b in bases:
        x = pow(b, d, n)
        if x != 1 and all(pow(x, 2**k, n) != n - 1 for k in range(r)):
            return False
    return True


@ck.group("pseudoprimes", timeout=400)
def pseudoprimes(cx):
    """products of two large primes p, q = k (p - 1) + 1 which pass the strong test to several bases"""
    top = 6 * 10**5 if THOROUGH else 2 * 10**5
    sieve = bytearray([1]) * (top * 6 + 8)
    sieve[:2] = b"\0\0"
    for d in range(2, int(len(sieve) ** 0.5) + 1):
        if sieve[d]:
            sieve[d * d :: d] = bytes(len(range(d * d, len(sieve), d)))
    got = []
    for lo, hi, bases in ((257, top // 10, (2,)), (257, top // 4, (2, 3)), (257, top, (2, 3, 5)), (257, top, (2, 3, 5, 7))):
        new = []
        for p in range(lo, hi):
            if not sieve[p]:
                continue
            for k in (2, 3, 4, 5, 6):
                q = k * (p - 1) + 1
                if sieve[q] and strong(p * q, bases):
                    new.append((p * q, p, q))
        got += new[:: max(1, len(new) // 60)]
    for n in (3215031751, 2152302898747, 3474749660383, 341550071728321):
        got.append((n, *factor(n)))
    # both factors of these are too large for a table
    got += [(3825123056546413051, 149491, 747451, 34233211), (149491 * 747451, 149491, 747451)]
    for n, *f in sorted(set(got)):
        judge(cx, n, (1,), f)
    cx.sample(numbers=len(got), largest=got[-3])


if __name__ == "__main__":
    ck.main()
