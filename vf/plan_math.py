"""C17 - C23: number theory, GF(p), the digits of pi."""
import math
from .base import *
from .plan_cipher import BASE


def strong(n, a):
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    y = pow(a, d, n)
    if y in (1, n - 1):
        return True
    for _ in range(s - 1):
        y = y * y % n
        if y == n - 1:
            return True
    return False


FIRST = [p for p in range(2, 230) if all(p % d for d in range(2, p))]


def prime(n):
    if n < 2:
        return False
    for p in FIRST[:25]:
        if n % p == 0:
            return n == p
    return n < 97 * 97 or all(strong(n, a) for a in FIRST[:25])


def next_prime(n, ok=lambda q: True):
    n += 1
    while not (ok(n) and prime(n)):
        n += 1
    return n


def primes_like(ctx, bits, n, residue, mod):
    r = []
    while len(r) < n:
        q = ctx.rnd.getrandbits(bits) | (1 << bits - 1)
        q += (residue - q) % mod
        if prime(q):
            r.append(q)
    return r


SMALL = [p for p in range(2, 6000) if prime(p)]
BIGP = [2 ** 61 - 1, 2 ** 89 - 1, 2 ** 107 - 1, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 256 - 2 ** 32 - 977, 2 ** 224 - 2 ** 96 + 1,
        2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1, 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1, 2 ** 521 - 1, 2 ** 414 - 17, 2 ** 222 - 117]
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217,
              162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 825265, 321197185,
              5394826801, 232250619601, 9746347772161, 1436697831295441, 60977817398996785, 7156857700403137441, 1791562810662585767521,
              87674969936234821377601]
# the smallest strong pseudoprimes to the first 1, 2, ... prime bases
PSI = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 318665857834031151167461,
       3317044064679887385961981]
SPSP2 = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 1194649, 12327121, 3090091,
         4335241, 1530787, 3697278427, 118670087467, 307768373641, 457453568161, 528929554561, 546348519181, 602248359169, 1362242655901]


def c17(ctx):
    r = ctx.rnd
    ops = []
    nums = lambda bits: r.getrandbits(r.choice(bits))
    # every argument for small moduli
    for m in list(range(2, ctx.n(30, 70))):
        for a in range(-m - 1, 2 * m + 2):
            ops.append(Op('num_inv', [0, a, m]))
            ops.append(Op('num_inv', [1, a, m]))
            if r.random() < .1:
                ops.append(Op('num_inv', [3, a, m]))
                if prime(m):
                    ops.append(Op('num_inv', [2, a, m]))
    for a in range(0, ctx.n(13, 40)):
        for b in range(0, ctx.n(13, 40)):
            ops.append(Op('num_egcd', [a, b]))
    for _ in range(ctx.n(60, 1000)):
        g = r.choice([1, 1, 2, 12, nums([8, 40]) + 1])
        ops.append(Op('num_egcd', [g * nums([4, 16, 64, 256, 600]), g * nums([4, 16, 64, 256, 600])]))
        p = r.choice(BIGP)
        a = r.choice([nums([8, 64, 200]), -nums([8, 64]), p - 1, 1, 2, (p + 1) // 2, p, 0])
        ops.append(Op('num_inv', [2, a, p]))
        ops.append(Op('num_inv', [3, a, p]))
    for _ in range(ctx.n(250, 4000)):
        m = r.choice([nums([4, 8, 16, 31, 32, 33, 63, 64, 65, 128, 256, 521]) + 2, r.choice(BIGP), 2 ** r.randrange(1, 300), 2 ** r.randrange(1, 65) - 1 + 2,
                      10 ** r.randrange(1, 40), math.factorial(r.randrange(3, 40))])
        a = r.choice([nums([8, 32, 64, 256, 600]), -nums([8, 64, 256]), m - 1, m + 1, m - 2, -1, 1, m, 0, 2 * m - 1, 2, m // 2, m // 2 + 1, m * r.randrange(1, 9) + 1])
        ops.append(Op('num_inv', [r.randrange(2), a, m], cost=1 + m.bit_length() / 200))
    fib = [1, 1]
    while len(fib) < 400:
        fib.append(fib[-1] + fib[-2])
    for k in (10, 47, 91, 92, 93, 94, 150, 399):
        for w in (0, 1):
            ops.append(Op('num_inv', [w, fib[k - 1], fib[k]]))
            ops.append(Op('num_inv', [w, fib[k - 2], fib[k]]))
        ops.append(Op('num_gcd', [0, fib[k], fib[k - 1]]))
        ops.append(Op('num_lcm', [1, fib[k], fib[k - 1]]))
    # gcd and lcm of one to many numbers, with common factors, in every form
    for g in range(1, ctx.n(16, 40)):
        for h in range(1, ctx.n(16, 40)):
            ops.append(Op(r.choice(['num_gcd', 'num_lcm']), [r.choice([0, 1, 1, 2]), g, h]))
    for _ in range(ctx.n(350, 5000)):
        k = r.choice([1, 2, 2, 3, 3, 4, 5, 8, 12])
        c = r.choice([1, 1, 2, 6, 12, 35, nums([8, 20, 70]) + 1])
        l = [c * (nums(r.choice([[3], [6], [10, 31, 32, 64], [128, 300]])) + 1) for _ in range(k)]
        if r.random() < .3:
            l[r.randrange(k)] = l[r.randrange(k)]
        if r.random() < .2:
            l[r.randrange(k)] = 1
        ops.append(Op('num_gcd', [r.choice([0, 1, 2]), *l], cost=1 + sum(x.bit_length() for x in l) / 200))
        ops.append(Op('num_lcm', [r.choice([0, 1, 2]), *l], cost=1 + sum(x.bit_length() for x in l) / 100))
    # gcd of numbers some or all of which are zero
    for _ in range(ctx.n(40, 300)):
        c = nums([1, 6, 40, 200]) + 1
        l = [r.choice([0, 0, c * nums([1, 4, 64])]) for _ in range(r.choice([1, 2, 2, 3, 5]))]
        ops.append(Op('num_gcd', [r.choice([0, 1, 2]), *l], cost=2))
    # powers
    for m in range(1, ctx.n(9, 20)):
        for b in range(-3, m + 3):
            for e in (0, 1, 2, 3, 5, 16, -1):
                ops.append(Op('num_pow', [b, e, m]))
    for _ in range(ctx.n(200, 3000)):
        m = r.choice([nums([4, 16, 31, 33, 64, 128, 256, 521]) + 1, r.choice(BIGP), 2 ** r.randrange(0, 130)])
        b = r.choice([nums([8, 32, 64, 256, 600]), -nums([8, 64, 256]), m - 1, m, 0, 1, -1, 2, m + 2])
        e = r.choice([nums([3, 8, 16, 32, 64, 128, 300]), m - 1, m - 2, m, 0, 1, 2, 2 ** r.randrange(1, 60)])
        ops.append(Op('num_pow', [b, e if m.bit_length() < 300 or r.random() < .2 else e % 2 ** 64, m], cost=1 + e.bit_length() / 60))
    for _ in range(ctx.n(25, 200)):
        ops.append(Op('num_pow', [nums([8, 64]), -1 - nums([1, 8, 64]), nums([8, 64]) + 2]))
    r.shuffle(ops)
    ops = crossed(ops, {'num_inv': [1], 'num_pow': [0, 1, 2], 'num_egcd': [0, 1]}, r, ctx.n(80, 1000))
    return batch(ops, 120, 'calls'), []


def c18(ctx):
    r = ctx.rnd
    ops = []
    odd = [p for p in SMALL if p > 2]
    for p in [p for p in odd if p < ctx.n(200, 500)]:
        ops.append(Op('num_sqrtAll', [p], cost=1 + p / 25))
        ops.append(Op('num_msqrtAll', [p], cost=1 + p / 25))
        lo = r.choice([-p, -p - 3, 0])
        ops.append(Op('num_legendreAll', [p, lo, p + 3], cost=1 + p / 25))
    # much of 2 in p - 1
    for p in [257, 193, 577, 769, 641, 1153, 12289, 40961, 65537] + [r.choice(odd[200:]) for _ in range(6)]:
        if p < 1300:
            ops.append(Op('num_sqrtAll', [p], cost=20))
            ops.append(Op('num_msqrtAll', [p], cost=20))
        for a in [0, 1, 2, 4, p - 1, p - 2, (p + 1) // 2] + [r.randrange(p) for _ in range(10)]:
            ops.append(Op('num_sqrt', [a, p]))
            ops.append(Op('num_msqrt', [a, p]))
            ops.append(Op('num_msqrt', [a + p * r.choice([1, -1, 2, -2, p, -p * p]), p]))
    # primes whose least non-residue is large, of every class modulo 8
    for p in [73, 241, 1009, 2689, 8089, 33049, 53881, 87481, 483289, 515761, 1083289, 3818929, 9257329, 22000801, 48473881] + \
             [7, 23, 71, 311, 479, 1559, 5711, 10559, 18191, 31391, 366791, 4080359, 12537719]:
        if prime(p):
            roots = [r.randrange(p) for _ in range(4)]
            for a in [x * x % p for x in roots] + [p - 1, 2, 3, r.randrange(p)]:
                ops.append(Op('num_sqrt', [a % p, p], cost=2))
                ops.append(Op('num_msqrt', [a % p, p], cost=2))
    big = BIGP + [3 * 2 ** 189 + 1, 5 * 2 ** 127 + 1, 15 * 2 ** 27 + 1, 7 * 2 ** 20 + 1, 29 * 2 ** 57 + 1, 180143985094819841, 2 ** 251 - 9, 10 * 2 ** 30 + 1]
    big = [p for p in big if prime(p)]
    for bits in ctx.n((20, 32, 33, 40, 64, 65, 100, 160, 256), (20, 30, 31, 32, 33, 40, 62, 63, 64, 65, 80, 100, 128, 160, 192, 256, 384, 521)):
        for res, mod in ((3, 8), (7, 8), (5, 8), (1, 8), (9, 16), (17, 32), (1, 64)):
            big += primes_like(ctx, bits, ctx.n(1, 4), res, mod)
    for p in big:
        c = 2 + p.bit_length() / 20
        roots = [r.randrange(p) for _ in range(ctx.n(2, 6))]
        av = [x * x % p for x in roots] + [r.randrange(p), p - 1, 2, 4, p - 4, r.choice([0, 1, 3, 5, 9])]
        for a in av:
            # a square root modulo a prime 1 mod 8 is taken with polynomials
            ops.append(Op('num_sqrt', [a % p, p], cost=c))
            ops.append(Op('num_msqrt', [a % p + p * r.choice([0, 0, 1, -1, 2, -3]), p], cost=c))
            k = r.choice([0, 1, -1, 3])
            ops.append(Op('num_jacobi', [a + k * p, p], cost=c))
            ops.append(Op('num_legendre', [a + k * p, p], cost=c))
    # Jacobi symbols: every odd modulus of some size, composite ones too
    for n in range(3, ctx.n(130, 400), 2):
        ops.append(Op('num_jacobiAll', [n, -n - 2, n + 3], cost=1 + n / 12))
    for _ in range(ctx.n(200, 3000)):
        n = r.getrandbits(r.choice([10, 16, 31, 32, 64, 65, 128, 256, 521])) | 1
        if n < 3:
            continue
        g = r.choice([1, 1, 3, 7, 15])
        a = g * r.choice([r.getrandbits(300), -r.getrandbits(300), r.getrandbits(12), 2 ** r.randrange(80), n - 1, n - 2, -1, -2, 0])
        ops.append(Op('num_jacobi', [a, n * g], cost=1 + n.bit_length() / 40))
    for _ in range(ctx.n(12, 80)):
        q1, q2 = r.choice(odd), r.choice(odd)
        ops.append(Op('num_jacobi', [r.getrandbits(40), q1 * q2]))
        ops.append(Op('num_jacobi', [q1 * r.getrandbits(20), q1 * q2]))
        ops.append(Op('num_jacobi', [r.getrandbits(40), q1 * q1]))
    for bits in ctx.n((1000, 2100), (1000, 1500, 2100, 4200)):
        ops.append(Op('num_jacobi', [r.getrandbits(bits), r.getrandbits(bits) | 1], cost=15))
    for n in (2, 1, 4, 0, -3, -1, 100, -5):
        ops.append(Op('num_jacobi', [r.randrange(1, 9), n]))
    r.shuffle(ops)
    ops = crossed(ops, {'num_jacobi': [0, 1], 'num_legendre': [0]}, r, ctx.n(80, 1000))
    return batch(ops, 20, 'calls', timeout=240), []


def c19(ctx):
    r = ctx.rnd
    ops = []
    for lo in range(0, ctx.n(1200, 6000), 60):
        ops.append(Op('num_factorAll', [max(lo, 1), lo + 60], cost=4 + lo / 300))
        ops.append(Op('num_phiAll', [max(lo, 1), lo + 60], cost=4 + lo / 300))
        ops.append(Op('num_carmAll', [max(lo, 1), lo + 60], cost=5 + lo / 300))
    mid = [p for p in SMALL if p > 1229]
    low = [p for p in SMALL if p <= 1229]

    def number(f):
        n = 1
        for p, e in f:
            n *= p ** e
        flat = [x for pe in f for x in pe]
        ops.append(Op('num_factor', [n], cost=1 + n.bit_length() / 30))
        ops.append(Op('num_phi', [n] + flat, cost=1 + n.bit_length() / 30))
        ops.append(Op('num_carm', [n] + flat, cost=1 + n.bit_length() / 30))
        ops.append(Op('num_carmF', flat))
    # around the end of the table of small primes, squares and cubes beyond it
    edge = [1217, 1223, 1229, 1231, 1237, 1249, 1259, 1277, 1279]
    for p in edge:
        for e in (1, 2, 3):
            number([(p, e)])
        for q in edge:
            if p < q:
                number([(p, 1), (q, 1)])
                if r.random() < .5:
                    number([(p, 2), (q, r.choice([1, 2]))])
    for p in low[:12] + [p for p in low if p > 1200]:
        for e in (1, 2, 3, 4, 5, 8, 13) if p < 12 else (1, 2, 3):
            number([(p, e)])
    for p in low if ctx.deep else r.sample(low, 60):
        number([(p, 2)])
        number([(p, 1), (r.choice(low), 2)] if p < 3 else [(2, r.randrange(1, 4)), (p, 1)])
    for e in range(1, 40):
        number([(2, e)])
        ops.append(Op('num_carmP', [2, e]))
        number([(2, e), (3, 1)])
    # large powers of small primes, alone and together
    for p, e in [(2, 63), (2, 64), (2, 200), (3, 33), (3, 34), (3, 40), (3, 100), (5, 23), (5, 27), (7, 25), (11, 40), (13, 17), (1223, 6), (1229, 7), (1229, 15)]:
        number([(p, e)])
        number([(p, e), (r.choice(low[200:]) if p < 1200 else 1231, r.choice([1, 2]))])
    for _ in range(ctx.n(12, 100)):
        number(sorted({r.choice(low[:20]): r.randrange(1, 40) for _ in range(r.randrange(2, 6))}.items()))
    for _ in range(ctx.n(150, 2500)):
        f = {}
        for _ in range(r.choice([1, 2, 2, 3, 4, 5])):
            f[r.choice(r.choice([low[:8], low, low, mid]))] = r.choice([1, 1, 1, 2, 2, 3, 4])
        if sum(e for p, e in f.items() if p > 1229) > 2:
            f = {p: 1 for p in f}
        number(sorted(f.items()))
    for _ in range(ctx.n(30, 300)):
        # a large prime factor beside small ones; two middling ones
        f = {r.choice(low): r.choice([1, 2, 3]) for _ in range(r.randrange(0, 3))}
        f[next_prime(r.getrandbits(r.choice([20, 31, 32, 40, 63, 64, 80])) + 1229)] = 1
        number(sorted(f.items()))
        f = {next_prime(r.randrange(1229, 20000)): r.choice([1, 1, 2]), next_prime(r.randrange(1229, 40000)): 1}
        number(sorted(f.items()))
        # a middling prime beside a large one: the search stops at the large one
        f = {r.choice(mid[:200]): r.choice([1, 2]), next_prime(r.randrange(10 ** 6, 10 ** 8)): 1}
        number(sorted(f.items()))
    for p, q, s in [(1231, 1237, 1249), (1231, 1231, 1237), (1301, 1361, 1453), (1237, 1249, 1249)]:
        f = {}
        for x in (p, q, s):
            f[x] = f.get(x, 0) + 1
        number(sorted(f.items()))
    for p in low[:10] + edge + BIGP[:2]:
        for e in (1, 2, 3, 4, 7):
            ops.append(Op('num_carmP', [p, e]))
    for _ in range(ctx.n(40, 300)):
        f = {r.choice(low + mid + BIGP[:4]): r.choice([1, 2, 3, 5]) for _ in range(r.randrange(1, 6))}
        flat = [x for pe in sorted(f.items()) for x in pe]
        ops.append(Op('num_carmF', flat, cost=2))
    ops.append(Op('num_carmF', []))
    for n in (1, 0, -1, -12):
        ops.append(Op('num_factor', [1]))
    # orders of elements
    for m in range(2, ctx.n(70, 140)):
        ops.append(Op('num_orderAll', [m], cost=1 + m * m / 200))
    for _ in range(ctx.n(60, 400)):
        m = r.choice([r.randrange(2, 3000), r.choice(SMALL[:400]), 2 ** r.randrange(1, 12)])
        x = r.choice([r.randrange(m), r.getrandbits(40), -r.getrandbits(10), 1, -1, m - 1, m + 1])
        ops.append(Op('num_order', [x, m], cost=1 + m / 40))
        ops.append(Op('num_korder', [r.choice([abs(x) + 1, r.randrange(1, 60)]), m], cost=1 + m / 40))
    # small orders modulo large numbers
    for _ in range(ctx.n(40, 300)):
        k = r.randrange(2, 60)
        b = r.choice([2, 3, 10, 7])
        m = r.choice([b ** k - 1, b ** k + 1])
        if m > 2:
            x = r.choice([b, b * b, m - 1, m - b, 1])
            order = next(j for j in range(1, 1000) if pow(x, j, m) == 1)
            ops.append(Op('num_order', [x, m, order], cost=3))
    for m in (1, 0):
        ops.append(Op('num_order', [3, m]))
    for x, m in ((2, 8), (6, 24), (12, 12), (10, 1000), (30, 900), (1, 12), (7, 49), (14, 343), (35, 1225), (2, 3)):
        ops.append(Op('num_korder', [x, m]))
    for a in range(1, ctx.n(60, 200)):
        ops.append(Op('num_lfrpAll', [a, ctx.n(60, 200)], cost=4))
    for _ in range(ctx.n(80, 1000)):
        c = math.prod(r.choice(low[:10]) ** r.randrange(1, 7) for _ in range(r.randrange(1, 4)))
        d = math.prod(r.choice(low[:10]) ** r.randrange(1, 7) for _ in range(r.randrange(1, 4)))
        ops.append(Op('num_lfrp', [c * r.choice([1, 101, BIGP[1]]), d * r.choice([1, 103, 101, BIGP[1]])], cost=2))
    r.shuffle(ops)
    ops = crossed(ops, {'num_lfrp': [0, 1], 'num_korder': [0]}, r, ctx.n(60, 600))
    return batch(ops, 25, 'calls', timeout=180), []


def pseudoprimes(ctx, bits, bases):
    """A composite of about this size that passes the strong test to the first
    `bases` primes (Arnault): p, 13(p-1)+1, 41(p-1)+1 with the primes as
    non-residues of all three."""
    r = ctx.rnd
    ks = r.choice([(13, 41), (13, 37), (41, 101), (17, 61)])

    def symbol(a, n):
        s = 1
        a %= n
        while a:
            while a % 2 == 0:
                a //= 2
                if n % 8 in (3, 5):
                    s = -s
            a, n = n, a
            if a % 4 == 3 and n % 4 == 3:
                s = -s
            a %= n
        return s if n == 1 else 0
    # residues of p modulo 4a for which all three symbols are -1
    M, x = 1, 0

    def crt(m, c):
        nonlocal M, x
        g = math.gcd(M, m)
        if (c - x) % g:
            return False
        t = (c - x) // g * pow(M // g, -1, m // g) % (m // g)
        M, x = M // g * m, x + M * t
        return True
    k2, k3 = ks
    # p - 1 | n - 1 always holds for p; for the others n = 1 modulo k2 and k3
    if not (crt(k2, -pow(k3, -1, k2) % k2) and crt(k3, -pow(k2, -1, k3) % k3)):
        return None
    for a in FIRST[:bases]:
        ok = []
        for c in range(3, 4 * a * 2, 4):
            if c % 4 != 3 or (a in (k2, k3) and c % a != x % a):
                continue
            if a == 2:
                q = [c % 8, (k2 * (c - 1) + 1) % 8, (k3 * (c - 1) + 1) % 8]
                good = all(v in (3, 5) for v in q)
                m = 8
            else:
                m = 4 * a
                q = [c, k2 * (c - 1) + 1, k3 * (c - 1) + 1]
                good = all(math.gcd(v, 2 * a) == 1 and symbol(a, v) == -1 for v in q)
            if good and c < m:
                ok.append((m, c))
        r.shuffle(ok)
        for m, c in ok:
            if crt(m, c):
                break
        else:
            return None
    want = bits // 3 - (k2 * k3).bit_length() // 3
    lo = max(0, 2 ** want // M)
    for _ in range(60000):
        p = x + M * (lo + r.randrange(max(4 * lo, 20000)))
        q = [p, k2 * (p - 1) + 1, k3 * (p - 1) + 1]
        if any(any(v % d == 0 and v != d for d in FIRST) for v in q):
            continue
        if all(prime(v) for v in q):
            n = q[0] * q[1] * q[2]
            if all(strong(n, a) for a in FIRST[:bases]):
                return n
    return None


# bits from which the test takes this many bases
ROUNDS = [(0, 40), (100, 27), (150, 18), (200, 15), (250, 12), (300, 9), (350, 8), (400, 7), (450, 6), (550, 5), (650, 4), (850, 3), (1300, 2)]


def rounds(n):
    return [t for b, t in ROUNDS if n.bit_length() >= b][-1]


def c20(ctx):
    r = ctx.rnd
    ops = []
    for lo in range(0, ctx.n(6000, 60000), 500):
        ops.append(Op('num_primeAll', [lo, lo + 500], cost=20))
    for lo in (2 ** 16, 2 ** 20, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 7, 10 ** 12):
        ops.append(Op('num_primeAll', [lo - 60, lo + 90], cost=10))
    one = lambda n, c=2: ops.append(Op('num_prime', [n], cost=c))
    for n in [0, 1, 2, 3, 4, -1, -2, -7, 1223, 1229, 1231, 1237, 1229 ** 2, 1231 ** 2, 1237 ** 2, 1229 * 1231, 1231 * 1237] + CARMICHAEL + PSI + SPSP2:
        one(n)
    # squares, cubes and products of primes around and above the table
    mid = [p for p in SMALL if 13 <= p]
    over = [p for p in SMALL if p > 1229]
    for p in over[:ctx.n(60, 600)]:
        one(p * p)
    ops.append(Op('num_primes', [p * p for p in mid if p > 35], cost=20))
    ops.append(Op('num_primes', [13 ** e for e in range(2, 30)] + [1231 ** e for e in range(1, 12)], cost=10))
    for _ in range(ctx.n(10, 200)):
        ops.append(Op('num_primes', [r.choice(mid) * r.choice(over) for _ in range(30)], cost=10))
        ops.append(Op('num_primes', [next_prime(r.getrandbits(r.choice([11, 12, 16, 20, 31, 32, 33, 40, 50]))) for _ in range(20)], cost=15))
        ops.append(Op('num_primes', [r.getrandbits(r.choice([12, 16, 20, 31, 32, 33, 40, 50])) | 1 for _ in range(30)], cost=15))
    # 3 k + 1 times 6 k + 1 ...: forms that give pseudoprimes
    for _ in range(ctx.n(6, 60)):
        while True:
            k = r.getrandbits(r.choice([6, 10, 14, 20]))
            m = r.choice([2, 3, 4, 5, 7])
            if prime(k + 1) and prime(m * k + 1) and k > 1229:
                break
        one((k + 1) * (m * k + 1))
    for b, t in ROUNDS:
        for bits in {max(b, 16) + d for d in ctx.n((2, 9, 30), (2, 5, 9, 17, 30, 47))}:
            ok = r.getrandbits(bits) | 1 << bits - 1
            one(next_prime(ok), 3 + bits * bits / 4000)
            p, q = next_prime(r.getrandbits(bits // 2)), next_prime(r.getrandbits(bits - bits // 2))
            if p > 1 and q > 1:
                ops.append(Op('num_composite', [p, q], cost=2))
                ops.append(Op('num_composite', [p, p], cost=2))
            one(ok | 1, 2 + bits / 300)
    for p in BIGP + [2 ** 607 - 1, 2 ** 1279 - 1, 10 ** 99 + 289]:
        one(p, 2 + p.bit_length() ** 2 / 4000)
    # composites that pass almost all of the bases the test uses
    made = []
    for (b, t), (e, _) in zip(ROUNDS, ROUNDS[1:] + [(1600, 0)]):
        for tries in range(ctx.n(3, 10)):
            for k in ([t - 1, t - 2, t - 3] if 3 <= t <= 15 else [2 if t == 2 else min(14, 5 + tries * 3)]):
                room = max(b, 60)
                n = pseudoprimes(ctx, room + r.randrange(5, max(6, e - room - 5)), k) if k >= 1 else None
                if n and not all(strong(n, a) for a in FIRST[:rounds(n)]) and not all(strong(n, a) for a in FIRST[:25]):
                    # not near a border between two numbers of bases
                    if all(abs(n.bit_length() - x) > 2 for x, _ in ROUNDS):
                        one(n, 2 + n.bit_length() / 200)
                        made.append(([strong(n, a) for a in FIRST[:25]] + [False]).index(False))
                        break
    ctx.extra['composites_by_bases_passed'] = {str(k): made.count(k) for k in sorted(set(made))}
    # next_prime
    for n in list(range(0, 60)) + [89, 113, 523, 887, 1129, 1217, 1223, 1227, 1228, 1229, 1230, 1231, 1327, 9551, 15683, 19609, 31397, 155921, 360653, 370261,
                                   2 ** 16, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 32, 2 ** 61 - 2, 2 ** 64]:
        ops.append(Op('num_next', [n], cost=2))
    for _ in range(ctx.n(60, 600)):
        n = r.choice([next_prime(r.getrandbits(r.choice([11, 16, 32, 60]))) - r.randrange(3), r.getrandbits(r.choice([16, 32, 64, 90])), r.choice(PSI + CARMICHAEL) - 1])
        ops.append(Op('num_next', [n], cost=6))
    ops.append(Op('num_next', [r.getrandbits(256)], cost=30))
    ops.append(Op('num_table', [5000], aux=['5k'], cost=30))
    ops.append(Op('num_table', [1230], aux=['small'], cost=10))
    # single bases
    for n in list(range(3, ctx.n(110, 300), 2)):
        ops.append(Op('num_rabinAll', [n], cost=1 + n / 12))
    for n in list(range(2, ctx.n(90, 250))):
        ops.append(Op('num_fermatAll', [n], cost=1 + n / 12))
    for n in (561, 1105, 2047, 341, 1387, 257, 641):
        ops.append(Op('num_rabinAll' if n in (561, 2047, 257, 641) else 'num_fermatAll', [n], cost=30))
    for _ in range(ctx.n(120, 2000)):
        n = r.choice([r.choice(PSI + SPSP2 + CARMICHAEL), next_prime(r.getrandbits(r.choice([16, 64, 128, 255]))), r.getrandbits(60) | 1,
                      next_prime(2 ** r.randrange(5, 60), lambda q: q % 16 == 1)])
        if n < 5:
            continue
        a = r.choice([2, 3, 5, 7, 11, 37, 41, 1, n - 1, n - 2, r.randrange(1, n)])
        if a >= n:
            continue
        ops.append(Op('num_rabin', [n, a], cost=2))
        ops.append(Op('num_fermat', [n, r.choice([a, a + n, -a, 0])], cost=2))
    for n in (7, 15, 101):
        for a in (0, n, -1, n + 3):
            ops.append(Op('num_rabin', [n, a]))
    # n - 1 with many factors two: -1 reached early, late or never
    for s in list(range(1, 24)) + [32, 47, 64, 100, 127, 200, 255]:
        for _ in range(ctx.n(2, 8)):
            k = r.getrandbits(r.choice([3, 8, 40, 64])) | 1
            p = next((j for j in range(k, k + 4000, 2) if prime((j << s) + 1)), k)
            n = (p << s) + 1 if r.random() < 0.7 else (k << s) + 1
            if n < 5:
                continue
            g = r.randrange(2, n - 1)
            # a of order dividing 2^(t+1) times the odd part, for a random t
            a = pow(g, 1 << r.randrange(0, s + 1), n)
            for a in {g, a, pow(g, (n - 1) >> s, n)}:
                if 1 <= a < n:
                    ops.append(Op('num_rabin', [n, a], cost=2))
            ops.append(Op('num_prime', [n], cost=3))
    r.shuffle(ops)
    ops = crossed(ops, {'num_rabin': [1], 'num_fermat': [1]}, r, ctx.n(40, 600))
    return batch(ops, 20, 'calls', timeout=180), []


def c21(ctx):
    r = ctx.rnd
    ops = []

    def put(op, p, mod, rest, cost=1):
        ops.append(Op(op, [p, len(mod)] + mod + rest, cost=cost))
    poly = lambda n, p, neg=False: [r.choice([r.randrange(p), r.randrange(p), 0, p - 1, 1]) if not neg else r.randrange(-2 * p, 3 * p) for _ in range(n)]
    primes = [2, 3, 5, 7, 11, 13, 101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19]
    # everything of small degree modulo 2 and 3
    for p in (2, 3):
        for d in (1, 2):
            for code in range(p ** d):
                mod = [code // p ** i % p for i in range(d)] + [1]
                for n in (1, 2, 3):
                    for c2 in range(p ** n):
                        f = [c2 // p ** i % p for i in range(n)]
                        put('num_polyRed', p, mod, f)
                        if r.random() < .2 or ctx.deep:
                            put('num_polyMul', p, mod, [n] + f + poly(r.randrange(1, 3), p))
                for e in range(p):
                    for c2 in range(p ** d):
                        put('num_polyExp', p, mod, [e] + [c2 // p ** i % p for i in range(d)])
    for _ in range(ctx.n(500, 8000)):
        p = r.choice(primes + [4, 6, 9, 15, 100])
        d = r.choice([1, 1, 2, 2, 3, 4, 5, 8])
        loose = r.random() < .2        # coefficients outside [0, p)
        mod = poly(d, p, loose and r.random() < .7) + [1]
        k = r.random()
        if k < .35:
            put('num_polyRed', p, mod, poly(r.choice([1, d - 1 or 1, d, d + 1, d + 2, 2 * d, 2 * d + 3, 12]), p, loose))
        elif k < .65:
            n1, n2 = r.choice([1, 2, d, d + 1, 6]), r.choice([1, 2, d, d + 2, 6])
            put('num_polyMul', p, mod, [n1] + poly(n1, p, loose) + poly(n2, p, loose), 2)
            if r.random() < .4:        # one list as both factors
                f = poly(n1, p)
                ops.append(Op('num_polyMul', [p, len(mod)] + mod + [n1] + f + f, aux=['same'], cost=2))
        else:
            e = r.choice([0, 1, 2, 3, p - 1, p // 2, (p + 1) // 2, r.randrange(p), 2 ** r.randrange(1, max(2, p.bit_length() - 1)) % p])
            if d > 3:
                e %= 2 ** 12
            if e < p:
                put('num_polyExp', p, mod, [e] + poly(r.choice([1, d, d]) if d > 1 else 1, p, loose), 2 + e.bit_length() * d * d / 40)
    # leading zeros and zero polynomials; long arguments; modulus with zero coefficients
    for p in (2, 7, 65537, 2 ** 61 - 1):
        for d in (1, 2, 3, 6):
            mod = [0] * d + [1]
            mod2 = [p - 1] + [0] * (d - 1) + [1]
            for m in (mod, mod2, poly(d, p) + [1]):
                put('num_polyRed', p, m, [0] * (d + 4))
                put('num_polyRed', p, m, poly(d + 2, p) + [0, 0, 0])
                put('num_polyRed', p, m, [0] * (d + 3) + [1])
                put('num_polyRed', p, m, [0] * d + [1])
                put('num_polyRed', p, m, poly(40, p), 6)
                put('num_polyMul', p, m, [1, 0] + poly(d + 1, p))
                put('num_polyMul', p, m, [d] + poly(d, p) + [1])
                put('num_polyMul', p, m, [d + 2] + poly(d, p) + [0, 0] + [0] * d + [1])
                put('num_polyMul', p, m, [14] + poly(14, p) + poly(11, p), 5)
                put('num_polyExp', p, m, [p - 1] + [0] * (d - 1) + [1], 3)
                put('num_polyExp', p, m, [p - 1] + [0] * d, 3)
                put('num_polyExp', p, m, [min(p - 1, 5)] + [1] + [0] * (d - 1))
    r.shuffle(ops)
    return batch(ops, 60, 'calls'), []


def c22(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('fields', ctx.n(60, 800), ctx.n(40, 60), 'reduced', prefix='gf_')
    units = []
    for p in [2, 3, 5, 7, 11, 13] if not ctx.deep else [p for p in SMALL if p < 45]:
        ops = [Op('gf_field', [p])]
        for o in range(6):
            for side in ('0', '1', '2'):
                ops.append(Op('gf_binAll', [o], aux=[side], cost=1 + p * p / 15))
        for x in range(-3, p + 3):
            ops.append(Op('gf_member', [x]))
        units.append(session(ops, 'all pairs modulo %d' % p))
    for u in range(ctx.n(30, 250)):
        p = r.choice([2, 3, 5, 17, 101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 521 - 1, r.choice(SMALL)])
        val = lambda: r.choice([0, 1, -1, 2, p - 1, p, p + 1, 2 * p, -p, (p + 1) // 2, r.randrange(p), r.randrange(p), -r.randrange(p), r.getrandbits(300), -r.getrandbits(300)])
        expo = lambda: r.choice([0, 1, 2, 3, -1, -2, -3, p - 1, p - 2, 1 - p, p, (p - 1) // 2, r.randrange(p), -r.randrange(p), r.getrandbits(40)])
        ops = [Op('gf_field', [p])] + [Op('gf_elem', [k, val()]) for k in range(6)]
        ops += [Op('gf_elem', [6, 0]), Op('gf_elem', [7, 1])]
        regs = list(range(8))
        if u % 2 == 0:
            for o in range(6):
                for side in range(3):
                    a, b = r.choice(regs), r.choice(regs)
                    x = expo() if o > 3 and side == 1 else val()
                    ops.append(Op('gf_bin', [o, r.randrange(6), side, x if side == 2 else a, x if side == 1 else b], cost=2))
                    # by zero and of zero
                    ops.append(Op('gf_bin', [o, r.randrange(5), side, 0 if side == 2 else 6, x if side == 1 else b], cost=2))
                    ops.append(Op('gf_bin', [o, r.randrange(5), side, x if side == 2 else a, r.choice([0, p, -p]) if side == 1 else 6], cost=2))
                    ops.append(Op('gf_bin', [o, a, side, x if side == 2 else a, x if side == 1 else a], cost=2))
                ops.append(Op('gf_dump', regs))
        for _ in range(25):
            k = r.random()
            a, b, side = r.choice(regs), r.choice(regs), r.randrange(3)
            if k < .6:
                o = r.randrange(6)
                x = expo() if o > 3 and side == 1 else val()
                ops.append(Op('gf_bin', [o, r.randrange(8), side, x if side == 2 else a, x if side == 1 else b], cost=2))
            elif k < .7:
                ops.append(Op('gf_neg', [r.randrange(8), a]))
                ops.append(Op('gf_text', [a]))
            elif k < .85:
                ops.append(Op('gf_eq', [0, 0, side, val() if side == 2 else a, val() if side == 1 else b]))
            elif k < .92:
                ops.append(Op('gf_dump', regs))
            else:
                ops.append(Op('gf_member', [r.choice([val(), p, p - 1, -1, 0, p + 1])]))
        # an element equals the integers it stands for and no others
        ops.append(Op('gf_elem', [0, val()]))
        ops.append(Op('gf_dump', regs))
        units.append(session(ops, 'expressions modulo %d' % p))
    for p in (2, 7, 65537, 2 ** 255 - 19):
        ops = [Op('gf_field', [p])]
        for _ in range(6):
            v = r.randrange(p)
            ops.append(Op('gf_elem', [0, v + r.choice([0, p, -p])]))
            ops.append(Op('gf_elem', [1, v]))
            ops.append(Op('gf_elem', [2, v + 1]))
            for k in (v, v + p, v - p, v + 1, v - 1, v + 7 * p, -v, 0, p):
                ops.append(Op('gf_eq', [0, 0, 1, 0, k]))
                ops.append(Op('gf_eq', [0, 0, 2, k, 0]))
            ops += [Op('gf_eq', [0, 0, 0, 0, 1]), Op('gf_eq', [0, 0, 0, 0, 2]), Op('gf_eq', [0, 0, 0, 0, 0])]
        units.append(session(ops, 'equality modulo %d' % p))
    # several fields in use at the same time
    for u in range(ctx.n(24, 200)):
        ps = r.sample([2, 3, 5, 7, 17, 101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19], 3)
        ops = [Op('gf_field', [ps[0]])] + [Op('gf_elem', [k, r.getrandbits(70)]) for k in range(4)]
        for f in (1, 2):
            ops += [Op('gf_other', [f, ps[f]])] + [Op('gf_elem', [k, r.getrandbits(70)]) for k in range(4)]
        for _ in range(40):
            k = r.random()
            a, b, side = r.randrange(4), r.randrange(4), r.randrange(3)
            val = r.choice([0, 1, -1, r.choice(ps), r.getrandbits(40), -r.getrandbits(70)])
            if k < .3:
                ops.append(Op('gf_other', [r.randrange(3), 2]))
            elif k < .7:
                ops.append(Op('gf_bin', [r.randrange(6), r.randrange(4), side, val if side == 2 else a, val if side == 1 else b], cost=2))
            elif k < .75:
                ops.append(Op('gf_neg', [r.randrange(4), a]))
            elif k < .85:
                ops.append(Op('gf_eq', [0, 0, side, val if side == 2 else a, val if side == 1 else b]))
            elif k < .9:
                ops.append(Op('gf_member', [val]))
            else:
                ops.append(Op('gf_dump', [0, 1, 2, 3]))
        for f in range(3):
            ops += [Op('gf_other', [f, 2]), Op('gf_dump', [0, 1, 2, 3]), Op('gf_text', [0])]
        units.append(session(ops, 'three fields %d' % u))
    return units, rep


def c23(ctx):
    r = ctx.rnd
    ks = set(range(1, ctx.n(130, 1200))) | {100 * i for i in range(1, ctx.n(60, 501))} | {50000, 49999, 49998, 49990, 49901, 49951, 40000, 25000, 10000, 9999}
    ks |= {2 ** i + d for i in range(3, 16) for d in (-1, 0, 1)} | {1000 * i + r.choice([-1, 0, 1]) for i in r.sample(range(7, 50), ctx.n(8, 43))}
    ks |= {r.randrange(1, 50001) for _ in range(ctx.n(25, 400))}
    ops = [Op('pi_pi', [k], cost=1 + k / 2500) for k in sorted(ks)] + [Op('pi_pi', [0], cost=20)]
    ops += [Op('pi_pi', [k]) for k in (50001, 50002, 50003, 50100, 60000, 10 ** 6, 2 ** 40)]
    step = 500
    for lo in range(0, 50000, step):
        ops.append(Op('pi_piText', [lo, lo + step], cost=4))
    r.shuffle(ops)
    return batch(ops, 12, 'calls', timeout=240), []


T = 'Quint trace validation of recorded calls (machine %s)'
PLANS = {
    'C17': Plan('numbers', 'exploration', 'one call per case: all arguments for small moduli, random and structured ones up to 600 bits, one to twelve numbers with common factors in each calling form; distinct by (function, arguments)',
                c17, T % 'numbers', 'every recorded call is judged by the Quint definition', BASE, lambda o: True, 1500),
    'C18': Plan('numbers', 'exploration', 'all residues of all small odd primes, all arguments of small odd moduli, residues and non-residues of primes of every class modulo 8 up to 521 bits; distinct by (function, arguments)',
                c18, T % 'numbers', 'roots are accepted by squaring, symbols by their definition', BASE, lambda o: True, 800),
    'C19': Plan('numbers', 'exploration', 'all small numbers; products of chosen prime powers within, at the end of and beyond the table of small primes; distinct by (function, arguments)',
                c19, T % 'numbers', 'factorizations are accepted by multiplying out and testing the factors', BASE + ['orders by enumeration, so for moduli below 3000'], lambda o: True, 1000),
    'C20': Plan('numbers', 'exploration', 'intervals of numbers, Carmichael numbers, least strong pseudoprimes, constructed composites that pass nearly all bases, prime squares and products, primes up to 1300 bits; distinct by (function, arguments)',
                c20, T % 'numbers', 'below 3.3e24 by the proven 13 bases, above by 25 bases or by known factors', BASE + ['a number above 3.3e24 that passes 25 prime bases is prime'], lambda o: True, 700),
    'C21': Plan('numbers', 'exploration', 'all polynomials of small degree modulo 2 and 3, random ones up to degree 40 and 255-bit p, leading zeros, constants; distinct by (function, arguments)',
                c21, T % 'numbers', 'every recorded call is judged by the Quint definition', BASE, lambda o: True, 900),
    'C22': Plan('fields', 'model_checking', 'one call per step of a register machine: behaviours generated from the specification, all operand pairs of small fields, random expressions over fields up to 521 bits; distinct by (operation, arguments)',
                c22, 'Quint behaviours replayed into the code and recorded sessions validated as traces (machine fields)', 'register machine over GF(p)', BASE,
                lambda o: o.op not in ('gf_field', 'gf_elem'), 1200),
    'C23': Plan('pidigits', 'exploration', 'every decimal of the string in pieces of 500; pi(k) for small, round, random and last k and beyond the end; distinct by (function, arguments)',
                c23, T % 'pidigits', 'digits from Machin\'s formula in the specification', BASE, lambda o: True, 300),
}
