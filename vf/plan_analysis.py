"""C30: permutations, Walsh spectra and nonlinearity."""
import itertools
from .base import *
from .plan_cipher import BASE


def perm(ctx, n):
    l = list(range(n))
    ctx.rnd.shuffle(l)
    return l


def shaped(ctx, lengths):
    """a permutation with cycles of these lengths"""
    n = sum(lengths)
    names = perm(ctx, n)
    p, k = [0] * n, 0
    for m in lengths:
        c = names[k:k + m]
        for i in range(m):
            p[c[i]] = c[(i + 1) % m]
        k += m
    return p


def c30(ctx):
    r = ctx.rnd
    ops = []

    def orbits(p):
        w = r.randrange(2)
        ops.append(Op('tab_orbits', [w] + p, aux=['tuple'] if r.random() < .3 else [], cost=1 + len(p) / 12))
        ops.append(Op('tab_lengths', [1 - w if r.random() < .5 else w] + p, cost=1 + len(p) / 12))
    for n in range(1, 6):
        for p in itertools.permutations(range(n)):
            orbits(list(p))
    for n in (6, 7):
        for p in r.sample(list(itertools.permutations(range(n))), ctx.n(60, 720)):
            orbits(list(p))
    for _ in range(ctx.n(60, 900)):
        orbits(perm(ctx, r.choice([8, 10, 16, 17, 31, 32, 64, 100])))
    for l in ([256], [255, 1], [1, 255], [128, 128], [2] * 128, [1] * 256, [3] * 80 + [16], [1, 2, 4, 8, 16, 32, 64, 128, 1], [87, 81, 59, 27, 2], [64] * 4, [300], [17] * 15):
        for _ in range(ctx.n(1, 6)):
            orbits(shaped(ctx, l))
    for n in (16, 64, 256):
        orbits([(i + 1) % n for i in range(n)])
        orbits([(i - 1) % n for i in range(n)])
        orbits(list(range(n))[::-1])
    orbits(perm(ctx, 256))
    # every Boolean function of up to eight values, affine and bent functions
    for n in (1, 2, 4, 8):
        for v in range(2 ** n):
            t = [v >> i & 1 for i in range(n)]
            w = r.randrange(2)
            ops.append(Op('tab_walsh', [w] + t, cost=1 + n / 8))
            ops.append(Op('tab_nonlin', [1 - w] + t, cost=1 + n / 8))
    def both(t, cost):
        w = r.randrange(2)
        ops.append(Op('tab_walsh', [w] + t, cost=cost))
        ops.append(Op('tab_nonlin', [w if r.random() < .5 else 1 - w] + t, cost=cost))
    dot = lambda a, b: bin(a & b).count('1') & 1
    for n in (16, 32, 64, 128, 256, 512) + ((1024, 2048) if ctx.deep else ()):
        m = n.bit_length() - 1
        for _ in range(ctx.n(40 if n < 64 else 8 if n < 128 else 2, 200 if n < 128 else 12 if n < 512 else 2)):
            k = r.random()
            if k < .4:
                t = [r.randrange(2) for _ in range(n)]
            elif k < .55:
                a, c = r.randrange(n), r.randrange(2)
                t = [dot(a, x) ^ c for x in range(n)]
            elif k < .7:      # affine with a few values changed
                a = r.randrange(n)
                t = [dot(a, x) for x in range(n)]
                for _ in range(r.randrange(1, 4)):
                    t[r.randrange(n)] ^= 1
            elif k < .85:     # a product of the two halves of the argument
                h = m // 2
                t = [dot(x >> h & ((1 << h) - 1), x & ((1 << h) - 1)) for x in range(n)]
            else:
                t = [0] * n
                t[r.randrange(n)] = 1
            if r.random() < .2:
                t = [1 - v for v in t]
            both(t, 1 + n * n / (300 if n < 256 else 3000))
    for n in (3, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33):
        for w in (0, 1):
            ops.append(Op('tab_walsh', [w] + [r.randrange(2) for _ in range(n)]))
    # S-boxes: permutations and others
    for n in (2, 4, 8, 16):
        for _ in range(ctx.n({2: 4, 4: 24, 8: 24, 16: 18}[n], {2: 4, 4: 24, 8: 200, 16: 150}[n])):
            s = perm(ctx, n) if r.random() < .6 else [r.randrange(n) for _ in range(n)]
            ops.append(Op('tab_sboxNonlin', s and [0] + s, cost=1 + n ** 3 / 100))
        ops.append(Op('tab_sboxNonlin', [0] + list(range(n))))
        ops.append(Op('tab_sboxNonlin', [0] + [0] * n))
    for s in ([12, 5, 6, 11, 9, 0, 10, 13, 3, 14, 15, 8, 4, 7, 1, 2], [x * x * x % 17 % 16 for x in range(16)]):
        ops.append(Op('tab_sboxNonlin', [0] + s, cost=40))
    for n in (32, 64) if not ctx.deep else (32, 32, 64, 64, 128):
        ops.append(Op('tab_sboxNonlin', [0] + perm(ctx, n), cost=n ** 3 / 300))
    if ctx.deep:
        ops.append(Op('tab_sboxNonlin', [0] + AES, cost=256 ** 3 / 300))
    for w in (0, 1):
        for k in (0, 1):
            ops.append(Op('tab_table', [w, k], cost=2))
    ops.append(Op('tab_orbits', [0] + AES, cost=20))
    ops.append(Op('tab_lengths', [1] + AES, cost=20))
    r.shuffle(ops)
    return batch(ops, 25, 'calls', timeout=400), []


def aes():
    t, p, q = [0x63] * 256, 1, 1
    for _ in range(255):
        p = p ^ (p << 1 & 0xff) ^ (0x1b if p & 0x80 else 0)
        for s in (1, 2, 4):
            q ^= q << s & 0xff
        q ^= 0x09 if q & 0x80 else 0
        x = q
        for s in (1, 2, 3, 4):
            x ^= (q << s | q >> 8 - s) & 0xff
        t[p] = x ^ 0x63
    return t


AES = aes()
PLANS = {
    'C30': Plan('tables', 'exploration', 'all permutations of up to 5 elements, chosen cycle types up to 300 elements; all Boolean functions of up to 8 values, affine, near-affine, bent and random ones up to 512 (2048); S-boxes up to 64 (256: that of AES) values, permutations or not; the tables; distinct by (function, arguments)',
                c30, 'Quint trace validation of recorded calls (machine tables)', 'every recorded call is judged by the Quint definition; the tables by their algebraic construction', BASE, lambda o: True, 800),
}
