"""C08, C09: conversions and text encodings."""
from .base import *
from .plan_cipher import BASE

A27 = b'ABCDEFGHJKMNPQRTWXYZ2346789'
A85 = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"
A94 = bytes(range(33, 127))
ALPHABET = {27: A27, 85: A85, 94: A94}


def blen(v):
    return max(1, (v.bit_length() + 7) // 8)


def c08(ctx):
    r = ctx.rnd
    ops = []
    vals = [0, 1, 2, 9, 10, 127, 128, 254, 255, 256, 257, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1,
            2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 127, 2 ** 128 - 1, 256 ** 20, 256 ** 20 - 1, 10 ** 50, 2 ** 1024 - 1, 2 ** 1024]
    vals += [r.getrandbits(r.choice([8, 16, 31, 40, 64, 100, 160, 256, 521, 2000])) for _ in range(ctx.n(60, 1500))]
    vals += [256 ** k for k in range(1, 20)] + [r.randrange(1, 256) * 256 ** r.randrange(1, 30) for _ in range(10)]
    for m in (0, 1, 2):
        for v in vals:
            n = blen(v)
            ops.append(Op('text_i2s', [m, v, 0]))
            for pad in {n, n + 1, r.choice([n + 2, n + 7, n + 30, n + 300])}:
                both = v < 2 ** 16 or not r.randrange(4)
                for op in ['text_i2s', 'text_i2s2i'] if both else [r.choice(['text_i2s', 'text_i2s2i'])]:
                    ops.append(Op(op, [m, v, pad]))
            if n > 1:
                ops.append(Op('text_i2s', [m, v, r.choice([n - 1, n - 1, max(1, n // 2), 1])]))
        for v in (-1, -2, -255, -256, -257, -2 ** 64, -r.getrandbits(200) - 1):
            ops.append(Op('text_i2s', [m, v, 0]))
            ops.append(Op('text_i2s', [m, v, 40]))
        for n in list(range(1, 20)) + [31, 32, 33, 64, 65, 66, 127, 128, 255, 256, 257, 1000, 3000]:
            for s in (ctx.octets(n), bytes(n), b'\xff' * n, b'\0' + ctx.random(n - 1), bytes(n - 1) + b'\x80'):
                ops.append(Op('text_s2i', [m], [s], cost=1 + n / 200))
        for b in range(256):
            ops.append(Op('text_s2i', [m], [bytes([b])]))
            if b % 3 == m:
                ops.append(Op('text_i2s', [m, b, 0]))
        for n in (200, 256, 1000, 3000):
            ops.append(Op('text_i2s', [m, 256 ** n - 1 - r.getrandbits(8 * n - 9), r.choice([0, n, n + 3])], cost=4))
    for m in (0, 1, 2):
        for n in list(range(0, 18)) + [31, 32, 33, 63, 64, 65, 255, 256, 1000]:
            ops.append(Op('text_xor', [m], [ctx.octets(n), ctx.octets(n)], cost=1 + n / 100))
        s = bytes(range(256))
        ops.append(Op('text_xor', [m], [s, s]))
        ops.append(Op('text_xor', [m], [s, s[::-1]]))
        for k in (1, 7, 64, 128, 200):
            ops.append(Op('text_xor', [m], [s, s[k:] + s[:k]]))
        for a, b in ((0, 1), (1, 0), (5, 4), (4, 5), (16, 17), (17, 16), (3, 30), (30, 3), (256, 255), (64, 0)):
            ops.append(Op('text_xor', [m], [ctx.random(a), ctx.random(b)]))
        for _ in range(ctx.n(20, 400)):
            n = r.randrange(40)
            ops.append(Op('text_xor', [m], [ctx.octets(n), ctx.octets(n if r.random() < .6 else r.randrange(40))]))
    r.shuffle(ops)
    return batch(ops, 100, 'conversions'), []


def c09(ctx):
    r = ctx.rnd
    ops = []
    for base, alpha in ALPHABET.items():
        for n in list(range(1, 34)) + [40, 48, 64, 65, 100, 128, 200, 300]:
            for s in {ctx.octets(n), bytes(n), b'\xff' * n, b'\0' + ctx.random(n - 1), bytes(n - 1) + b'\x01', bytes(n // 2) + ctx.random(n - n // 2)}:
                ops.append(Op('text_roundtrip', [base], [s], cost=1 + n / 8))
        for v in [base ** k + d for k in range(1, 24) for d in (-1, 0, 1)] + [r.getrandbits(r.choice([8, 16, 48, 64, 128])) for _ in range(ctx.n(40, 1500))]:
            ops.append(Op('text_enc', [base], [v.to_bytes(blen(v), 'big')], cost=2))
            ops.append(Op('text_roundtrip', [base], [v.to_bytes(blen(v) + r.randrange(3), 'big')], cost=2))
        for b in range(256):
            ops.append(Op('text_enc', [base], [bytes([b])]))
        # every digit in two places
        for i in range(base):
            c, d = alpha[i:i + 1], alpha[(i * 7 + 3) % base:(i * 7 + 3) % base + 1]
            ops.append(Op('text_dec', [base, 0], [c]))
            ops.append(Op('text_dec', [base, 12], [d + c + d]))
        for n in list(range(1, 30)) + [60, 100]:
            t = bytes(r.choice(alpha) for _ in range(n))
            v = 0
            for c in t:
                v = v * base + alpha.index(c)
            k = blen(v)
            for pad in (0, k, k + 1, k + 9):
                ops.append(Op('text_dec', [base, pad], [t], cost=1 + n / 10))
            ops.append(Op('text_dec', [base, r.choice([1, k + 2, k + 40])], [alpha[:1] * r.randrange(1, 5) + t], cost=1 + n / 10))
            if k > 1:
                ops.append(Op('text_dec', [base, k - 1], [t], cost=1 + n / 10))
        ops.append(Op('text_dec', [base, 0], [alpha[:1]]))
        ops.append(Op('text_dec', [base, 5], [alpha[:1] * 9]))
        # characters outside the alphabet: all of them, in every place
        for b in range(256):
            if b not in alpha:
                t = bytearray(r.choice(alpha) for _ in range(r.randrange(1, 7)))
                t.insert(r.randrange(len(t) + 1), b)
                ops.append(Op('text_dec', [base, r.choice([0, 20])], [bytes(t)]))
                if b % 4 == 0 or chr(b) in 'ILOSUV015' or 97 <= b < 123:
                    ops.append(Op('text_dec', [base, r.choice([0, 8])], [bytes([b])]))
        for b in b' \n\t\r\0=':
            if b not in alpha:
                for t in (bytes([b]) + alpha[5:9], alpha[5:9] + bytes([b]), alpha[5:9] + bytes([b]) + alpha[9:11]):
                    ops.append(Op('text_dec', [base, 0], [t]))
    # the example of RFC 1924
    ops.append(Op('text_enc', [85], [bytes.fromhex('108000000000000000080800200c417a')], cost=2))
    ops.append(Op('text_dec', [85, 16], [b'4)+k&C#VzJ4br>0wv%Yp'], cost=2))
    if ctx.deep:
        for _ in range(2000):
            base = r.choice([27, 85, 94])
            ops.append(Op('text_roundtrip', [base], [ctx.octets(r.choice([1, 2, 6, 8, 16, 20, 32, 64]))], cost=4))
    r.shuffle(ops)
    return batch(ops, 100, 'texts'), []


PLANS = {
    'C08': Plan('texts', 'exploration', 'one call per case over the three modules: values and lengths at octet borders, exact, larger and smaller padding, negative values, unequal strings; distinct by (function, arguments)',
                c08, 'Quint trace validation of recorded calls (machine texts)', 'every recorded call is judged by the Quint definition', BASE, lambda o: True, 1000),
    'C09': Plan('texts', 'exploration', 'one call per case over the three alphabets: all digits, powers of the base and neighbours, leading zero octets and digits, exact, larger and too small padding, every character outside the alphabet; distinct by (function, arguments)',
                c09, 'Quint trace validation of recorded calls (machine texts)', 'every recorded call is judged by the Quint definition', BASE, lambda o: True, 1000),
}
