"""C01 - C07: ChaCha20, Poly1305, AEAD, sealed messages, CMAC, SIV."""
from .base import *
from . import aes

Z32, F32 = bytes(32), b'\xff' * 32
SEQ = bytes(range(32))
BASE = ['the Jython driver reports calls and results faithfully',
        'Quint\'s evaluator computes the specification correctly; the specification is pinned by published test vectors (selftest.qnt)']


def blocks(n):
    return -(-n // 64)


def c01(ctx):
    r = ctx.rnd
    keys = [Z32, F32, SEQ] + [ctx.random(32) for _ in range(3)]
    nonces = [bytes(12), b'\xff' * 12, bytes(range(12)), bytes(11) + b'\x01', b'\x01' + bytes(11), b'\x80' + bytes(11)] + \
             [ctx.random(12) for _ in range(3)]
    counters = [0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32 - 2]
    lens = [0, 1, 2, 3, 4, 31, 32, 33, 60, 62, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320, 511, 512, 513]
    ops = []

    def one(k, n, c, length, d):
        if c + blocks(length) > 2 ** 32:
            c = 2 ** 32 - blocks(length)
        ops.append(Op('stream_oneshot', [c, d], [k, n, ctx.octets(length)], cost=2 + 3 * blocks(length)))
    for i, length in enumerate(lens):
        for d in (0, 1):
            one(r.choice(keys), r.choice(nonces), r.choice(counters), length, d)
    for c in counters:
        one(r.choice(keys), r.choice(nonces), c, r.choice([64, 65, 129]), r.randrange(2))
    for k in keys:
        one(k, r.choice(nonces), r.choice(counters), 70, 0)
    for n in nonces:
        one(r.choice(keys), n, r.choice(counters), 70, 0)
    for _ in range(ctx.n(60, 1500)):
        one(ctx.octets(32), ctx.octets(12), r.choice(counters + [r.getrandbits(32), r.getrandbits(16)]),
            r.choice(lens + [r.randrange(700)]), r.randrange(2))
    # the first column round: every one of its additions just at, below and
    # above 2^32, and intermediate words of all zeros and all ones
    SIGMA = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)
    M = 2 ** 32
    rot = lambda v, n: (v << n | v >> (32 - n)) % M
    for want in (0, M - 1, 1, 1 << 31, (1 << 31) - 1):
        for where in range(4):
            key, words = [r.getrandbits(32) for _ in range(8)], [r.getrandbits(32) for _ in range(4)]
            for i in range(4):
                a, d = SIGMA[i], words[i]
                if where == 0:
                    key[i] = (want - a) % M
                b = key[i]
                a1 = (a + b) % M
                d1 = rot(d ^ a1, 16)
                if where in (1, 3):
                    key[4 + i] = (want - d1) % M
                c = key[4 + i]
                if where == 2:      # the second addition to a: b ^ c rotated = want - a1
                    key[4 + i] = ((rot((want - a1) % M, 20) ^ b) - d1) % M
                elif where == 3:    # the second addition to c, by search over d
                    key[4 + i] = r.choice([0, M - 1, -d1 % M, 1 << 31])
            k = b''.join(x.to_bytes(4, 'little') for x in key)
            ops.append(Op('stream_oneshot', [words[0], 0], [k, b''.join(x.to_bytes(4, 'little') for x in words[1:]), bytes(64)], cost=5))
    # quarter rounds on their own
    for _ in range(ctx.n(300, 3000)):
        word = lambda: r.choice([0, 1, M - 1, M - 2, 1 << 31, (1 << 31) - 1, r.getrandbits(32), r.getrandbits(32), 1 << r.randrange(32), r.getrandbits(16), r.getrandbits(16) << 16])
        a, b, c, d = word(), word(), word(), word()
        if r.random() < .4:
            b = (r.choice([0, 0, M - 1, 1]) - a) % M
            c = (r.choice([0, 0, M - 1, 1]) - rot(d ^ (a + b) % M, 16)) % M
        elif r.random() < .3:
            a1 = (a + b) % M
            c = ((rot((r.choice([0, 0, M - 1]) - a1) % M, 20) ^ b) - rot(d ^ a1, 16)) % M
        ops.append(Op('stream_qr', [a, b, c, d]))
    # wrong sizes
    for kn in (0, 1, 8, 16, 24, 31, 33, 48, 64, 128):
        ops.append(Op('stream_oneshot', [0, 0], [ctx.random(kn), ctx.random(12), b'abc']))
    for nn in (1, 4, 8, 11, 13, 16, 24, 32):
        ops.append(Op('stream_oneshot', [1, 0], [ctx.random(32), ctx.random(nn), b'abc']))
    ops.append(Op('stream_oneshot', [1, 0], [ctx.random(12), ctx.random(32), b'abc']))
    # long messages, compared on sampled blocks
    longs = [(1000, 0), (1024, 5), (4096, 250), (4160, 2 ** 32 - 65), (8200, 2 ** 16 - 60), (16500, 9), (20000, 2 ** 24 - 300), (41000, 0), (66000, 0), (70000, 2 ** 31 - 500)]
    if ctx.deep:
        longs += [(300000, 1), (1100000, 7), (262144 + 64 * 3 + 5, 2 ** 32 - 4100)] + [(r.randrange(600, 20000), r.getrandbits(31)) for _ in range(60)]
    for length, c in longs:
        nb = blocks(length)
        w = {0, 1, nb - 1, nb - 2, nb // 2} | {i for i in (15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025) if i < nb}
        w |= {b - c for b in (256, 65536, 2 ** 31) if c < b < c + nb} | {r.randrange(nb) for _ in range(5)}
        ops.append(Op('stream_long', [c] + sorted(x for x in w if x >= 0), [ctx.random(32), ctx.random(12), ctx.random(length)], cost=40 + 3 * len(w)))
    r.shuffle(ops)
    return batch(ops, 8, 'messages', timeout=120), []


def c02(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('streams', ctx.n(48, 800), ctx.n(25, 40), 'noBlockTwice', prefix='stream_')
    units = []
    for u in range(ctx.n(24, 300)):
        ops = []
        objs = {}
        keys = [ctx.octets(32) for _ in range(2)]
        nonces = [ctx.octets(12) for _ in range(2)]
        for h in range(r.choice([1, 2, 3, 4])):
            c = r.choice([0, 1, 2, 250, 65530, 2 ** 31 - 3, 2 ** 32 - 2000])
            if r.random() < 0.3:
                ops.append(Op('stream_newRandom', [h, c], [r.choice(keys)]))
            else:
                ops.append(Op('stream_new', [h, c], [r.choice(keys), r.choice(nonces)]))
        nobj = len(ops)
        for _ in range(r.choice([6, 12, 20])):
            n = r.choice([0, 0, 1, 5, 16, 32, 63, 64, 64, 65, 127, 128, 129, 200, 256, 300])
            ops.append(Op('stream_crypt', [r.randrange(nobj), r.randrange(2)], [ctx.octets(n)], cost=1 + 3 * blocks(n)))
        # a refused object in between leaves no trace
        ops.insert(nobj + 2, Op('stream_new', [77, 0], [ctx.random(31), ctx.random(12)]))
        # objects made again under the same name start afresh
        if r.random() < 0.5:
            ops.append(Op('stream_new', [0, 3], [keys[0], nonces[0]]))
            ops.append(Op('stream_crypt', [0, 0], [ctx.octets(70)], cost=8))
        units.append(session(ops, 'history %d' % u))
    # one object used many times
    ops = [Op('stream_new', [0, 1], [ctx.random(32), ctx.random(12)]), Op('stream_new', [1, 1], [ctx.random(32), ctx.random(12)])]
    for i in range(ctx.n(320, 2000)):
        n = r.choice([0, 1, 1, 10, 64, 65])
        ops.append(Op('stream_crypt', [r.choice([0, 0, 0, 1]), i % 2], [ctx.random(n)], cost=1 + 3 * blocks(n)))
    units.append(session(ops, 'many calls'))
    for k in range(3):
        key = ctx.random(32)
        units.append(session([Op('stream_fresh', [], [key]) for _ in range(ctx.n(25, 200))], 'objects without nonce %d' % k))
    return units, rep


def c03(ctx):
    r = ctx.rnd
    P = 2 ** 130 - 5
    ops = []
    le = lambda v, n=16: v.to_bytes(n, 'little')

    def tag(m, rr, s):
        ops.append(Op('chan_polyTag', [], [m, le(rr) + le(s)], cost=1 + len(m) / 64))
    full = 2 ** 128 - 1
    rs = [0, 1, 2, 4, 5, 0x0ffffffc0ffffffc0ffffffc0fffffff, full, 0x0ffffffc << 96, 1 << 64, 3]
    ss = [0, 1, full, 2 ** 127, r.getrandbits(128)]
    for rr in rs:
        for n in (0, 1, 15, 16, 17, 32, 33, 48, 64, 80, 128):
            tag(b'\xff' * n, rr, r.choice(ss))
    # sums around the modulus: r = 1, three blocks with sum of values p + d
    for d in range(-3, 9):
        want = P + d - 3 * 2 ** 128
        b1 = min(full, want)
        tag(le(b1) + le(want - b1) + le(0), 1, r.choice(ss))
    # the last, partial block
    for n in range(1, 17):
        tag(ctx.random(16) + bytes(n), r.getrandbits(128), r.getrandbits(128))
        tag(bytes(n), r.getrandbits(128), full)
        tag(ctx.random(n - 1) + b'\0', r.getrandbits(128), r.getrandbits(128))
    for rr in (2, full, 1):
        for s in (0, full, 2 ** 128 - 2):
            for m in (b'\xff' * 16, b'\x02' + bytes(15), b'\xfd' + b'\xff' * 15, b'\xfb' + b'\xfe' * 15 + b'\x01' * 16, b'\xff' * 16 + b'\xf0' + b'\xff' * 15 + b'\x11' + bytes(15)):
                tag(m, rr, s)
    # accumulators at the ends of the field, and at multiples of 2^128, after a
    # full or partial last block
    ends = [0, 1, 2, 3, 4, 5, P - 1, P - 2, P - 5, 2 ** 128 - 1, 2 ** 128, 2 ** 129, 3 * 2 ** 128]
    for T in ends:
        for n in range(0, 16) if ctx.deep else (0, 15, r.randrange(1, 15), r.randrange(1, 15)):
            for rr in (1, 2, r.getrandbits(128)):
                rc = rr & 0x0ffffffc0ffffffc0ffffffc0fffffff
                if not rc:
                    continue
                inv = pow(rc, -1, P)
                last = ctx.random(n)
                A = (T * inv - int.from_bytes(last, 'little') - 2 ** (8 * n)) % P if n else T
                while True:
                    m = ctx.random(16 * r.randrange(1, 4))
                    acc = 0
                    for i in range(0, len(m), 16):
                        acc = (acc + int.from_bytes(m[i:i + 16], 'little') + 2 ** 128) * rc % P
                    b = (A * inv - acc - 2 ** 128) % P
                    if b <= full:
                        break
                tag(m + le(b) + last, rr, r.choice(ss))
    for _ in range(ctx.n(300, 6000)):
        n = r.choice([0, 1, 7, 15, 16, 17, 31, 32, 33, 34, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, r.randrange(400)])
        ops.append(Op('chan_polyTag', [], [ctx.octets(n), ctx.octets(32)], cost=1 + n / 64))
    for n in (1000, 1024, 4097) + ((20000, 65536, 70001) if ctx.deep else (9999,)):
        ops.append(Op('chan_polyTag', [], [ctx.random(n), ctx.random(32)], cost=n / 32))
    # every bit of r is clamped or used
    for b in range(128):
        ops.append(Op('chan_polyTag', [], [le(1) + ctx.random(5), le(1 << b) + le(r.getrandbits(128))]))
    for _ in range(ctx.n(25, 400)):
        ops.append(Op('chan_polyKey', [], [ctx.octets(32), ctx.octets(12)], cost=4))
    for kn, nn in ((31, 12), (33, 12), (16, 12), (32, 11), (32, 13), (32, 8), (32, 16), (0, 12)):
        ops.append(Op('chan_polyKey', [], [ctx.random(kn), ctx.random(nn)], cost=4))
    r.shuffle(ops)
    ops = crossed(ops, {'chan_polyTag': []}, r, ctx.n(60, 800))
    return batch(ops, 40, 'tags'), []


def cancelling(t):
    """Changes of an octet string that cancel out under sums, exclusive ors,
    sets or sorted comparison of its octets."""
    n = len(t)
    for i, j in ((0, 1), (0, n - 1), (n - 2, n - 1), (7, 8), (3, 12)):
        if t[i] != t[j]:
            yield t[:i] + t[j:j + 1] + t[i + 1:j] + t[i:i + 1] + t[j + 1:]      # exchanged
        b = bytearray(t)
        b[i] ^= 0x80
        b[j] ^= 0x80
        yield bytes(b)
        b = bytearray(t)
        b[i] = (b[i] + 1) % 256
        b[j] = (b[j] - 1) % 256
        yield bytes(b)
    yield bytes(x ^ 1 for x in t)
    yield bytes(255 - x for x in t)
    yield t[1:] + t[:1]
    yield t[:n // 2] + bytes(n - n // 2)
    yield bytes(n // 2) + t[n // 2:]
    yield t[:4] + bytes(n - 4)
    yield t[:-1] + bytes([t[-1] ^ 0xff])
    yield t[:1] * n
    yield bytes([(x + 1) % 256 for x in t])


ALENS = [0, 1, 2, 7, 8, 12, 15, 16, 17, 31, 32, 33, 48, 65]
PLENS = [0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 80, 114, 128, 129, 192]


def channel_behaviours(ctx, kinds, n, steps):
    """Behaviours of the channel machine on the channels of these kinds."""
    def adapt(b):
        op, xs, ss, ok, ri, rs = b
        return [Op('chan_' + op, list(xs), list(ss), want=(ok, ri, rs))]

    def keep(b):
        return True
    units = ctx.behaviours('channels', n, steps, 'authentic', step='step%s' % ''.join(map(str, kinds)), prefix='chan_', adapt=adapt, keep=keep)
    return units


def c04(ctx):
    r = ctx.rnd
    rep = channel_behaviours(ctx, [1], ctx.n(16, 300), ctx.n(20, 30))
    units = []
    for u in range(ctx.n(32, 500)):
        ivn = r.choice([0, 4, 8, 8, 8, 11, 12, 12, 1])
        key, const = ctx.octets(32), ctx.octets(12 - ivn)
        recs = []

        def make(u=u, ivn=ivn, key=key, const=const, plan=[(r.choice(ALENS), r.choice(PLENS), r.random(), r.random()) for _ in range(4)],
                 data=[(ctx.octets(200), ctx.octets(300), ctx.octets(ivn)) for _ in range(4)]):
            yield Op('chan_open', [0, 1], [key, const])
            if u % 3 == 0:
                yield Op('chan_open', [1, 1], [flip(key, 8 * (u % 32)), const])
            for (an, pn, x, y), (a, p, iv) in zip(plan, data):
                a, p = a[:an], p[:pn]
                o = yield Op('chan_protect', [0], [a, iv, p], cost=12 + pn / 16)
                if o.ok and len(o.rs) == 2:
                    ct = o.rs[0]
                    yield Op('chan_receive', [0], [a, iv, ct], cost=12 + pn / 16)
                    if ct:
                        yield Op('chan_receive', [0], [a, iv, flip(ct, int(x * 8 * len(ct)))], cost=12 + pn / 16)
                    yield Op('chan_receive', [1 if u % 3 == 0 else 0], [a + b'\0', iv, ct], cost=12 + pn / 16)
        units.append(Unit(make, 'channel %d' % u, cost=100))
    # one object used many times, with numbers that go on
    ops = [Op('chan_open', [0, 1], [ctx.random(32), ctx.random(4)])]
    for i in range(ctx.n(280, 1200)):
        ops.append(Op(r.choice(['chan_protect', 'chan_protect', 'chan_receive']), [0], [ctx.octets(r.choice([0, 0, 1, 5])), i.to_bytes(8, 'little'), ctx.octets(r.choice([0, 1, 3]))], cost=9))
    units.append(session(ops, 'many calls', timeout=240))
    # all combinations of remainders
    ops = [Op('chan_open', [0, 1], [ctx.random(32), ctx.random(4)])]
    for an in (0, 1, 15, 16, 17, 32):
        for pn in (0, 1, 15, 16, 17, 32):
            ops.append(Op('chan_protect', [0], [ctx.octets(an), ctx.random(8), ctx.octets(pn)], cost=12))
    units.append(session(ops[:19], 'lengths'))
    units.append(session(ops[:1] + ops[19:], 'lengths'))
    # longer than one octet can count
    ops = [Op('chan_open', [0, 1], [ctx.random(32), b''])]
    for an, pn in ((256, 3), (300, 257), (3, 1030), (4100, 5), (5, 5000 if ctx.deep else 600)):
        ops.append(Op('chan_protect', [0], [ctx.random(an), ctx.random(12), ctx.random(pn)], cost=10 + an / 30 + pn / 10))
    units.append(session(ops, 'long'))
    # the length fields count every octet
    for an, pn in ((65536 + 5, 3), (3 * 65536, 0)) + (((9, 65536 + 33),) if ctx.deep else ()):
        ops = [Op('chan_open', [0, 1], [ctx.random(32), b'']),
               Op('chan_protect', [0], [an * ctx.random(1), ctx.random(12), ctx.random(pn)], cost=1000 + pn / 2)]
        units.append(session(ops, 'length fields'))
    # nonces that do not fit
    ops = []
    for h, (kn, cn, ivn) in enumerate([(32, 4, 7), (32, 4, 9), (32, 0, 8), (32, 4, 4), (32, 0, 13), (32, 12, 1), (16, 4, 8), (31, 4, 8), (33, 0, 12), (32, 8, 8)]):
        ops.append(Op('chan_open', [h, 1], [ctx.random(kn), ctx.random(cn)], silent=True))
        ops.append(Op('chan_protect', [h], [b'aad', ctx.random(ivn), b'text']))
    units.append(session(ops, 'nonces that do not fit'))
    return units, rep


def c05(ctx):
    r = ctx.rnd
    rep = channel_behaviours(ctx, [2], ctx.n(24, 300), ctx.n(20, 30))
    units = []
    C = 12

    def long(n):
        """ many messages on one object, most of them opened, in order """
        yield Op('chan_open', [0, 2], [ctx.random(32), ctx.random(4)])
        for i in range(n):
            o = yield Op('chan_protect', [0], [b'', i.to_bytes(8, 'big'), ctx.random(i % 4)], cost=C)
            if o.ok and len(o.rs) == 1 and o.rs[0]:
                yield Op('chan_receive', [0], [b'', o.rs[0] if i % 3 else flip(o.rs[0], i % 8)], cost=C)
    units.append(Unit(lambda: long(ctx.n(160, 1000)), 'many messages', cost=2 * C * ctx.n(160, 1000), timeout=240))

    def attack(key, const, aad, iv, pt, kind):
        """a genuine message, then its modifications"""
        yield Op('chan_open', [0, 2], [key, const])
        o = yield Op('chan_protect', [0], [aad, iv, pt], cost=C)
        if not o.ok or len(o.rs) != 1 or len(o.rs[0]) != len(iv) + len(pt) + 16:
            return
        msg = o.rs[0]
        genuine = lambda: Op('chan_receive', [0], [aad, msg], cost=C)
        yield genuine()
        if kind[0] == 'bits':
            for b in kind[1]:
                if b < 8 * len(msg):
                    yield Op('chan_receive', [0], [aad, flip(msg, b)], cost=C)
            yield genuine()
        elif kind[0] == 'cuts':
            for k in range(len(msg)):
                yield Op('chan_receive', [0], [aad, msg[:k]], cost=C)
            for k in (1, 2, 8, 15, 16, 17):
                yield Op('chan_receive', [0], [aad, msg[k:]], cost=C)
                yield Op('chan_receive', [0], [aad, msg + bytes(k)], cost=C)
                yield Op('chan_receive', [0], [aad, bytes(k) + msg], cost=C)
                yield Op('chan_receive', [0], [aad, msg + msg[-k:]], cost=C)
            yield genuine()
        elif kind[0] == 'aad':
            for b in range(0, 8 * len(aad)):
                yield Op('chan_receive', [0], [flip(aad, b), msg], cost=C)
            for k in (1, 15, 16):
                yield Op('chan_receive', [0], [aad + bytes(k), msg], cost=C)
                yield Op('chan_receive', [0], [bytes(k) + aad, msg], cost=C)
                yield Op('chan_receive', [0], [aad[:-k], msg], cost=C)
                yield Op('chan_receive', [0], [aad[k:], msg], cost=C)
            # the border between additional data and ciphertext moved
            body, tag = msg[len(iv):-16], msg[-16:]
            for k in range(1, min(len(body), 5)):
                yield Op('chan_receive', [0], [aad + body[:k], iv + body[k:] + tag], cost=C)
            for k in range(1, min(len(aad), 5)):
                yield Op('chan_receive', [0], [aad[:-k], iv + aad[-k:] + body + tag], cost=C)
            yield Op('chan_receive', [0], [b'', msg], cost=C)
            yield genuine()
        elif kind[0] == 'keys':
            for b in kind[1]:
                yield Op('chan_open', [1, 2], [flip(key, b), const])
                yield Op('chan_receive', [1], [aad, msg], cost=C)
            for b in range(0, 8 * len(const)):
                yield Op('chan_open', [1, 2], [key, flip(const, b)])
                yield Op('chan_receive', [1], [aad, msg], cost=C)
            yield genuine()
        elif kind[0] == 'tags':
            body = msg[:-16]
            for t in (bytes(16), b'\xff' * 16, msg[-16:][::-1], msg[-15:] + msg[-16:-15], msg[:16].ljust(16, b'\0')):
                yield Op('chan_receive', [0], [aad, body + t], cost=C)
            for t in cancelling(msg[-16:]):
                if t != msg[-16:]:
                    # more than once: a refusal is remembered by nothing
                    yield Op('chan_receive', [0], [aad, body + t], cost=C)
                    yield Op('chan_receive', [0], [aad, body + t], cost=C)
            yield genuine()
            if len(body) > 15:
                for t in cancelling(body):
                    if t != body:
                        yield Op('chan_receive', [0], [aad, t + msg[-16:]], cost=C)
            # another genuine message; its parts exchanged with the first
            o2 = yield Op('chan_protect', [0], [aad, flip(iv, 3) if iv else iv, pt[::-1] + b'x'], cost=C)
            if o2.ok and len(o2.rs) == 1:
                m2 = o2.rs[0]
                yield Op('chan_receive', [0], [aad, msg[:-16] + m2[-16:]], cost=C)
                yield Op('chan_receive', [0], [aad, m2[:-16] + msg[-16:]], cost=C)
                yield Op('chan_receive', [0], [aad, msg[:len(iv)] + m2[len(iv):]], cost=C)
                yield Op('chan_receive', [0], [aad, m2], cost=C)
                yield Op('chan_receive', [0], [aad, msg], cost=C)
    key, const, aad, iv, pt = ctx.random(32), ctx.random(4), ctx.random(7), ctx.random(8), ctx.random(5)
    total = 8 * (8 + 5 + 16)
    for k in range(0, total, 32):
        units.append(Unit(lambda k=k: attack(key, const, aad, iv, pt, ('bits', range(k, min(k + 32, total)))), 'bits %d' % k, cost=400))
    shapes = [(4, 8, 13, 20), (0, 12, 0, 3), (0, 12, 5, 0), (12, 0, 4, 17), (4, 8, 16, 16), (8, 4, 1, 33)]
    for cn, ivn, an, pn in shapes[:ctx.n(4, 6)]:
        a = (ctx.random(32), ctx.random(cn), ctx.random(an), ctx.random(ivn), ctx.random(pn))
        for kind in (('cuts',), ('aad',), ('tags',)):
            units.append(Unit(lambda a=a, kind=kind: attack(*(a + (kind,))), kind[0], cost=600))
    ks = list(range(256))
    r.shuffle(ks)
    for i in range(0, ctx.n(64, 256), 32):
        units.append(Unit(lambda i=i: attack(key, const, aad, iv, pt, ('keys', ks[i:i + 32])), 'keys', cost=400))
    # genuine messages of many shapes, several channels
    for u in range(ctx.n(20, 300)):
        ivn = r.choice([8, 8, 12, 4, 0, 11])
        ops = [(ctx.octets(r.choice(ALENS)), ctx.octets(ivn), ctx.octets(r.choice(PLENS))) for _ in range(4)]

        def make(ops=ops, key=ctx.octets(32), const=ctx.octets(12 - ivn), pos=[r.random() for _ in ops]):
            yield Op('chan_open', [0, 2], [key, const])
            yield Op('chan_open', [1, 2], [key[::-1], const])
            for (a, iv, p), x in zip(ops, pos):
                o = yield Op('chan_protect', [0], [a, iv, p], cost=C + len(p) / 16)
                if o.ok and len(o.rs) == 1:
                    m = o.rs[0]
                    yield Op('chan_receive', [0], [a, m], cost=C + len(p) / 16)
                    if key[::-1] != key:
                        yield Op('chan_receive', [1], [a, m], cost=C + len(p) / 16)
                    yield Op('chan_receive', [0], [a, flip(m, int(x * 8 * len(m)))], cost=C + len(p) / 16)
                    yield Op('chan_receive', [0], [a, m], cost=C + len(p) / 16)
        units.append(Unit(make, 'shapes %d' % u, cost=200))
    return units, rep


def c06(ctx):
    r = ctx.rnd
    ops = []
    lens = list(range(0, 50)) + [63, 64, 65, 79, 80, 81, 95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 320]
    for n in lens:
        ops.append(Op('chan_cmac', [0], [ctx.octets(16), ctx.octets(n)], cost=1 + n / 16))
        ops.append(Op('chan_cmac', [1], [ctx.octets(16), ctx.octets(n)], cost=1))
    # under the toy cipher the encrypted zero block is the key itself
    top = 1 << 127
    ls = [0, 1, 2, 3, top, top | 1, top >> 1, top >> 2, top | top >> 1, top | top >> 1 | top >> 2, 2 ** 128 - 1, top - 1, top >> 1 | 1, 0x87, 0x87 << 120,
          0x43, 1 << 7, 1 << 8, (1 << 120) - 1, 255, 1 << 119, 0x0e << 120, 0x3fff << 112] + [1 << r.randrange(128) for _ in range(20)]
    for l in ls:
        k = l.to_bytes(16, 'big')
        ops.append(Op('chan_subkeys', [1], [k]))
        for n in (0, 1, 15, 16, 17, 32, 40):
            ops.append(Op('chan_cmac', [1], [k, ctx.octets(n)]))
    for kn in (16, 24, 32):
        for _ in range(ctx.n(15, 200)):
            ops.append(Op('chan_subkeys', [0], [ctx.octets(kn)], cost=2))
            n = r.choice(lens)
            ops.append(Op('chan_cmac', [0], [ctx.octets(kn), ctx.octets(n)], cost=1 + n / 16))
    for _ in range(ctx.n(200, 4000)):
        n = r.choice(lens)
        ops.append(Op('chan_cmac', [1], [ctx.octets(16), ctx.octets(n)], cost=1))
    # padding must be injective: messages that end in what looks like padding
    for n in range(0, 33):
        k = ctx.random(16)
        m = ctx.random(n)
        for suffix in (b'\x80', b'\x80' + bytes(-(n + 1) % 16), bytes(1), b'\x80' + bytes(3)):
            ops.append(Op('chan_cmac', [1], [k, m + suffix]))
    for n in (1000, 2048, 4095) + ((20000,) if ctx.deep else ()):
        ops.append(Op('chan_cmac', [0], [ctx.random(16), ctx.random(n)], cost=n / 16))
        ops.append(Op('chan_cmac', [1], [ctx.random(16), ctx.random(n)], cost=n / 32))
    r.shuffle(ops)      # ciphers change from call to call
    ops = crossed(ops, {'chan_cmac': [], 'chan_subkeys': []}, r, ctx.n(60, 800))
    return batch(ops, 40, 'cmac'), []


def c07(ctx):
    r = ctx.rnd
    rep = channel_behaviours(ctx, [3], ctx.n(24, 300), ctx.n(20, 30))
    units = []
    cost = lambda p, ads: 2 + (len(p) + sum(map(len, ads))) / 8 + 4 * len(ads)

    def long(n):
        """ many messages on one object """
        yield Op('chan_open', [0, 3], [ctx.random(32)])
        for i in range(n):
            o = yield Op('chan_protect', [0], [ctx.random(i % 5), i.to_bytes(2, 'big')], cost=4)
            if o.ok and o.rs and o.rs[0]:
                yield Op('chan_receive', [0], [o.rs[0] if i % 3 else flip(o.rs[0], i % 8), i.to_bytes(2, 'big')], cost=4)
    units.append(Unit(lambda: long(ctx.n(140, 1000)), 'many messages', cost=8 * ctx.n(140, 1000), timeout=240))

    def attack(key, p, ads, kind):
        yield Op('chan_open', [0, 3], [key])
        o = yield Op('chan_protect', [0], [p] + ads, cost=cost(p, ads))
        if not o.ok or len(o.rs) != 1 + len(ads):
            return
        m = o.rs[0]
        get = lambda m, a, h=0: Op('chan_receive', [h], [m] + a, cost=cost(m, a))
        yield get(m, ads)
        if kind[0] == 'bits':
            for b in kind[1]:
                if b < 8 * len(m):
                    yield get(flip(m, b), ads)
        elif kind[0] == 'cuts':
            for k in range(len(m)):
                yield get(m[:k], ads)
            for k in (1, 15, 16, 17):
                yield get(m[k:], ads)
                yield get(m + bytes(k), ads)
                yield get(bytes(k) + m, ads)
        elif kind[0] == 'ads':
            for i in range(len(ads)):
                for b in range(8 * len(ads[i])):
                    yield get(m, ads[:i] + [flip(ads[i], b)] + ads[i + 1:])
                for v in (ads[i] + b'\0', b'\0' + ads[i], ads[i][:-1], ads[i] + b'\x80'):
                    if v != ads[i]:
                        yield get(m, ads[:i] + [v] + ads[i + 1:])
                yield get(m, ads[:i] + ads[i + 1:])
                yield get(m, ads[:i] + [b''] + ads[i:])
                yield get(m, ads[:i] + [ads[i]] + ads[i:])
                for j in range(i):
                    if ads[i] != ads[j]:
                        l = list(ads)
                        l[i], l[j] = l[j], l[i]
                        yield get(m, l)
            yield get(m, ads + [b''])
            yield get(m, [b''.join(ads)] if len(ads) != 1 else ads + ads)
            yield get(m, [])
        elif kind[0] == 'tags':
            for t in cancelling(m[:16]):
                if t != m[:16]:
                    yield get(t + m[16:], ads)
                    yield get(t + m[16:], ads)
            if len(m) > 31:
                for t in cancelling(m[16:]):
                    if t != m[16:]:
                        yield get(m[:16] + t, ads)
            o = yield Op('chan_protect', [0], [p[::-1] + b'x'] + ads, cost=cost(p, ads))
            if o.ok and o.rs:
                yield get(o.rs[0], ads)
                yield get(m[:16] + o.rs[0][16:], ads)
                yield get(o.rs[0][:16] + m[16:], ads)
        elif kind[0] == 'keys':
            for b in kind[1]:
                yield Op('chan_open', [1, 3], [flip(key, b)])
                yield get(m, ads, 1)
        yield get(m, ads)
    for kn, pn, an in ((32, 5, [3]), (48, 17, []), (64, 16, [0, 4])) if not ctx.deep else ((32, 5, [3]), (48, 17, []), (64, 16, [0, 4]), (32, 0, [1, 1]), (64, 40, [20])):
        key, p, ads = ctx.random(kn), ctx.random(pn), [ctx.random(n) for n in an]
        total = 8 * (16 + pn)
        for k in range(0, total, 64):
            units.append(Unit(lambda k=k, a=(key, p, ads): attack(*a, ('bits', range(k, k + 64))), 'bits', cost=200))
        units.append(Unit(lambda a=(key, p, ads): attack(*a, ('cuts',)), 'cuts', cost=200))
        units.append(Unit(lambda a=(key, p, ads): attack(*a, ('tags',)), 'tags', cost=200))
        bits = [r.randrange(8 * kn) for _ in range(ctx.n(24, 8 * kn))]
        units.append(Unit(lambda a=(key, p, ads), bits=bits: attack(*a, ('keys', bits)), 'keys', cost=200))
    for an in ([1, 2, 2], [0], [16], [3, 0, 17], [2, 3, 4, 5]):
        units.append(Unit(lambda a=(ctx.random(r.choice([32, 48, 64])), ctx.random(r.choice([3, 16, 30])), [ctx.random(n) for n in an]): attack(*a, ('ads',)), 'ads', cost=300))
    plens = [0, 1, 2, 14, 15, 16, 17, 18, 31, 32, 33, 47, 48, 64, 65, 100]
    # every combination of plain text and list sizes
    ops = []
    for pn in plens:
        for an in ([], [0], [5], [0, 0], [16, 3], [17, 0, 1]):
            ops.append((ctx.octets(r.choice([32, 48, 64])), ctx.octets(pn), [ctx.octets(n) for n in an]))
    for _ in range(ctx.n(60, 1500)):
        ops.append((ctx.octets(r.choice([32, 48, 64])), ctx.octets(r.choice(plens)),
                    [ctx.octets(r.choice([0, 1, 15, 16, 17, 33, 64])) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]))
    ops.append((ctx.random(32), ctx.random(20), [ctx.random(3) for _ in range(60)]))
    ops.append((ctx.random(32), ctx.random(ctx.n(600, 5000)), [ctx.random(300)]))

    # plain texts whose synthetic IV takes a chosen value: counters that carry
    # into every octet, IVs with leading zeros and with the cleared bits set
    F = b'\xff'
    ivs = [F * 16, bytes(16), bytes(15) + b'\1', F * 4 + bytes(12), bytes(8) + b'\x80' + bytes(3) + b'\x80' + bytes(3), bytes(8) + F * 8, F * 8 + bytes(8),
           bytes(12) + F * 4, bytes(12) + b'\x7f\xff\xff\xfe', F * 12 + b'\x7f\xff\xff\xfd', bytes(12) + b'\x80\0\0\0', b'\0\0\x80' + bytes(13), bytes(13) + F * 3,
           bytes(14) + F * 2, F * 8 + b'\x7f' + F * 3 + b'\xff\xff\xff\xfe', bytes(8) + b'\x7f' + F * 7]
    ivs += [ctx.random(n) + F * (16 - n) for n in (15, 15, 14, 13, 12, 11, 8, 7, 4, 1)] + [bytes(n) + ctx.random(16 - n) for n in (1, 2, 8, 12, 15)]
    vectors = [Op('chan_s2v', [], [ctx.octets(n)]) for n in (16, 24, 32)]
    for _ in range(ctx.n(40, 600)):
        vectors.append(Op('chan_s2v', [], [ctx.octets(r.choice([16, 24, 32]))] + [ctx.octets(r.choice([0, 1, 15, 16, 17, 31, 32, 40])) for _ in range(r.choice([1, 1, 2, 3, 6]))], cost=12))
    units += batch(crossed(vectors, {'chan_s2v': []}, r, ctx.n(20, 200)), 20, 'vectors')
    for iv in ivs:
        for blocks in (1, 3) if not ctx.deep else (1, 2, 3, 5, 20):
            k, ads = ctx.octets(r.choice([32, 48, 64])), [ctx.octets(n) for n in r.choice([[], [0], [7], [16, 3]])]
            ops.append((k, aes.siv_text(k, ads, ctx.octets(16 * (blocks - 1)), iv), ads))
    for n in (130, 257):
        k = ctx.random(32)
        ops.append((k, aes.siv_text(k, [], ctx.random(16 * n), bytes(15) + b'\xfe'), []))
    # inner states of the vector with the high bit set and clear come from the
    # random ones; here many strings, and strings of many blocks
    ops.append((ctx.random(48), ctx.random(15), [ctx.random(16) for _ in range(126)]))

    def good(part):
        for i, (key, p, ads) in enumerate(part):
            yield Op('chan_open', [i, 3], [key])
            o = yield Op('chan_protect', [i], [p] + ads, cost=cost(p, ads))
            if o.ok and o.rs:
                yield Op('chan_receive', [i], [o.rs[0]] + ads, cost=cost(p, ads))
                # once more with the same object
                yield Op('chan_protect', [i], [p[1:]] + ads[:1], cost=cost(p, ads))
                yield Op('chan_receive', [i], [o.rs[0]] + ads, cost=cost(p, ads))
    r.shuffle(ops)
    for i in range(0, len(ops), 10):
        units.append(Unit(lambda part=ops[i:i + 10]: good(part), 'messages', cost=200))
    return units, rep


NONTRIVIAL = lambda o: any(o.ss)
PLANS = {
    'C01': Plan('streams', 'exploration',
                'one call per case: keys, nonces, counters and lengths at and around block, octet and sign borders, both directions, '
                'wrong sizes, long messages on sampled blocks; distinct by (counter, direction, key, nonce, text), non-trivial if the text is not empty or the sizes are wrong',
                c01, 'Quint trace validation of recorded calls (machine streams)',
                'every recorded call is judged by the Quint definition of RFC 7539 ChaCha20', BASE, lambda o: o.op == 'stream_qr' or len(o.ss[2]) > 0 or len(o.ss[0]) != 32 or len(o.ss[1]) != 12, 100),
    'C02': Plan('streams', 'model_checking',
                'histories of objects: random behaviours of the machine replayed on real objects, and recorded random histories judged by the machine; non-trivial calls are those on existing objects',
                c02, 'Quint state machine: replayed behaviours and trace validation', 'the machine streams with its invariant noBlockTwice; both directions of conformance', BASE,
                lambda o: o.op in ('stream_crypt', 'stream_fresh'), 200),
    'C03': Plan('channels', 'exploration', 'one call per case: messages and keys of every remainder, clamping, carry and reduction edges; distinct by (message, key)',
                c03, 'Quint trace validation of recorded calls (machine channels)', 'every recorded call is judged by the Quint definition of Poly1305', BASE, lambda o: True, 300),
    'C04': Plan('channels', 'model_checking', 'channels with adversary: behaviours of the machine replayed, recorded sessions judged; distinct by (operation, arguments)',
                c04, 'Quint state machine: replayed behaviours and trace validation', 'the machine channels with its invariant authentic; both directions of conformance', BASE, lambda o: o.op != 'chan_open', 150),
    'C05': Plan('channels', 'model_checking', 'sealed messages and every kind of modification (each bit of a short message, each truncation, extensions, moved borders, swapped parts, other keys); distinct by (operation, arguments)',
                c05, 'Quint state machine: replayed behaviours and trace validation', 'the machine channels with its invariant authentic; both directions of conformance', BASE, lambda o: o.op != 'chan_open', 400),
    'C06': Plan('channels', 'exploration', 'one call per case: every message length to 49 and around block borders, AES and a linear cipher that puts any chosen value under the subkey derivation; distinct by (cipher, key, message)',
                c06, 'Quint trace validation of recorded calls (machine channels)', 'every recorded call is judged by the Quint definition of CMAC over AES or over the toy cipher', BASE, lambda o: True, 400),
    'C07': Plan('channels', 'model_checking', 'SIV messages and every kind of modification (each bit of short messages, truncations, extensions, changed, dropped, inserted, swapped, merged strings, other keys); distinct by (operation, arguments)',
                c07, 'Quint state machine: replayed behaviours and trace validation', 'the machine channels with its invariant authentic; both directions of conformance', BASE, lambda o: o.op != 'chan_open', 500),
}
