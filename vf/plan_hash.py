"""C24 - C29: Michael, TKIP, HMAC, PBKDF2 and the 802.11 PRF."""
from .base import *
from .plan_cipher import BASE


def c24(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('wireless', ctx.n(50, 600), ctx.n(30, 50), 'keysFit', step='mics', prefix='wl_')
    units = []
    keys = [bytes(8), b'\xff' * 8, bytes(range(8)), b'\x00\x00\x00\x80' * 2, b'\x01' + bytes(7), bytes(4) + b'\x01' + bytes(3), bytes(7) + b'\x80', b'\x80' + bytes(7)]
    # published values: a chain of keys and growing messages
    ops = []
    k = bytes(8)
    for i, m in enumerate([b'', b'M', b'Mi', b'Mic', b'Mich', b'Michael']):
        ops.append(Op('wl_new', [i, 0, 1, 0, 0], [k, b'', b'']))
        ops.append(Op('wl_hash', [i], [m]))
        k = bytes.fromhex(['82925c1ca1d130b8', '434721ca40639b3f', 'e8f9becae97e5d29', '90038fc6cf13c1db', 'd55e100510128986', '0a942b124ecaa546'][i])
    units.append(session(ops, 'published chain'))
    for u in range(ctx.n(24, 240)):
        ops = []
        n = r.randrange(2, 5)
        kinds = {}
        for h in range(n):
            kinds[h] = r.choice([0, 0, 2, 3, 3])
            given = r.randrange(5) > 0
            ops.append(Op('wl_new', [h, kinds[h], int(given), 0, 0], [r.choice(keys + [ctx.octets(8)] * 6), b'', b'']))
        for _ in range(28):
            h = r.randrange(n)
            k = r.random()
            if k < .2:
                ops.append(Op('wl_setKey', [h], [ctx.octets(8) if r.random() < .8 else ctx.random(r.choice([0, 1, 4, 7, 9, 12, 16]))]))
            elif k < .25:
                kinds[h] = r.choice([0, 2, 3])
                ops.append(Op('wl_new', [h, kinds[h], 1, 0, 0], [ctx.octets(8), b'', b'']))
            elif kinds[h] == 0:
                size = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 20, 63, 64, 100, 257])
                ops.append(Op(r.choice(['wl_hash', 'wl_hash', 'wl_call']), [h], [ctx.octets(size)], cost=1 + size / 30))
            else:
                size = r.choice([0, 1, 3, 4, 5, 8, 16, 33, 64, 130])
                sizes = [6, 6]
                if r.random() < .15:
                    sizes[r.randrange(2)] = r.choice([0, 5, 7, 12])
                ops.append(Op('wl_mic', [h, r.choice([0, 1, 2, 7, 8, 14, 15, r.randrange(16), r.randrange(16), 16, -1, 17, 255])],
                              [ctx.octets(sizes[0]), ctx.octets(sizes[1]), ctx.octets(size)], cost=1 + size / 30))
        units.append(session(ops, 'history %d' % u))
    # every priority in both versions; every short length; structured messages
    ops = [Op('wl_new', [k, k, 1, 0, 0], [ctx.random(8), b'', b'']) for k in (2, 3)]
    for k in (2, 3):
        for pr in range(-1, 18):
            ops.append(Op('wl_mic', [k, pr], [ctx.random(6), ctx.random(6), ctx.random(r.randrange(12))]))
        for n1 in (0, 1, 5, 6, 7, 12):
            for n2 in (0, 5, 6, 7):
                ops.append(Op('wl_mic', [k, 3], [ctx.random(n1), ctx.random(n2), b'data']))
        # lengths that sum to twelve
        ops.append(Op('wl_mic', [k, 3], [ctx.random(4), ctx.random(8), b'data']))
    units.append(session(ops, 'priorities and addresses'))
    for j in range(ctx.n(8, 60)):
        ops = [Op('wl_new', [0, 0, 1, 0, 0], [(keys + [ctx.random(8) for _ in range(99)])[j], b'', b''])]
        for n in list(range(0, 41)) + [r.randrange(41, 300), (1500, 2304, 4096, 8192)[j] if j < 4 else 50]:
            ops.append(Op('wl_hash', [0], [ctx.octets(n)], cost=1 + n / 30))
        for n in (1, 3, 4, 5, 8):
            ops.append(Op('wl_hash', [0], [bytes(n)]))
            ops.append(Op('wl_hash', [0], [b'\xff' * n]))
            ops.append(Op('wl_hash', [0], [b'\x5a' + bytes(n)]))
        units.append(session(ops, 'lengths %d' % j))
    ops = [Op('wl_new', [k, k, 1, 0, 0], [ctx.random(8), b'', b'']) for k in (0, 3)]
    for i in range(ctx.n(300, 3000)):
        ops.append(Op('wl_hash', [0], [ctx.octets(i % 7)]) if i % 3 else Op('wl_mic', [3, i % 16], [bytes(6), ctx.random(6), ctx.octets(i % 5)]))
    units.append(session(ops, 'many calls'))
    ops = []
    for n in list(range(0, 20)) + [32, 64]:
        for kind in (0, 2, 3):
            ops.append(Op('wl_new', [kind, kind, 1, 0, 0], [ctx.random(n), b'', b'']))
            if n == 8:
                ops.append(Op('wl_hash' if kind == 0 else 'wl_mic', [kind] if kind == 0 else [kind, 1], [b'abc'] if kind == 0 else [bytes(6), bytes(6), b'abc']))
    units.append(session(ops, 'key lengths'))
    return units, rep


def tkey(ctx):
    return ctx.octets(16)


def c25(ctx):
    r = ctx.rnd
    ops = []
    mix = lambda k, t, n: ops.append(Op('wl_mix', [], [k, t, n], cost=4))
    SEQ = bytes(range(16))
    TA = bytes.fromhex('102233445566')
    fixed_k = [bytes(16), b'\xff' * 16, SEQ, SEQ[::-1]]
    fixed_t = [bytes(6), b'\xff' * 6, TA, bytes(5) + b'\1']
    fixed_n = [bytes(6), b'\xff' * 6, b'\1' + bytes(5), b'\0\1' + bytes(4), b'\xff\xff' + bytes(4), bytes(2) + b'\1' + bytes(3), bytes(5) + b'\1', bytes(3) + b'\xff' + bytes(2),
               bytes(4) + b'\x80\0']
    for k in fixed_k:
        for t in fixed_t:
            for n in fixed_n:
                if ctx.deep or r.random() < .6:
                    mix(k, t, n)
    # each octet of each argument on its own; each low octet of the number
    for i in range(16):
        for v in (1, 0x80, 0xff, r.randrange(256)):
            mix(bytes(i) + bytes([v]) + bytes(15 - i), TA, ctx.random(6))
    for i in range(6):
        for v in (1, 0x80, 0xff, r.randrange(256)):
            mix(SEQ, bytes(i) + bytes([v]) + bytes(5 - i), ctx.random(6))
            mix(SEQ, TA, bytes(i) + bytes([v]) + bytes(5 - i))
    for v in range(256):
        mix(SEQ if v % 2 else ctx.random(16), ctx.random(6), bytes([v]) + ctx.random(5))
        if v % 3 == 0:
            mix(SEQ, TA, bytes([r.randrange(256), v]) + bytes(4))
    for _ in range(ctx.n(900, 20000)):
        mix(tkey(ctx), ctx.octets(6), ctx.octets(6))
    r.shuffle(ops)
    ops = crossed(ops, {'wl_mix': []}, r, ctx.n(150, 3000))
    return batch(ops, 60, 'keys'), []


def c26(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('wireless', ctx.n(60, 900), ctx.n(35, 60), 'keysFit', step='mixers', prefix='wl_')
    units = []
    for u in range(ctx.n(50, 500)):
        n = r.randrange(1, 4)
        ks = [ctx.octets(16) for _ in range(2)]
        tas = [ctx.octets(6) for _ in range(2)]
        base = ctx.octets(6)
        cur = {}

        def number(h=0):
            k = r.random()
            b = bytearray(cur.get(h, base))
            if k < .3:      # next in sequence, with a carry now and then
                v = int.from_bytes(bytes(b), 'little') + r.choice([1, 1, 1, 0x100, 0xffff, 0x10000])
                b = bytearray((v % 2 ** 48).to_bytes(6, 'little'))
            elif k < .5:    # one octet changes
                b[r.randrange(6)] = r.randrange(256)
            elif k < .6:    # octets change places
                i, j = r.randrange(6), r.randrange(6)
                b[i], b[j] = b[j], b[i]
            elif k < .7:
                b = bytearray(base)
            elif k < .75:
                b = bytearray(6)
            elif k < .8:    # wrong size
                return ctx.random(r.choice([0, 4, 5, 7, 8]))
            else:
                b = bytearray(ctx.octets(6))
            cur[h] = bytes(b)
            return bytes(b)
        ops = []
        for h in range(n):
            g = r.randrange(8)
            ops.append(Op('wl_new', [h, 4, g % 2, g // 2 % 2, g // 4], [r.choice(ks), r.choice(tas), base]))
        for _ in range(24):
            h = r.randrange(n)
            k = r.random()
            if k < .5:
                ops.append(Op('wl_newKey', [h], [number(h)], cost=4))
            elif k < .65:
                ops.append(Op('wl_setKey', [h], [r.choice(ks + [ctx.octets(16)]) if r.random() < .85 else ctx.random(r.choice([0, 8, 15, 17, 32]))]))
            elif k < .8:
                ops.append(Op('wl_setTA', [h], [r.choice(tas + [ctx.octets(6)]) if r.random() < .85 else ctx.random(r.choice([0, 5, 7, 12]))]))
            elif k < .95:
                ops.append(Op('wl_setPn', [h], [number(h)]))
            else:
                g = r.randrange(8)
                ops.append(Op('wl_new', [h, 4, g % 2, g // 2 % 2, g // 4], [r.choice(ks), r.choice(tas), r.choice([base, ctx.octets(6)])]))
        # a refused change leaves the mixer as it was: ask again
        for h in range(n):
            ops.append(Op('wl_newKey', [h], [cur.get(h, base)], cost=4))
        units.append(session(ops, 'history %d' % u))
    # one mixer used many times: numbers in order over a border, then from anew
    ops = [Op('wl_new', [0, 4, 1, 1, 1], [ctx.random(16), ctx.random(6), bytes(6)])]
    start = (r.getrandbits(32) << 16) - ctx.n(150, 1000)
    for i in range(ctx.n(300, 4000)):
        ops.append(Op('wl_newKey', [0], [((start + i) % 2 ** 48).to_bytes(6, 'little')], cost=4))
        if i % 90 == 89:
            ops.append(Op('wl_setKey', [0], [ctx.random(16)]))
    units.append(session(ops, 'many calls'))
    return units, rep


HASHES = [(1, 64, 20), (0, 64, 20), (0, 64, 16), (0, 128, 64), (0, 16, 16), (0, 32, 8), (0, 24, 24), (0, 136, 32), (11, 64, 20), (12, 64, 16)]


def hcost(h, n):
    return 1 + ((n + h[1]) / 64 + 3) * (4 if h[0] in (1, 11) else .2)


def c27(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('macs', ctx.n(40, 500), ctx.n(25, 40), 'quiet', prefix='mac_')
    units, ops = [], []
    # key lengths around the block and digest sizes
    for h in HASHES:
        for n in {0, 1, 7, h[2] - 1, h[2], h[2] + 1, h[1] - 1, h[1], h[1] + 1, h[1] + 2, 2 * h[1], 2 * h[1] + 1, 200, 300}:
            ops.append(Op('mac_hmac', list(h), [ctx.octets(n), ctx.octets(r.choice([0, 1, 20, 55, 56, 63, 64, 65, 130]))], cost=hcost(h, n + 100)))
        for n in (0, 1, h[1] - 1, h[1], h[1] + 1, 1000):
            ops.append(Op('mac_hmac', list(h), [ctx.octets(20), ctx.octets(n)], cost=hcost(h, n)))
        ops.append(Op('mac_hmac', list(h), [bytes(h[1]), b'']))
        ops.append(Op('mac_hmac', list(h), [b'\x36' * h[1], b'x']))
        ops.append(Op('mac_hmac', list(h), [b'\x5c' * (h[1] - 1), b'x']))
        ops.append(Op('mac_hmac', list(h), [bytes(h[1] + 1), b'x']))
        ops.append(Op('mac_hmac', list(h), [bytes(range(256))[:h[1]] , bytes(range(256))], cost=6))
        ops.append(Op('mac_hmac', list(h), [bytes(range(256))[-h[1]:], b'y'], cost=6))
    for _ in range(ctx.n(100, 3000)):
        h = r.choice(HASHES)
        n = r.choice([r.randrange(0, 300), h[1], h[1] + 1])
        m = r.choice([0, 1, 30, 64, 100, r.randrange(400)])
        ops.append(Op('mac_hmac', list(h), [ctx.octets(n), ctx.octets(m)], cost=hcost(h, m + n)))
    r.shuffle(ops)
    units += batch(crossed(ops, {o.op: [] for o in ops}, r, ctx.n(100, 1500)), 40, 'one call')
    for u in range(ctx.n(40, 400)):
        n = r.randrange(1, 4)
        hs = {}
        ops = []

        def make(i):
            hs[i] = r.choice(HASHES)
            if r.random() < .4 and i > 0:
                hs[i] = hs.get(0, hs[i])
            ops.append(Op('mac_new', [i, *hs[i], 1 if r.random() < .8 else 0], [ctx.octets(r.choice([0, 1, 16, 20, hs[i][1] - 1, hs[i][1], hs[i][1] + 1, 150]))], cost=3))
        for i in range(n):
            make(i)
        total = {i: 0 for i in range(n)}
        for _ in range(26):
            i = r.randrange(n)
            k = r.random()
            size = r.choice([0, 1, 3, 20, 55, 63, 64, 65, 100])
            if k < .4:
                total[i] += size
                ops.append(Op('mac_update', [i], [ctx.octets(size)]))
            elif k < .68:
                ops.append(Op('mac_digest', [i], [], cost=hcost(hs[i], total[i])))
                if r.random() < .3:
                    ops.append(Op('mac_digest', [i], [], cost=hcost(hs[i], total[i])))
            elif k < .76:
                ops.append(Op('mac_reset', [i]))
                total[i] = 0
            elif k < .84:
                ops.append(Op('mac_setKey', [i], [ctx.octets(r.choice([0, 5, 20, hs[i][1], hs[i][1] + 1, 2 * hs[i][1]]))]))
                total[i] = 0
            elif k < .97:
                ops.append(Op('mac_call', [i], [ctx.octets(size)], cost=hcost(hs[i], size)))
                total[i] = size
            else:
                make(i)
                total[i] = 0
        units.append(session(ops, 'history %d' % u))
    # one object used many times
    for h in ((0, 64, 20), (12, 64, 16)) + (((11, 64, 20),) if ctx.deep else ()):
        ops = [Op('mac_new', [0, *h, 1], [ctx.random(20)])]
        for i in range(ctx.n(300, 1500)):
            ops.append(Op('mac_update', [0], [ctx.octets(i % 3)]))
        ops.append(Op('mac_digest', [0], [], cost=10))
        for i in range(ctx.n(270, 1000)):
            ops.append(Op('mac_call', [0], [ctx.octets(i % 9)]))
        units.append(session(ops, 'many calls'))
    # the same message in every split in two, then in single octets
    for h in [(1, 64, 20), (0, 32, 8), (11, 64, 20), (12, 64, 16)]:
        m = ctx.random(70 if h[0] == 1 else 40)
        ops = [Op('mac_new', [0, *h, 1], [ctx.random(h[1] + r.choice([0, 1]))])]
        for i in range(0, len(m) + 1, 1 if h[0] == 0 or ctx.deep else 5):
            ops += [Op('mac_reset', [0]), Op('mac_update', [0], [m[:i]]), Op('mac_update', [0], [m[i:]]), Op('mac_digest', [0], cost=hcost(h, 70))]
        ops += [Op('mac_reset', [0])] + [Op('mac_update', [0], [m[i:i + 1]]) for i in range(len(m))] + [Op('mac_digest', [0], cost=hcost(h, 70))]
        units.append(session(ops, 'splits'))
    # objects without a key
    ops = []
    for i, h in enumerate(HASHES):
        ops += [Op('mac_new', [i, *h, 0], [b''])] + [Op('mac_' + o, [i], [b'abc'] if o in ('update', 'call') else []) for o in ('digest', 'reset', 'update', 'call', 'digest')]
        ops += [Op('mac_setKey', [i], [b'key']), Op('mac_digest', [i], cost=8), Op('mac_call', [i], [b'abc'], cost=8)]
    units.append(session(ops, 'no key'))
    return units, rep


def c28(ctx):
    r = ctx.rnd
    ops = []

    def one(h, pw, salt, it, size):
        nb = -(-size // h[2])
        ops.append(Op('mac_pbkdf2', [*h, it, size], [pw, salt], cost=2 + it * nb * (9 if h[0] in (1, 11) else .6)))
    SHA = (11, 64, 20)
    TOY = [(0, 64, 20), (0, 16, 16), (0, 32, 8), (0, 24, 24), (0, 128, 64), (12, 64, 16)]
    # RFC 6070
    one(SHA, b'password', b'salt', 1, 20)
    one(SHA, b'password', b'salt', 2, 20)
    one(SHA, b'pass\0word', b'sa\0lt', 7, 16)
    for it in (1, 2, 3, 4, 5, 10) + ((50, 100, 257, 1000) if ctx.deep else (37,)):
        for size in (20, 1, 25):
            one(SHA, ctx.octets(12), ctx.octets(8), it, size)
    for h in TOY + [SHA]:
        d = h[2]
        for size in {0, 1, 2, d - 1, d, d + 1, 2 * d - 1, 2 * d, 2 * d + 1, 3 * d, 5 * d + 3}:
            one(h, ctx.octets(r.choice([1, 8, 20, 63])), ctx.octets(r.choice([0, 4, 8, 33])), r.choice([1, 1, 2, 3]), size)
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 61, 62, 63):
            one(h, ctx.octets(n), ctx.octets(7), 2, r.choice([d, d + 1]))
        for n in (64, 65, 66, 80, 127, 128, 200):
            one(h, ctx.octets(n), ctx.octets(7), 2, d)
            one(h, ctx.octets(n), ctx.octets(7), 1, 1)
        for n in (0, 1, 32, 51, 52, 60, 63, 64, 100, 300):
            one(h, ctx.octets(10), ctx.octets(n), 2, d)
    # many blocks: block numbers beyond one octet; the largest sizes
    big = [((0, 32, 8), 2048), ((0, 32, 8), 2056), ((0, 16, 16), 4096), ((0, 16, 16), 4112), ((0, 64, 20), 5120), ((0, 64, 20), 5121), ((0, 64, 20), 5141), ((0, 32, 8), 9999),
           ((0, 32, 8), 10000), ((0, 64, 20), 9990), ((0, 64, 20), 10000), ((0, 128, 64), 10000), (SHA, 300), (SHA, 2560 if not ctx.deep else 5140)]
    for h, size in big:
        one(h, ctx.octets(20), ctx.octets(9), 1 if h[0] else r.choice([1, 2]), size)
    for h in (SHA, (0, 64, 20), (0, 32, 8)):
        for size in (10001, 10002, 10020, 12000, 100000):
            one(h, b'password', b'salt', 1, size)
            ops[-1].cost = 1
    for it in (127, 128, 255, 256, 257, 1000, 1024, 4096) + ((65536,) if ctx.deep else ()):
        one((0, 64, 20), ctx.octets(10), ctx.octets(8), it, r.choice([1, 20, 21]))
    for _ in range(ctx.n(120, 3000)):
        h = r.choice(TOY + [SHA])
        one(h, ctx.octets(r.randrange(64)), ctx.octets(r.randrange(40)), r.choice([1, 2, 3, 5, 8]) if h[0] == 11 else r.choice([1, 2, 3, 4, 10, 50, 128]), r.randrange(1, 90))
    # the 802.11 mapping: 4096 iterations, with a toy hash in place of SHA-1 and with SHA-1
    lens = [8, 9, 20, 62, 63, 32] + [r.randrange(8, 64) for _ in range(ctx.n(2, 30))]
    for n in lens:
        ops.append(Op('mac_psk', [0], [ctx.octets(n), ctx.octets(r.choice([0, 1, 4, 8, 31, 32]))], cost=900))
    for p, n in ((b'password ', b'net'), (b' password', b'net '), (b'pass word\n', b' net'), (b'PassWord\0', b'Net\0'), (b'\0pass\tword', b'\0net\n'),
                 (b'"p\xc3\xa9cul%s"', b'"net"'), (b'0123456789abcdef' * 3 + b'0123456789abcde', b'\xff\xfe'), (b'        ', b' ')):
        ops.append(Op('mac_psk', [0], [p, n], cost=900))
    for n in (0, 1, 6, 7, 64, 65, 100):
        ops.append(Op('mac_psk', [0], [ctx.octets(n), b'ssid']))
        ops.append(Op('mac_psk', [1], [ctx.octets(n), b'ssid']))
    if ctx.deep:
        ops.append(Op('mac_psk', [1], [b'password', b'IEEE'], cost=60000))
        ops.append(Op('mac_psk', [1], [b'ThisIsAPassword', b'ThisIsASSID'], cost=60000))
    ops.sort(key=lambda o: -o.cost)
    heavy = [o for o in ops if o.cost > 100]
    rest = [o for o in ops if o.cost <= 100]
    r.shuffle(rest)
    return batch(heavy, 1, 'long', timeout=600) + batch(crossed(rest, {'mac_pbkdf2': [3, 4]}, r, ctx.n(30, 500)), 12, 'calls', timeout=180), []


def c29(ctx):
    r = ctx.rnd
    ops = []

    def one(bits, key, label, data):
        nb = max(1, -(-bits // 160))
        ops.append(Op('mac_prf', [bits], [key, label, data], cost=1 + nb * 9 * (1 + (len(label) + len(data)) / 130)))
    keys = [b'Jefe', b'\x0b' * 20, b'\xaa' * 80, bytes(32), b'\xff' * 64, b'', ctx.random(65)]
    one(512, b'Jefe', b'prefix', b'what do ya want for nothing?')
    one(512, b'\x0b' * 20, b'prefix', b'Hi There')
    one(512, b'\xaa' * 20, b'prefix', b'\xdd' * 50)
    for bits in list(range(0, 338, 8)) + [472, 480, 488, 632, 640, 648, 768, 1280, 1600, 2048, 3200]:
        one(bits, r.choice(keys), r.choice([b'', b'Pairwise key expansion', b'Group key expansion', ctx.octets(9)]), ctx.octets(r.choice([0, 1, 16, 28, 76])))
    for bits in (160, 320, 480, 640, 800, 960, 1600, 3200):
        for _ in range(2):
            one(bits, ctx.octets(32), b'label', ctx.octets(20))
    # the counter octet up to its end
    for bits in ctx.n((160 * 129, 160 * 254 + 8, 160 * 255), (160 * 129, 160 * 200, 160 * 254, 160 * 254 + 8, 160 * 255 - 8, 160 * 255)):
        one(bits, ctx.random(32), b'x', b'')
    for n in (0, 1, 16, 20, 32, 63, 64, 65, 66, 100, 128, 129):
        one(r.choice([128, 256]), ctx.octets(n), b'label', b'data')
    for n in (0, 1, 30, 52, 53, 54, 55, 62, 63, 64, 65, 100, 200):
        one(160, ctx.octets(20), b'lbl', ctx.octets(n))
        one(168, ctx.octets(20), ctx.octets(n), b'lbl')
    # zero octets in label and data: the border between them shifts
    one(160, b'k', b'a\0', b'b')
    one(160, b'k', b'a', b'\0b')
    one(160, b'k', b'', b'\0\0')
    one(160, b'k', b'\0\0', b'')
    for bits in [1, 2, 7, 9, 15, 17, 127, 129, 159, 161, 255, 260, 511, 513] + [8 * r.randrange(1, 100) + r.randrange(1, 8) for _ in range(12)]:
        one(bits, b'key', b'label', b'data')
        ops[-1].cost = 1
    for n in (128, 192, 256, 384, 512, 768):
        k, l, d = ctx.octets(32), b'Pairwise key expansion', ctx.octets(76)
        ops.append(Op('mac_prfN', [n], [k, l, d], cost=50))
        for _ in range(ctx.n(5, 60)):
            ops.append(Op('mac_prfN', [n], [ctx.octets(r.choice([16, 32, 70])), ctx.octets(r.randrange(24)), ctx.octets(r.randrange(80))], cost=50))
    for _ in range(ctx.n(60, 2000)):
        one(8 * r.randrange(1, 110), ctx.octets(r.randrange(80)), ctx.octets(r.randrange(30)), ctx.octets(r.randrange(90)))
    r.shuffle(ops)
    ops = crossed(ops, {'mac_prf': [0], 'mac_prfN': []}, r, ctx.n(30, 500))
    return batch(ops, 12, 'calls', timeout=180), []


MIX = ['the S-boxes of the key mixing follow the AES S-box as defined in the specification']
PLANS = {
    'C24': Plan('wireless', 'model_checking', 'one call per step: objects of both classes and versions keyed, re-keyed and asked in every order, all lengths up to 40, all priorities and sizes of addresses; distinct by (operation, arguments)',
                c24, 'Quint behaviours replayed into the code and recorded sessions validated as traces (machine wireless)', 'objects and their keys are the state', BASE,
                lambda o: o.op in ('wl_hash', 'wl_call', 'wl_mic', 'wl_setKey'), 700),
    'C25': Plan('wireless', 'exploration', 'one new mixer per case: fixed, single-octet and random keys, addresses and packet numbers, every low octet; distinct by arguments',
                c25, 'Quint trace validation of recorded calls (machine wireless)', 'every recorded key is computed again by the Quint definition', BASE, lambda o: True, 1000),
    'C26': Plan('wireless', 'model_checking', 'one call per step: several mixers, keys, addresses and packet numbers set in any order, numbers sharing some or all upper octets; distinct by (operation, arguments)',
                c26, 'Quint behaviours replayed into the code and recorded sessions validated as traces (machine wireless)', 'the specification has no phase 1 key to go stale', BASE,
                lambda o: o.op == 'wl_newKey', 700),
    'C27': Plan('macs', 'model_checking', 'one call per step: key lengths around block and digest size of nine hashes, interleaved objects, splits, digests between updates; distinct by (operation, arguments)',
                c27, 'Quint behaviours replayed into the code and recorded sessions validated as traces (machine macs)', 'hash, key and octets taken in are the state',
                BASE + ['the hash packages HMAC imports (crypto.hash) are not in the repository: SHA-1 comes from the standard library and other hashes are toy hashes with the documented interface'],
                lambda o: o.op in ('mac_hmac', 'mac_digest', 'mac_call'), 800),
    'C28': Plan('macs', 'exploration', 'one derivation per case: sizes around multiples of the digest up to 10,000, passwords up to and beyond 63 octets, 1 to 1000 iterations, the 802.11 mapping; distinct by arguments',
                c28, 'Quint trace validation of recorded calls (machine macs)', 'every derived key is computed again by the Quint definition',
                BASE + ['4096 iterations are mostly judged with a toy hash in place of SHA-1'], lambda o: True, 250),
    'C29': Plan('macs', 'exploration', 'one call per case: every multiple of eight bits up to 336, sizes around multiples of 160 up to 255 blocks, key lengths around the block; distinct by arguments',
                c29, 'Quint trace validation of recorded calls (machine macs)', 'every result is computed again by the Quint definition', BASE, lambda o: True, 200),
}
