"""C10 - C14: the groups of points; C15, C16: parameters and keys."""
from .base import *
from .plan_cipher import BASE
from . import ec

ROWS = ec.table()
KIND = {1: [r for r in ROWS if r['kind'] == 1], 2: [r for r in ROWS if r['kind'] == 2], 3: [r for r in ROWS if r['kind'] == 3]}
REAL = {k: [r for r in v if not r['alias']] for k, v in KIND.items()}


def small_curves(ctx, kind, primes, limit):
    """parameters of small curves, all or a sample"""
    cs = []
    for p in primes:
        all_ = []
        for a in range(p):
            for b in (range(p) if kind != 3 else [0]):
                if ec.valid(kind, p, a, b):
                    all_.append((kind, p, a, b))
        if len(all_) > limit:
            all_ = ctx.rnd.sample(all_, limit)
        cs += all_
    return cs


def op_curve(c, enum=1, aux=()):
    return Op('grp_curve', list(c) + [enum], aux=list(aux))


def big(row):
    return op_curve((row['kind'], row['p'], row['a'], row['b']), 0, ['class', row['name']])


def gen(row, r=0):
    return Op('grp_gen', [r, row['xG'], row['yG']])


def codes(c):
    kind, p, a, b = c
    return [x * p + y for x, y in ec.points(kind, p, a, b)] + ([p * p] if kind != 2 else [])


def no_multiples(b):
    """replay without scalar multiplication: the result is loaded"""
    op, xs, ss, ok, ri, rs = b
    if op in ('mul', 'rmul'):
        if ri[0] == 1:
            return [Op('grp_ident', [xs[0]], want=(ok, ri, rs))]
        return [Op('grp_load', [xs[0], ri[1], ri[2]], want=(ok, ri, rs))]
    if op == 'load' and not ok:
        return []
    if op == 'curve':
        return [Op('grp_curve', xs, want=(ok, ri, rs))]
    return [Op('grp_' + op, xs, ss, want=(ok, ri, rs))]


def only_multiples(b):
    """replay of the scalar multiplications; everything else is loaded"""
    op, xs, ss, ok, ri, rs = b
    if op in ('add', 'sub', 'neg', 'dbl'):
        if ri[0] == 1:
            return [Op('grp_ident', [xs[0]], want=(ok, ri, rs))]
        return [Op('grp_load', [xs[0], ri[1], ri[2]], want=(ok, ri, rs))]
    if op == 'load' and not ok:
        return []
    return [Op('grp_' + op, xs, ss, want=(ok, ri, rs))]


def law(ctx, kind, primes, limit, larger):
    """addition, subtraction, negation and doubling: all pairs of points of
    small curves, samples on larger ones, sessions on the predefined curves"""
    r = ctx.rnd
    units = []
    for c in small_curves(ctx, kind, primes, limit):
        cs = codes(c)
        ops = [op_curve(c), Op('grp_negAll', cost=1 + len(cs) / 8), Op('grp_dblAll', cost=1 + len(cs) / 8)]
        for k in cs:
            ops.append(Op('grp_addAll', [k], cost=1 + len(cs) / 8))
        some = cs if len(cs) <= 12 or ctx.deep else r.sample(cs, 6) + cs[-1:]
        for k in some:
            ops.append(Op('grp_subAll', [k], cost=1 + len(cs) / 8))
            ops.append(Op('grp_eqAll', [k], cost=1 + len(cs) / 40))
        units.append(session(ops, 'small curve %s' % (c,)))
    for p in larger:
        for _ in range(ctx.n(2, 8)):
            while True:
                c = (kind, p, r.randrange(-3, p), r.randrange(p) if kind != 3 else 0)
                if ec.valid(*c):
                    break
            pts = [q for q in (ec.lift(*c, r.randrange(p)) for _ in range(60)) if q]
            pts += [(x, 0) for x in range(p) if ec.on(*c, x, 0)][:3] if p < 5000 and kind != 2 else []
            if kind == 2:
                pts += [q for q in [(0, 1), (0, p - 1)] if ec.on(*c, *q)]
            if pts:
                units.append(walk(ctx, c, op_curve(c, 0), [Op('grp_load', [0, *r.choice(pts)])], pts, 40))
    for row in REAL[kind]:
        c = (kind, row['p'], row['a'], row['b'])
        g = (row['xG'], row['yG'])
        pts = [g] + [q for q in (ec.lift(*c, r.randrange(row['p'])) for _ in range(8)) if q]
        pts += [q for q in (ec.lift(*c, x) for x in (0, 1, 2, row['p'] - 1)) if q]
        # another point with the same y: chords of slope zero
        if kind == 1:
            p, a = row['p'], row['a']
            for x, y in list(pts):
                d = -3 * x * x - 4 * a
                if ec.is_square(d, p):
                    x2 = (ec.sqrt(d, p) - x) * (p + 1) // 2 % p
                    assert ec.on(*c, x2, y)
                    pts.append((x2, y))
        units.append(walk(ctx, c, big(row), [gen(row, 0)], pts, ctx.n(28, 120), row['name']))
    return units


def walk(ctx, c, first, start, pts, n, name=''):
    """a session of group operations in registers"""
    kind, p = c[0], c[1]
    r = ctx.rnd
    ops = [first] + start
    for k in range(1, 4):
        x, y = r.choice(pts)
        ops.append(Op('grp_load', [k, x, r.choice([y, -y % p]) if kind != 2 else y]))
    ops.append(Op('grp_ident', [4]))
    ops += [Op('grp_neg', [5, 0]), Op('grp_add', [6, 0, 5]), Op('grp_dbl', [7, 0]), Op('grp_add', [5, 0, 0]), Op('grp_eq', [5, 7]), Op('grp_sub', [6, 5, 7]),
            Op('grp_add', [6, 4, 1]), Op('grp_add', [6, 1, 4]), Op('grp_sub', [6, 4, 2]), Op('grp_sub', [6, 2, 4]), Op('grp_dbl', [6, 4]), Op('grp_neg', [6, 4]),
            Op('grp_sub', [6, 4, 4]), Op('grp_add', [6, 4, 4]), Op('grp_dump', [0, 1, 2, 3, 4, 5, 6, 7])]
    regs = list(range(8))
    for _ in range(n):
        k = r.random()
        t, u, v = r.choice(regs), r.choice(regs), r.choice(regs)
        if k < .35:
            ops.append(Op('grp_add', [t, u, v]))
        elif k < .6:
            ops.append(Op('grp_sub', [t, u, v]))
        elif k < .7:
            ops.append(Op('grp_neg', [t, u]))
        elif k < .85:
            ops.append(Op('grp_dbl', [t, u]))
        elif k < .95:
            ops.append(Op('grp_eq', [u, v]))
        else:
            ops.append(Op('grp_dump', regs))
    ops.append(Op('grp_dump', regs))
    return session(ops, 'walk %s %s' % (c, name) if not name else 'walk ' + name)


def c10(ctx):
    rep = ctx.behaviours('groups', ctx.n(40, 500), ctx.n(30, 50), 'closed', init='init1', prefix='grp_', adapt=no_multiples)
    units = law(ctx, 1, [5, 7, 11, 13] if not ctx.deep else [5, 7, 11, 13, 17, 19, 23, 29, 31], ctx.n(14, 60), [101, 1009, 65537, 2 ** 61 - 1, 2 ** 89 - 1])
    # curves with three points of order 2, Koblitz curves, a = -3
    for c in [(1, 5, -1, 0), (1, 7, -1, 0), (1, 13, -4, 0), (1, 11, 0, 3), (1, 7, 0, 1), (1, 13, 0, 2), (1, 17, -3, 2), (1, 19, -3, 5), (1, 23, 1, 0)]:
        if ec.valid(*c):
            cs = codes(c)
            ops = [op_curve(c), Op('grp_negAll'), Op('grp_dblAll')] + [Op(o, [k], cost=1 + len(cs) / 8) for k in cs for o in ('grp_addAll', 'grp_subAll', 'grp_eqAll')]
            units.append(session(ops, 'small curve %s' % (c,)))
    return units, rep


def c12(ctx):
    rep = ctx.behaviours('groups', ctx.n(40, 500), ctx.n(30, 50), 'closed', init='init2', prefix='grp_', adapt=no_multiples)
    units = law(ctx, 2, [5, 7, 11, 13, 17] if not ctx.deep else [5, 7, 11, 13, 17, 19, 23, 29, 31, 37], ctx.n(10, 40), [101, 1009, 65537, 2 ** 61 - 1, 2 ** 89 - 1])
    return units, rep


def ladder_scalars(ctx, row):
    r, p, n = ctx.rnd, row['p'], row['n']
    top = max(255, 8 * row['size'])
    return [0, 1, 2, 3, n - 1, n, n + 1, 2 ** 254, 2 ** 255 - 1, 2 ** 254 + 8 * r.getrandbits(250), 2 ** top - 1, 2 ** (top - 1), r.getrandbits(top), r.getrandbits(64)]


def c13(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('groups', ctx.n(40, 500), ctx.n(30, 50), 'closed', init='init3', prefix='grp_', adapt=no_multiples)
    units = law(ctx, 3, [5, 7, 11, 13, 17, 19] if not ctx.deep else [5, 7, 11, 13, 17, 19, 23, 29, 31, 37], 40, [101, 1009, 65537, 2 ** 61 - 1, 2 ** 89 - 1])
    for c in small_curves(ctx, 3, ctx.n([5, 7, 11, 13, 17], [5, 7, 11, 13, 17, 19, 23]), ctx.n(4, 40)):
        n = len(codes(c))
        ks = list(range(0, 2 * n + 2)) if ctx.deep else list(range(0, n + 3))
        ks += [2 ** 254, 2 ** 255 - 1, 2 ** 255 - 19, r.getrandbits(255), r.getrandbits(200), 2 ** 128, n * 10 ** 20]
        ops = [op_curve(c)]
        for k in ks:
            ops += [Op('grp_ladderAll', [w, k], cost=2 + n * k.bit_length() / 20) for w in (0, 1)]
        units.append(session(ops, 'ladders on %s' % (c,)))
    for row in REAL[3]:
        c = (3, row['p'], row['a'], 0)
        pts = [q for q in (ec.lift(*c, x) for x in [1, 2, row['p'] - 1] + [r.randrange(1, row['p']) for _ in range(ctx.n(6, 30))]) if q]
        ks = ladder_scalars(ctx, row)
        part = [(gen(row, 0), ks)] + [(Op('grp_load', [0, *q]), r.sample(ks, 5) + [r.getrandbits(250)]) for q in pts]
        for i, (start, scalars) in enumerate(part):
            ops = [big(row), start]
            for k in scalars:
                ops += [Op('grp_ladder', [w, 0, k], cost=20) for w in (0, 1)]
            ops.append(Op('grp_dump', [0]))
            units.append(session(ops, 'ladders on ' + row['name']))
    # primes of other sizes, a not 2 modulo 4
    for p in (101, 257, 65537, 2 ** 31 - 1, 2 ** 61 - 1, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 521 - 1):
        for _ in range(ctx.n(1, 4)):
            a = r.randrange(3, p - 3)
            q = next(q for q in iter(lambda: ec.lift(3, p, a, 0, r.randrange(1, p)), 0) if q)
            ops = [op_curve((3, p, a, 0), 0), Op('grp_load', [0, *q])]
            for k in (0, 1, 2, 5, r.getrandbits(255), r.getrandbits(100), 2 ** 255 - 1):
                ops += [Op('grp_ladder', [w, 0, k], cost=15) for w in (0, 1)]
            units.append(session(ops, 'ladders modulo %d' % p))
    return units, rep


def c11(ctx):
    r = ctx.rnd
    rep = ctx.behaviours('groups', ctx.n(48, 600), ctx.n(30, 50), 'closed', prefix='grp_', adapt=only_multiples)
    units = []
    for kind, primes in ((1, [5, 7, 11, 13]), (2, [5, 7, 11, 13, 17]), (3, [5, 7, 11, 13, 17])):
        for c in small_curves(ctx, kind, primes if not ctx.deep else primes + [19, 23, 29], ctx.n(3, 12)):
            n = len(codes(c))
            ks = list(range(-n - 2, 2 * n + 2)) if ctx.deep else list(range(-n // 2 - 2, n + 3))
            ks += [10 ** 12 + 39, -(2 ** 70) - 5, 2 ** 64, 2 ** 64 - 1, r.getrandbits(300), -r.getrandbits(130), n * 2 ** 90, 2 ** 32, 2 ** 31, -2 ** 31, 2 ** 63]
            ops = [op_curve(c)]
            for k in ks:
                ops.append(Op(r.choice(['grp_mulAll', 'grp_mulAll', 'grp_rmulAll']), [k], cost=1 + n * k.bit_length() / 60))
            units.append(session(ops, 'multiples on %s' % (c,)))
    # curves with three points of order two (and their scalars)
    for c in [(1, 5, -1, 0), (1, 7, -1, 0), (1, 13, -4, 0), (1, 23, 1, 0), (3, 13, 6, 0), (3, 17, 3, 0)]:
        if ec.valid(*c):
            ops = [op_curve(c)] + [Op(o, [k], cost=3) for k in range(-9, 10) for o in ('grp_mulAll', 'grp_rmulAll')]
            units.append(session(ops, 'multiples on %s' % (c,)))
    for kind in (1, 2, 3):
        for row in REAL[kind]:
            c = (kind, row['p'], row['a'], row['b'])
            n, h = row['n'], row['h']
            b = n.bit_length()
            cost = (row['p'].bit_length() / 100) ** 2 * 8
            fixed = [0, 1, 2, 3, -1, -2, n - 1, n, n + 1, -n, 2 * n, n // 2, 2 ** (b - 1), 2 ** b - 1, 3 * n + 7, n - 2, -(n - 1), (n + 1) // 2, 2 ** 64 - 1, 2 ** 63, 2 ** 32, 2 ** 31, h * n, h]
            rand = [r.getrandbits(b) for _ in range(3)] + [r.getrandbits(2 * b), -r.getrandbits(b), r.getrandbits(62), r.getrandbits(33)]
            must = [n, n + 1, r.choice([0, -1, -n, n - 1]), rand[0]]
            ks = must + r.sample(fixed, ctx.n(4, 24)) + r.sample(rand, ctx.n(2, 7))
            if ctx.deep:
                ks += [r.getrandbits(b) for _ in range(20)] + [2 ** k for k in range(0, b, 37)] + [2 ** k - 1 for k in range(1, b, 41)]
            ops = [big(row), gen(row, 0)]
            for k in ks:
                ops.append(Op(r.choice(['grp_mul', 'grp_rmul']), [1, 0, k], cost=cost * max(1, k.bit_length()) / b))
            # a random point, and (where there are any) points outside the subgroup
            q = next(q for q in iter(lambda: ec.lift(*c, r.randrange(row['p'])), 0) if q)
            ops.append(Op('grp_load', [2, *q]))
            for k in [n, h * n, r.choice(rand), 0, r.choice(fixed)]:
                ops.append(Op(r.choice(['grp_mul', 'grp_rmul']), [3, 2, k], cost=cost * max(1, k.bit_length()) / b))
            if kind == 2:
                ops += [Op('grp_load', [4, 0, row['p'] - 1]), Op('grp_mul', [5, 4, 2]), Op('grp_rmul', [5, 4, 3]), Op('grp_mul', [5, 4, -1]), Op('grp_mul', [5, 4, n])]
            if kind == 3:
                ops += [Op('grp_load', [4, 0, 0]), Op('grp_mul', [5, 4, 2]), Op('grp_rmul', [5, 4, 3]), Op('grp_mul', [5, 4, -1]), Op('grp_mul', [5, 4, n])]
            ops += [Op('grp_ident', [6]), Op('grp_mul', [7, 6, 5]), Op('grp_mul', [7, 6, 0]), Op('grp_rmul', [7, 6, -3]), Op('grp_mul', [7, 6, n])]
            ops.append(Op('grp_dump', [0, 1, 2, 3, 6, 7]))
            units.append(session(ops, 'multiples on ' + row['name']))
    # lengths and bit patterns of the scalar: one less and more than powers of
    # two, than a third and two thirds of them, alternating and single bits
    def patterned():
        for b in range(1, 30) if ctx.deep else r.sample(range(1, 30), 6):
            yield from {2 ** b, 2 ** b - 1, 2 ** b + 1, 2 ** b // 3, 2 ** b // 3 + 1, 2 ** b // 3 + 2}
        for b in [31, 32, 33, 47, 48, 49, 52, 53, 54, 62, 63, 64, 65, 66] + [r.randrange(67, 530) for _ in range(ctx.n(6, 60))]:
            yield from r.sample([2 ** b, 2 ** b - 1, 2 ** b + 1, 2 ** b // 5, 2 ** b - 2 ** (b // 2), 2 ** b + 2 ** (b // 2)], ctx.n(2, 6))
            yield from (2 ** b // 3, 2 ** b // 3 + 1)
    for kind in (1, 2, 3):
        for p in (233, 1009, 10007, 2 ** 31 - 1) if ctx.deep else (1009, 10007):
            for _ in range(ctx.n(1, 3)):
                while True:
                    c = (kind, p, r.randrange(p), r.randrange(p) if kind != 3 else 0)
                    q = ec.lift(*c, r.randrange(2, p)) if ec.valid(*c) else None
                    if q:
                        break
                ops = [op_curve(c, 0), Op('grp_load', [0, *q])]
                for k in sorted(set(patterned())):
                    ops.append(Op(r.choice(['grp_mul', 'grp_mul', 'grp_rmul']), [1, 0, k if r.random() < .8 else -k], cost=1 + k.bit_length() / 60))
                units.append(session(ops, 'patterned scalars on %s' % (c,)))
    # more than a thousand bits
    for name in ('SECP_192r1', 'Ed25519', 'Curve25519') + (('NIST_P521', 'E521', 'M511') if ctx.deep else ()):
        row = next(x for x in ROWS if x['name'] == name)
        ops = [big(row), gen(row, 0)]
        for k in (r.getrandbits(1200), 2 ** 1500 + 1) + ((r.getrandbits(4000),) if ctx.deep else ()):
            ops.append(Op('grp_mul', [1, 0, k], cost=60))
        units.append(session(ops, 'long scalars on ' + name))
    return units, rep


def c14(ctx):
    r = ctx.rnd
    units = []
    for kind, primes in ((1, [5, 7, 11, 13]), (2, [5, 7, 11, 13, 17]), (3, [5, 7, 11, 13])):
        for c in small_curves(ctx, kind, primes if not ctx.deep else primes + [19, 23, 29, 31], ctx.n(6, 40)):
            ops = [op_curve(c), Op('grp_points', [kind], cost=1 + c[1] ** 2 / 200), Op('grp_encodeAll', cost=2), Op('grp_textAll', cost=2)]
            if kind == 1:
                ops.append(Op('grp_yAll', cost=2))
            units.append(session(ops, 'small curve %s' % (c,)))
    # decompression for primes of every kind, up to a few thousand values each
    for p in [17, 19, 29, 31, 37, 41, 73, 89, 97, 113, 193, 241, 257, 449] + ([577, 769, 1009, 1153] if ctx.deep else []):
        for _ in range(ctx.n(1, 4)):
            while True:
                c = (1, p, r.randrange(p), r.randrange(p))
                if ec.valid(*c):
                    break
            units.append(session([op_curve(c, 1 if p < 60 else 0)] + ([Op('grp_yAll', cost=p / 20)] if p < 60 else
                                 [Op('grp_y', [x]) for x in r.sample(range(p), min(p, 60))]), 'decompression modulo %d' % p))
    # sizes of the encoding: primes around octet borders
    for p in (251, 257, 65521, 65537, 2 ** 31 - 1, 4294967291, 4294967311, 2 ** 61 - 1, 2 ** 127 - 1):
        for kind in (1, 2, 3):
            while True:
                c = (kind, p, r.randrange(1, p), r.randrange(1, p) if kind != 3 else 0)
                if ec.valid(*c):
                    break
            ops = [op_curve(c, 0)]
            xs = [0, 1, 2, 3, 255, 256, p - 1] + [r.randrange(p) for _ in range(12)] + [r.randrange(min(p, 256)) for _ in range(6)]
            for x in xs:
                q = ec.lift(*c, x)
                if q:
                    ops += [Op('grp_load', [0, *q])] + [Op('grp_' + o, [0]) for o in ('encode', 'xoct', 'xyoct', 'text')]
            ops += [Op('grp_ident', [1]), Op('grp_text', [1])]
            units.append(session(ops, 'encoding modulo %d' % p))
    for row in ROWS:
        kind, p, a, b = row['kind'], row['p'], row['a'], row['b']
        c = (kind, p, a, b)
        x, y = row['xG'], row['yG']
        ops = [big(row), gen(row, 0), Op('grp_dump', [0]), Op('grp_encode', [0]), Op('grp_load', [1, x, p - y if kind != 2 else y])]
        near = [(x, (y + 1) % p), (x, (y - 1) % p), ((x + 1) % p, y), (y, x), (0, 0), (0, 1), (1, 0), (1, 1), (0, p - 1), (p - 1, p - 1), (p - x, y), (x, y ^ 1), (x, y ^ (1 << (p.bit_length() - 2)))]
        near += [(x ^ (1 << r.randrange(p.bit_length() - 1)), y), (x, y ^ (1 << r.randrange(p.bit_length() - 1))), (r.randrange(p), r.randrange(p))]
        for u, v in near:
            if 0 <= u < p and 0 <= v < p:
                ops.append(Op('grp_load', [2, u, v], cost=2))
        for t in range(ctx.n(4, 25)):
            q = ec.lift(*c, r.randrange(p) >> (8 if t % 2 else 0))
            if q:
                ops += [Op('grp_load', [3, *q])] + [Op('grp_' + o, [3]) for o in ('encode', 'xoct', 'xyoct', 'text')]
        # a y coordinate with a leading zero octet
        for _ in range(2000):
            q = ec.lift(*c, r.randrange(p))
            if q and q[1] and kind != 2:
                q = (q[0], min(q[1], p - q[1]))
            if q and q[1] >> (8 * row['size'] - 8) == 0:
                ops += [Op('grp_load', [3, *q]), Op('grp_encode', [3]), Op('grp_xyoct', [3])]
                break
        ops += [Op('grp_ident', [4]), Op('grp_text', [4])]
        if kind == 1:
            for u in [x, 0, 1, p - 1] + [r.randrange(p) for _ in range(ctx.n(4, 25))]:
                ops.append(Op('grp_y', [u], cost=4))
        units.append(session(ops, row['name'], timeout=120))
    return units, []


def c15(ctx):
    units = []
    names = [r['name'] for r in ROWS]
    step = 4

    def lists():
        yield Op('par_list', [0])
        for k in range(1, 6):
            yield Op('par_list', [k])
        yield Op('par_ids')
        o = yield Op('par_classes')
        # curves the table does not know must be sound as well
        for n in (o.rs if o.ok else []):
            if n.decode('latin-1') not in names and n not in BASES:
                yield Op('par_params', [], [n], cost=20)
        yield Op('par_ids')
    BASES = {b'EllipticCurveFp', b'EllipticCurve', b'SmallWeierstrassCurveFp', b'KoblitzCurveFp', b'TwistedEdwardsCurveFp', b'EdwardsCurveFp', b'MontgomeryCurveFp',
             b'Point', b'EllipticCurveError', b'object'}
    units.append(Unit(lists, 'lists'))
    order = sorted(ROWS, key=lambda r: -r['p'])
    for k in range(12):
        part = order[k::12]
        units.append(session([Op('par_params', [], [r['name'].encode()], cost=(r['size'] / 20) ** 3) for r in part], 'parameters %d' % k))
    # asked again in another order: nothing depends on what was asked before
    rows = ROWS[:]
    ctx.rnd.shuffle(rows)
    units.append(session([Op('par_params', [], [r['name'].encode()], cost=1) for r in rows[:6]], 'parameters again'))
    return units, []


def c16(ctx):
    r = ctx.rnd
    units = []
    # small curves of prime order, found by counting
    smalls = []
    for p in (7, 11, 13, 17, 19, 23, 29):
        for a in range(p):
            for b in range(p):
                if ec.valid(1, p, a, b):
                    n = len(codes((1, p, a, b)))
                    if n in (5, 7, 11, 13, 17, 19, 23, 29, 31) and all(s[0] != n for s in smalls):
                        smalls.append((n, p, a, b) + ec.points(1, p, a, b)[0])
    for row in [x for x in ROWS if x['kind'] == 1]:
        n, name = row['n'], row['name']
        ops = []
        for m in [0, 1, 2, n - 2, n - 1, n, n + 1, 2 * n - 1, 'ff', n - 3, 2 ** (n.bit_length() - 1), 2 ** n.bit_length() - 1, (n - 1) * 256, (n - 1) << 64, ((n - 1) << 64) - 1, (n << 64) - 1]:
            ops.append(Op('key_key', [n, 0], aux=[m, 'class', name]))
        for _ in range(3):
            ops.append(Op('key_key', [n, 1], aux=['real', 'class', name]))
        long_ = name in ('NIST_P256', 'BrainPoolP160r1', 'NIST_P521', 'SECP_192r1', 'GOST2012_test') or ctx.deep
        for _ in range(260 if long_ else 12):
            ops.append(Op('key_key', [n, 1], aux=['regular %s %d' % (name, ctx.seed), 'class', name]))
        if long_:
            ops.append(Op('key_range', [n]))
        units.append(session(ops, name, timeout=120))
    for s in smalls:
        n = s[0]
        rest = ['small'] + list(s[1:])
        ops = [Op('key_key', [n, 0], aux=[m] + rest) for m in [0, 1, 2, n - 2, n - 1, n, n + 1, 2 * n - 1, 'ff'] + list(range(0, 256, 5))]
        ops.append(Op('key_spread', [n], aux=['spread %d %d' % (n, ctx.seed), 4000] + rest))
        units.append(session(ops, 'order %d' % n, timeout=120))
    return units, []


EXTRA = ['inputs with coordinates outside [0, p) are not examined']
PLANS = {
    'C10': Plan('groups', 'model_checking', 'register machine over Weierstrass groups: all pairs of points of small curves, walks over larger and all predefined curves, replayed behaviours; distinct by (operation, arguments) within a unit',
                c10, 'Quint state machine: replayed behaviours and trace validation', 'machine groups with invariant closed, both directions of conformance', BASE + EXTRA, lambda o: o.op not in ('grp_curve', 'grp_load', 'grp_ident'), 500),
    'C11': Plan('groups', 'model_checking', 'multiples of all points of small curves of every family by all scalars around the group order, and of points of all predefined curves (outside the subgroup too) by edge and random scalars; distinct by (operation, arguments)',
                c11, 'Quint state machine: replayed behaviours and trace validation', 'machine groups; multiples are specified in projective coordinates, independently of the code', BASE + EXTRA, lambda o: 'mul' in o.op, 500),
    'C12': Plan('groups', 'model_checking', 'register machine over complete Edwards groups: all pairs of points of small curves, walks over larger and all predefined curves, replayed behaviours; distinct by (operation, arguments)',
                c12, 'Quint state machine: replayed behaviours and trace validation', 'machine groups with invariant closed, both directions of conformance', BASE + EXTRA, lambda o: o.op not in ('grp_curve', 'grp_load', 'grp_ident'), 500),
    'C13': Plan('groups', 'model_checking', 'register machine over Montgomery groups as for C10, and both ladders on all points of small curves and on points of the predefined curves; distinct by (operation, arguments)',
                c13, 'Quint state machine: replayed behaviours and trace validation', 'machine groups with invariant closed, both directions of conformance', BASE + EXTRA, lambda o: o.op not in ('grp_curve', 'grp_load', 'grp_ident'), 500),
    'C14': Plan('groups', 'exploration', 'every coordinate pair of small curves, near misses on all predefined curves, decompression of every x for small primes of every residue class and of random x on the predefined curves, encodings with leading zeros; distinct by (operation, arguments)',
                c14, 'Quint trace validation of recorded calls (machine groups)', 'every recorded call is judged by the curve equation of the specification', BASE + EXTRA, lambda o: o.op != 'grp_curve', 300),
    'C15': Plan('params', 'exploration', 'every class of curves.py: its parameters, identifiers and list membership; exhaustive over the predefined curves', c15,
                'Quint trace validation of recorded parameters (machine params)', 'the observed parameters are judged against the table of the standards and against primality, order, cofactor, seed and twist relations computed in Quint', BASE, lambda o: True, 45),
    'C16': Plan('keys', 'model_checking', 'keys of every Weierstrass curve under regular and extreme outcomes of the random source, small orders exhaustively over octet values; distinct by (curve order, source)',
                c16, 'Quint state machine: trace validation with the random source recorded', 'machine keys remembers the keys handed out', BASE + ['the random source is os.urandom, replaced by a recording one'], lambda o: True, 300),
}
