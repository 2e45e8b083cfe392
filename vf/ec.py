"""Small curves and the table of predefined curves, for making inputs only."""
import os, re
from . import core


def table():
    """The rows of spec/curvetable.qnt."""
    rows = []
    text = open(os.path.join(core.SPEC, 'curvetable.qnt')).read()
    pat = re.compile(r'\{ name: \{ n: (\d+), v: (\w+) \}, id: \{ n: (\d+), v: (\w+) \}, fam: (\d), alias: (\w+),\s*'
                     r'p: (\w+), a: (\w+), b: (\w+),\s*xG: (\w+), yG: (\w+),\s*n: (\w+), h: (\w+), size: (\w+), oid: List\(([^)]*)\),\s*extras: List\(([^)]*)\)')
    for m in pat.finditer(text):
        g = m.groups()
        o = lambda n, v: int(v, 0).to_bytes(int(n), 'big').decode()
        rows.append(dict(name=o(g[0], g[1]), id=o(g[2], g[3]), fam=int(g[4]), alias=g[5] == 'true',
                         p=int(g[6], 0), a=int(g[7], 0), b=int(g[8], 0), xG=int(g[9], 0), yG=int(g[10], 0),
                         n=int(g[11], 0), h=int(g[12], 0), size=int(g[13], 0)))
    for r in rows:
        r['kind'] = 1 if r['fam'] <= 2 else 2 if r['fam'] <= 4 else 3
    assert len(rows) == len(re.findall("fam: [0-9]", text)), len(rows)
    return rows


def is_square(a, p):
    return a % p == 0 or pow(a, (p - 1) // 2, p) == 1


def sqrt(a, p):
    """a root of a square modulo an odd prime (Tonelli and Shanks)"""
    a %= p
    if a == 0:
        return 0
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q, s = q // 2, s + 1
    z = 2
    while is_square(z, p):
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u, i = u * u % p, i + 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def on(kind, p, a, b, x, y):
    if kind == 1:
        return (y * y - (x * x + a) * x - b) % p == 0
    if kind == 2:
        return (a * x * x + y * y - 1 - b * x * x * y * y) % p == 0
    return (y * y - ((x + a) * x + 1) * x) % p == 0


def points(kind, p, a, b):
    return [(x, y) for x in range(p) for y in range(p) if on(kind, p, a, b, x, y)]


def valid(kind, p, a, b):
    if kind == 1:
        return (4 * a ** 3 + 27 * b * b) % p != 0
    if kind == 2:
        return a % p and b % p and (a - b) % p and is_square(a, p) and not is_square(b, p)
    return (a * a - 4) % p != 0


def lift(kind, p, a, b, x):
    """a point with this x coordinate, or None"""
    x %= p
    if kind == 1:
        rhs = (x * x + a) * x + b
    elif kind == 3:
        rhs = ((x + a) * x + 1) * x
    else:
        den = (1 - b * x * x) % p
        if den == 0:
            return None
        rhs = (1 - a * x * x) * pow(den, -1, p)
    if not is_square(rhs, p):
        return None
    return x, sqrt(rhs, p)


def add(kind, p, a, b, u, v):
    if kind == 2:
        t = b * u[0] * v[0] * u[1] * v[1]
        return ((u[0] * v[1] + v[0] * u[1]) * pow(1 + t, -1, p) % p, (u[1] * v[1] - a * u[0] * v[0]) * pow(1 - t, -1, p) % p)
    if u is None:
        return v
    if v is None:
        return u
    a2, a4 = (0, a) if kind == 1 else (a, 1)
    if u[0] == v[0]:
        if (u[1] + v[1]) % p == 0:
            return None
        l = (3 * u[0] ** 2 + 2 * a2 * u[0] + a4) * pow(2 * u[1], -1, p)
    else:
        l = (v[1] - u[1]) * pow(v[0] - u[0], -1, p)
    x = (l * l - a2 - u[0] - v[0]) % p
    return x, (l * (u[0] - x) - u[1]) % p


def order(kind, p, a, b, q):
    e = (0, 1) if kind == 2 else None
    n, r = 1, q
    while r != e:
        r, n = add(kind, p, a, b, r, q), n + 1
    return n
