# -*- coding: latin-1 -*-
""" Runs operations of the specification on the real code (Jython 2.7).

    argv: scratch directory with a 'cryptopy' link to the tree under test.
    stdin: one JSON object per line {op, xs, ss, aux}; "reset" starts a new
    unit.  stdout: one JSON line per operation {ok, ri, rs, exc}.
    Integers travel as decimal strings, octet strings as hex.

    Modules of the tree are imported where they are used, so that a module
    which cannot be imported is an outcome of the call, not of the driver.
"""
import os, sys

# --- the random source, recorded (before anything imports it) ---
_real_urandom = os.urandom
class Source(object):
    mode = None        # None: the real source; else [first answer]
    rng = None         # regular source: our own generator
    log = []
def urandom(n):
    n = int(n)
    if Source.rng is None:
        out = _real_urandom(n)
    else:
        if Source.mode is not None:
            m, Source.mode = Source.mode, None
            out = m[0](n)
        else:
            out = Source.rng(n)
    Source.log.append(out)
    return out
os.urandom = urandom

import json, hashlib, types, imp, inspect

OUT = os.fdopen(os.dup(1), 'w', 0) if hasattr(os, 'dup') else sys.stdout
SCRATCH = sys.argv[1]
sys.stdout = sys.stderr          # prints of the code under test
sys.path.insert(0, SCRATCH)
REPO = os.path.join(SCRATCH, 'cryptopy')
sys.path.append(os.path.join(REPO, 'analysis'))

class Absent(Exception):
    """ an inner function that the tree does not have (any more): no verdict """
def inner(module, name, n):
    """ an inner function, taking n arguments: these may be renamed or given
        other arguments by a change that keeps what the user sees """
    f = getattr(module, name, None)
    try:
        args, star, _, defaults = inspect.getargspec(f)
    except TypeError:
        raise Absent(name)
    if not (len(args) - len(defaults or ()) <= n and (star or n <= len(args))):
        raise Absent(name)
    return f

class Bad(Exception):
    """ a result of the wrong type """

def I(x):
    if isinstance(x, (int, long)):
        return int(x)
    raise Bad('integer expected: %r' % (type(x),))
def O(x):
    if isinstance(x, str):
        return x
    raise Bad('octet string expected: %r' % (type(x),))

# --- stand-ins for packages the tree imports and does not contain ---
def module(name, **kw):
    m = types.ModuleType(name)
    for k, v in kw.items():
        setattr(m, k, v)
    sys.modules[name] = m
    if '.' in name:
        parent, _, leaf = name.rpartition('.')
        if parent not in sys.modules:
            module(parent)
        setattr(sys.modules[parent], leaf, m)
    m.__path__ = []
    return m

def s2v_(s):
    return int(s.encode('hex') or '0', 16)
def v2s_(v, n):
    return ('%0*x' % (2 * n, v)).decode('hex') if n else ''

def toyDigest(size, s):
    return v2s_((s2v_(s) * 0x9E3779B97F4A7C15F39CC0605CEDC835 + len(s) * 0x243F6A8885A308D313198A2E03707345 + 0x2545F491)
                % (256 ** size - 189), size)

class Hash(object):
    """ the interface of the library's hash functions """
    raw_block_size = 64
    digest_size = 20
    blocksize = 1
    name = 'hash'
    def __init__(self):
        self._buf = ''
    def reset(self):
        self._buf = ''
    def update(self, data):
        self._buf = self._buf + data
    def digest(self):
        return self.final_(self._buf)
    def hash(self, data, more=None):
        self.reset()
        self.update(data)
        return self.digest()
    def __call__(self, data, more=None):
        return self.hash(data)

class SHA1(Hash):
    name = 'SHA1'
    toy = False
    def final_(self, s):
        if SHA1.toy:
            return toyDigest(20, s)
        return hashlib.sha1(s).digest()
class MD5(Hash):
    name = 'MD5'
    digest_size = 16
    def final_(self, s):
        return toyDigest(16, s)
def toyHash(block, size):
    class Toy(Hash):
        name = 'toy'
        raw_block_size = block
        digest_size = size
        def final_(self, s):
            return toyDigest(size, s)
    return Toy

module('crypto.hash.hash', Hash=Hash)
module('crypto.hash.sha1Hash', SHA1=SHA1)
module('crypto.hash.md5Hash', MD5=MD5)
module('crypto.keyedHash')
module('crypto.cipher.rijndael')
module('binascii_plus')
import binascii
for _k in dir(binascii):
    if not _k.startswith('_') and _k not in ('class', 'getClass', 'classDictInit') and callable(getattr(binascii, _k)):
        setattr(sys.modules['binascii_plus'], _k, getattr(binascii, _k))

def aesTable():
    def mul(a, b):
        r = 0
        while b:
            if b & 1: r ^= a
            a <<= 1
            if a & 0x100: a ^= 0x11b
            b >>= 1
        return r
    t = []
    for x in range(256):
        inv = 0
        for y in range(256):
            if mul(x, y) == 1: inv = y
        r = 0x63
        for k in range(5):
            r ^= ((inv << k) | (inv >> (8 - k))) & 255
        t.append(r)
    return t
class LazyTable(object):
    t = None
    def get(self):
        if LazyTable.t is None: LazyTable.t = aesTable()
        return LazyTable.t
    def __getitem__(self, i): return self.get()[i]
    def __len__(self): return 256
    def __iter__(self): return iter(self.get())
sys.modules['crypto.cipher.rijndael'].Sbox = LazyTable()

class AesCipher(object):
    block_size = 16
    def __init__(self, key, mode=1, *args):
        if len(key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        if mode != 1:
            raise ValueError('only MODE_ECB here')
        from javax.crypto import Cipher
        from javax.crypto.spec import SecretKeySpec
        import jarray
        k = SecretKeySpec(jarray.array([signed(c) for c in key], 'b'), 'AES')
        self.e = Cipher.getInstance('AES/ECB/NoPadding')
        self.e.init(Cipher.ENCRYPT_MODE, k)
    def encrypt(self, data):
        import jarray
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        out = self.e.doFinal(jarray.array([signed(c) for c in data], 'b'))
        return ''.join([chr(b & 255) for b in out])
def signed(c):
    v = ord(c)
    return v - 256 if v > 127 else v
aes_module = module('Crypto.Cipher.AES', block_size=16, key_size=(16, 24, 32), MODE_ECB=1,
                    new=lambda key, *a, **k: AesCipher(key, *a, **k))

class ToyCipher(object):
    block_size = 16
    MODE_ECB = 1
    def __init__(self, key):
        self.k = s2v_(key)
    @staticmethod
    def new(key, *a, **k):
        return ToyCipher(key)
    def encrypt(self, data):
        assert len(data) % 16 == 0
        return ''.join([v2s_((s2v_(data[i:i + 16]) * 0x9E3779B97F4A7C15F39CC0605CEDC835 + self.k) % 2 ** 128, 16)
                        for i in range(0, len(data), 16)])

def load(path):
    """ cryptopy.<path> """
    name = 'cryptopy.' + path
    __import__(name)
    return sys.modules[name]
def hashmod(leaf):
    """ a module of hash/, under the package names it imports its relatives by """
    if 'crypto.common' not in sys.modules:
        m = load('cipher.common')
        sys.modules['crypto.common'] = m
        sys.modules['crypto'].common = m
    need = {'pbkdf2': [('hmac', 'hmacHash')], 'tkip_mic': [('michael', 'michael')]}.get(leaf, [])
    for src, dst in need:
        m = load('hash.' + src)
        sys.modules['crypto.keyedHash.' + dst] = m
        setattr(sys.modules['crypto.keyedHash'], dst, m)
    return load('hash.' + leaf)

OPS = {}
def op(f):
    OPS[f.__name__.rstrip('_')] = f
    return f
S = {}        # objects of the current unit

# ---------------------------------------------------------------- C01 C02
@op
def stream_new(x, s, a):
    S[x[0]] = load('cipher.chacha_poly').ChaCha(s[0], x[1], s[1])
    return [], []
@op
def stream_oneshot(x, s, a):
    c = load('cipher.chacha_poly').ChaCha(s[0], counter=x[0], nonce=s[1])
    return [], [O(c.decrypt(s[2]) if x[1] == 1 else c.encrypt(s[2]))]
@op
def stream_long(x, s, a):
    c = load('cipher.chacha_poly').ChaCha(s[0], x[0], s[1])
    return [], [O(c.encrypt(s[2]))]
@op
def stream_crypt(x, s, a):
    c = S[x[0]]
    return [], [O(c.decrypt(s[0]) if x[1] == 1 else c.encrypt(s[0]))]
@op
def stream_newRandom(x, s, a):
    del Source.log[:]
    S[x[0]] = load('cipher.chacha_poly').ChaCha(s[0], x[1])
    drawn = ''.join(Source.log)
    return [], [drawn] if len(drawn) == 12 else []
@op
def stream_qr(x, s, a):
    return [I(v) for v in inner(load('cipher.chacha_poly'), 'chacha_q_round', 4)(*x)], []
@op
def stream_fresh(x, s, a):
    return [], [O(load('cipher.chacha_poly').ChaCha(s[0]).encrypt(32 * '\0'))]

# ---------------------------------------------------------------- C03 - C07
@op
def chan_open(x, s, a):
    if x[1] == 3:
        S[x[0]] = (3, load('cipher.aes_siv').AES_SIV(s[0]))
    else:
        m = load('cipher.chacha_poly')
        S[x[0]] = (x[1], (m.ChaCha20_AEAD if x[1] == 1 else m.ChaCha_Poly_AEAD)(s[0], s[1]))
    return [], []
def many(l):
    return [O(v) for v in l]
@op
def chan_protect(x, s, a):
    kind, c = S[x[0]]
    if kind == 3:
        ads = list(s[1:])
        r = O(c.encrypt(s[0], ads))
        return [], [r] + many(ads)
    r = c.encrypt(s[0], s[1], s[2])
    return [], many(r) if kind == 1 else [O(r)]
@op
def chan_receive(x, s, a):
    kind, c = S[x[0]]
    if kind == 3:
        ads = list(s[1:])
        r = O(c.decrypt(s[0], ads))
        return [], [r] + many(ads)
    if kind == 1:
        return [], many(c.decrypt(s[0], s[1], s[2]))
    return [], [O(c.decrypt(s[0], s[1]))]
@op
def chan_polyTag(x, s, a):
    return [], [O(load('cipher.chacha_poly').poly1305_mac(s[0], s[1]))]
@op
def chan_polyKey(x, s, a):
    return [], [O(inner(load('cipher.chacha_poly'), 'poly1305_key_gen', 2)(s[0], s[1]))]
@op
def chan_cmac(x, s, a):
    m = load('cipher.aes_cmac')
    return [], [O(m.aes_cmac(s[0], s[1], ToyCipher) if x[0] == 1 else m.aes_cmac(s[0], s[1]))]
@op
def chan_subkeys(x, s, a):
    m = load('cipher.aes_cmac')
    f = inner(m, 'subkey', 2 if x[0] == 1 else 1)
    return [], many(f(s[0], ToyCipher) if x[0] == 1 else f(s[0]))
@op
def chan_s2v(x, s, a):
    ads = list(s[1:])
    r = O(inner(load('cipher.aes_siv'), 's2v', 2)(s[0], ads))
    return [], [r] + many(ads)

# ---------------------------------------------------------------- C08 C09
def conv(k):
    return load(['cipher.encoding', 'cipher.common', 'ecc.ecc'][k])
def i2s(x):
    f = conv(x[0]).int_to_string
    return O(f(x[1], x[2]) if x[2] else f(x[1]))
@op
def text_i2s(x, s, a):
    return [], [i2s(x)]
@op
def text_s2i(x, s, a):
    return [I(conv(x[0]).string_to_int(s[0]))], []
@op
def text_i2s2i(x, s, a):
    return [I(conv(x[0]).string_to_int(i2s(x)))], []
@op
def text_xor(x, s, a):
    if x[0] == 2:
        f = inner(load('cipher.aes_cmac'), 'xor', 2)
    else:
        f = getattr(load('cipher.common'), ['xor', 'xor_min'][x[0]])
    return [], [O(f(s[0], s[1]))]
@op
def text_enc(x, s, a):
    return [], [O(getattr(load('cipher.encoding'), 'b%dencode' % x[0])(s[0]))]
@op
def text_dec(x, s, a):
    f = getattr(load('cipher.encoding'), 'b%ddecode' % x[0])
    return [], [O(f(s[0], x[1]) if x[1] else f(s[0]))]
@op
def text_roundtrip(x, s, a):
    m = load('cipher.encoding')
    t = O(getattr(m, 'b%dencode' % x[0])(s[0]))
    return [], [t, O(getattr(m, 'b%ddecode' % x[0])(t, padto=len(s[0])))]

# ---------------------------------------------------------------- C10 - C14
def curve():
    return S['curve']
def shown(q):
    if q.curve is not curve():
        raise Bad('a point of another curve')
    if q.x is None and q.y is None:
        return [1, 0, 0]
    return [0, I(q.x), I(q.y)]
def put(r, q):
    v = shown(q)
    S[r] = q
    return v, []
@op
def grp_curve(x, s, a):
    S.clear()
    fam, p, ca, cb = x[:4]
    ecc = load('ecc.ecc')
    if a and a[0] == 'class':
        S['curve'] = getattr(load('ecc.curves'), a[1])()
    else:
        # a small curve: aux = xG, yG, n, h
        base = [None, ecc.SmallWeierstrassCurveFp, ecc.TwistedEdwardsCurveFp, ecc.MontgomeryCurveFp][fam]
        d = dict(p=p, curveId='small', strength=1, oid=None)
        if a:
            d.update(xG=int(a[0]), yG=int(a[1]), n=int(a[2]), h=int(a[3]))
        if fam == 1 and ca == 0:
            base = ecc.KoblitzCurveFp
        elif fam == 2 and ca == 1:
            base = ecc.EdwardsCurveFp
        else:
            d['a'] = ca % p if fam == 1 else ca
        if fam == 1: d['b'] = cb
        if fam == 2: d['d'] = cb
        S['curve'] = type('Small', (base,), d)()
    c = curve()
    if x[4] == 1:
        inf = [c.IDENTITY] if fam != 2 else []
        S['pts'] = []
        for u in range(p):
            for v in range(p):
                if on_curve(fam, p, ca, cb, u, v):
                    S['pts'].append(c.point(u, v))
        S['pts'] += inf
        S['p'] = p
    return [], []
def on_curve(fam, p, a, b, x, y):
    if fam == 1: return (y * y - (x * x + a) * x - b) % p == 0
    if fam == 2: return (a * x * x + y * y - 1 - b * x * x * y * y) % p == 0
    return (y * y - ((x + a) * x + 1) * x) % p == 0
@op
def grp_load(x, s, a):
    return put(x[0], curve().point(x[1], x[2]))
@op
def grp_gen(x, s, a):
    return put(x[0], curve().generator())
@op
def grp_ident(x, s, a):
    return put(x[0], curve().IDENTITY)
@op
def grp_add(x, s, a):
    return put(x[0], S[x[1]] + S[x[2]])
@op
def grp_sub(x, s, a):
    return put(x[0], S[x[1]] - S[x[2]])
@op
def grp_neg(x, s, a):
    return put(x[0], -S[x[1]])
@op
def grp_dbl(x, s, a):
    return put(x[0], S[x[1]].double())
def num(k):
    """ scalars as the two integer types of Python 2 """
    return int(k)
@op
def grp_mul(x, s, a):
    return put(x[0], S[x[1]] * num(x[2]))
@op
def grp_rmul(x, s, a):
    return put(x[0], num(x[2]) * S[x[1]])
def equal(u, v):
    e, n = bool(u == v), bool(u != v)
    return 2 if e == n else int(e)
@op
def grp_eq(x, s, a):
    return [equal(S[x[0]], S[x[1]])], []
@op
def grp_dump(x, s, a):
    r = []
    for k in x: r += shown(S[k])
    return r, []
@op
def grp_ladder(x, s, a):
    c = curve()
    f = c.montgomery_ladder2 if x[0] == 1 else c.montgomery_ladder
    return [I(f(num(x[2]), S[x[1]]))], []
def code(q):
    v = shown(q)
    p = S['p']
    if v[0]: return p * p
    if not (0 <= v[1] < p and 0 <= v[2] < p): return -1
    return v[1] * p + v[2]
def uncode(k):
    p = S['p']
    return curve().IDENTITY if k == p * p else curve().point(k // p, k % p)
def every(f):
    return [code(f(q)) for q in S['pts']], []
@op
def grp_points(x, s, a):
    p, c, r = S['p'], curve(), []
    for u in range(p):
        for v in range(p):
            try:
                r.append(code(c.point(u, v)))
            except Exception:
                pass
    if x[0] != 2: r.append(code(c.IDENTITY))
    return r, []
@op
def grp_addAll(x, s, a):
    u = uncode(x[0])
    return every(lambda q: u + q)
@op
def grp_subAll(x, s, a):
    u = uncode(x[0])
    return every(lambda q: u - q)
@op
def grp_negAll(x, s, a):
    return every(lambda q: -q)
@op
def grp_dblAll(x, s, a):
    return every(lambda q: q.double())
@op
def grp_mulAll(x, s, a):
    return every(lambda q: q * num(x[0]))
@op
def grp_rmulAll(x, s, a):
    return every(lambda q: num(x[0]) * q)
@op
def grp_eqAll(x, s, a):
    u = uncode(x[0])
    return [equal(u, q) for q in S['pts']], []
@op
def grp_ladderAll(x, s, a):
    c = curve()
    f = c.montgomery_ladder2 if x[0] == 1 else c.montgomery_ladder
    return [I(f(num(x[1]), q)) for q in S['pts'] if q.x is not None and q.x != 0], []
@op
def grp_y(x, s, a):
    return [I(curve().y_from_x(x[0]))], []
@op
def grp_yAll(x, s, a):
    r = []
    for u in range(S['p']):
        try:
            v = curve().y_from_x(u)
        except Exception:
            r.append(-1)
        else:
            r.append(I(v))
    return r, []
@op
def grp_encode(x, s, a):
    return [], [O(S[x[0]].encode())]
@op
def grp_xoct(x, s, a):
    return [], [O(S[x[0]].toOctets())]
@op
def grp_xyoct(x, s, a):
    return [], [O(S[x[0]].to_octetstring())]
@op
def grp_text(x, s, a):
    return [], [O(str(S[x[0]]))]
@op
def grp_textAll(x, s, a):
    return [], [O(str(q)) for q in S['pts']]
@op
def grp_encodeAll(x, s, a):
    return [], [O(q.encode('raw')) for q in S['pts'] if q.x is not None]

# ---------------------------------------------------------------- C15 C16
FAMILIES = ['SmallWeierstrassCurveFp', 'KoblitzCurveFp', 'TwistedEdwardsCurveFp', 'EdwardsCurveFp', 'MontgomeryCurveFp']
@op
def par_params(x, s, a):
    ecc, cls = load('ecc.ecc'), getattr(load('ecc.curves'), s[0])
    fam = [k for k in (5, 4, 3, 2, 1) if issubclass(cls, getattr(ecc, FAMILIES[k - 1]))][0]
    c = cls()
    g = c.generator()
    def opt(k):
        v = getattr(c, k, None)
        return -1 if v is None else I(v)
    b = c.b if fam <= 2 else c.d if fam <= 4 else 0
    r = [fam] + [I(v) for v in (c.p, c.a, b, c.xG, c.yG, c.n, c.h, c.coord_size, g.x, g.y)]
    r += [opt(k) for k in ('seed', 'seed_c', 'seed_p', 'seed_ab', 'z', 'q')]
    if c.oid is not None: r += [I(v) for v in c.oid]
    return r, [O(c.curveId)]
LISTS = ['allCurves', 'smallWeierstrassCurves', 'koblitzCurves', 'twistedEdwardsCurves', 'edwardsCurves', 'montgomeryCurves']
@op
def par_list(x, s, a):
    return [], [O(c.__name__) for c in getattr(load('ecc.curves'), LISTS[x[0]])]
@op
def par_classes(x, s, a):
    m = load('ecc.curves')
    r = []
    for name, c in m.get_all_classes():
        if c.__name__ == name:
            assert getattr(m, name) is c
            r.append(O(name))
    return [], r
@op
def par_ids(x, s, a):
    return [], [O(c.curveId) for c in load('ecc.curves').allCurves]

class Rng(object):
    """ our own regular random source: SHA-1 in counter mode """
    def __init__(self, seed):
        self.seed, self.i = seed, 0
    def __call__(self, n):
        out = ''
        while len(out) < n:
            out += hashlib.sha1('%s/%d' % (self.seed, self.i)).digest()
            self.i += 1
        return out[:n]
def forced(v):
    def f(n):
        if v == 'ff': return n * '\xff'
        return v2s_(int(v) % 256 ** n, n)
    return f
def order_curve(x, a):
    if a[0] == 'class':
        return getattr(load('ecc.curves'), a[1])()
    # p, a, b, xG, yG of a curve of order x[0]
    base = load('ecc.ecc').SmallWeierstrassCurveFp
    return type('Small', (base,), dict(p=int(a[1]), a=int(a[2]), b=int(a[3]), xG=int(a[4]), yG=int(a[5]), n=x[0], h=1))()
@op
def key_key(x, s, a):
    load('ecc.ecc')
    c = order_curve(x, a[1:])
    if a[0] == 'real':
        Source.rng, Source.mode = None, None
    else:
        Source.rng = S.setdefault('rng', Rng(a[0] if x[1] else 'extreme'))
        Source.mode = None if x[1] else [forced(a[0])]
    del Source.log[:]
    try:
        k = c.new_private_key()
    finally:
        Source.rng, Source.mode = None, None
    return [I(k), 8 * len(''.join(Source.log))], []
@op
def key_range(x, s, a):
    return [], []
@op
def key_spread(x, s, a):
    c = order_curve(x, a[2:])
    counts = (x[0] - 1) * [0]
    Source.rng, Source.mode = Rng(a[0]), None
    try:
        for i in range(int(a[1])):
            counts[I(c.new_private_key()) - 1] += 1
    finally:
        Source.rng = None
    return counts, []

# ---------------------------------------------------------------- C17 - C21
def nt():
    return load('ecc.numbertheory')
@op
def num_inv(x, s, a):
    if x[0] == 2:
        class F(load('ecc.ellipticcurve').EllipticCurveFp):
            p = x[2]
            def identity(self): pass
        return [I(F().inverse(x[1]))], []
    if x[0] == 3:
        return [I(load('fmath.galoisfield').GFp(x[2]).inverse(x[1]))], []
    f = nt().inverse_mod if x[0] == 0 else load('fmath.galoisfield').inverse_mod
    return [I(f(x[1], x[2]))], []
@op
def num_egcd(x, s, a):
    return [I(v) for v in inner(load('fmath.galoisfield'), 'egcd', 2)(x[0], x[1])], []
def form(f, x):
    if x[0] == 0: return f(*x[1:])
    return again(f, list(x[1:]) if x[0] == 1 else tuple(x[1:]))[0]
@op
def num_gcd(x, s, a):
    return [I(form(nt().gcd, x))], []
@op
def num_lcm(x, s, a):
    return [I(form(nt().lcm, x))], []
@op
def num_gcd2(x, s, a):
    return [I(nt().gcd2(x[0], x[1]))], []
@op
def num_pow(x, s, a):
    try:
        return [I(nt().modular_exp(*x))], []
    except nt().NegativeExponentError:
        return [], []
@op
def num_sqrt(x, s, a):
    try:
        return [I(nt().square_root_mod_prime(*x))], []
    except nt().SquareRootError:
        return [], []
@op
def num_sqrtAll(x, s, a):
    f, r = nt().square_root_mod_prime, []
    for v in range(x[0]):
        try:
            r.append(I(f(v, x[0])))
        except nt().SquareRootError:
            r.append(-1)
    return r, []
@op
def num_msqrt(x, s, a):
    return [I(nt().modular_sqrt(*x))], []
@op
def num_msqrtAll(x, s, a):
    return [I(nt().modular_sqrt(v, x[0])) for v in range(x[0])], []
@op
def num_jacobi(x, s, a):
    return [I(nt().jacobi(*x))], []
@op
def num_jacobiAll(x, s, a):
    return [I(nt().jacobi(v, x[0])) for v in range(x[1], x[2])], []
@op
def num_legendre(x, s, a):
    return [I(nt().legendre_symbol(*x))], []
@op
def num_legendreAll(x, s, a):
    return [I(nt().legendre_symbol(v, x[0])) for v in range(x[1], x[2])], []
def taken(l):
    """ the items of a list the caller goes on to change """
    r = list(l)
    if isinstance(l, list):
        l.append(l[0] if l else 0)
        l.reverse()
    return r
def flat(l):
    r = []
    for p, e in taken(l): r += [I(p), I(e)]
    return r
def pairs(l):
    return [(l[i], l[i + 1]) for i in range(0, len(l), 2)]
@op
def num_factor(x, s, a):
    return flat(nt().factorization(x[0])), []
@op
def num_factorAll(x, s, a):
    r = []
    for n in range(x[0], x[1]):
        f = flat(nt().factorization(n))
        r += [len(f)] + f
    return r, []
@op
def num_phi(x, s, a):
    return [I(nt().phi(x[0]))], []
@op
def num_carm(x, s, a):
    return [I(nt().carmichael(x[0]))], []
@op
def num_carmF(x, s, a):
    return again(nt().carmichael_of_factorized, pairs(x)), []
def again(f, arg):
    """ the value of f, which is asked twice with the same object """
    v, w = I(f(arg)), I(f(arg))
    if v != w: raise Bad('%d and then %d' % (v, w))
    return [v]
@op
def num_carmP(x, s, a):
    return [I(nt().carmichael_of_ppower((x[0], x[1])))], []
@op
def num_phiAll(x, s, a):
    return [I(nt().phi(n)) for n in range(x[0], x[1])], []
@op
def num_carmAll(x, s, a):
    return [I(nt().carmichael(n)) for n in range(x[0], x[1])], []
@op
def num_order(x, s, a):
    return [I(nt().order_mod(*x[:2]))], []
@op
def num_orderAll(x, s, a):
    r = []
    for v in range(x[0]):
        try:
            r.append(I(nt().order_mod(v, x[0])))
        except Exception:
            r.append(-1)
    return r, []
@op
def num_korder(x, s, a):
    return [I(nt().kinda_order_mod(*x))], []
@op
def num_lfrp(x, s, a):
    return [I(nt().largest_factor_relatively_prime(*x))], []
@op
def num_lfrpAll(x, s, a):
    return [I(nt().largest_factor_relatively_prime(x[0], b)) for b in range(1, x[1])], []
def truth(v):
    if isinstance(v, (bool, int, long)): return 1 if v else 0
    raise Bad('truth value expected')
@op
def num_prime(x, s, a):
    return [truth(nt().is_prime(x[0]))], []
@op
def num_primes(x, s, a):
    return [truth(nt().is_prime(n)) for n in x], []
@op
def num_composite(x, s, a):
    return [truth(nt().is_prime(x[0] * x[1]))], []
def packed(l):
    v = 0
    for b in l: v = 2 * v + b
    return [v], []
@op
def num_primeAll(x, s, a):
    return packed([truth(nt().is_prime(n)) for n in range(x[0], x[1])])
@op
def num_next(x, s, a):
    return [I(nt().next_prime(x[0]))], []
@op
def num_table(x, s, a):
    if a[0] == '5k': return [I(v) for v in load('fmath.primes_to_5k').primes_to_5k], []
    return [I(v) for v in nt().smallprimes], []
@op
def num_fermat(x, s, a):
    return [truth(load('fmath.prime').fermat_little_test(*x))], []
@op
def num_rabin(x, s, a):
    return [truth(load('fmath.prime').rabin_miller(*x))], []
@op
def num_fermatAll(x, s, a):
    return packed([truth(load('fmath.prime').fermat_little_test(x[0], v)) for v in range(x[0])])
@op
def num_rabinAll(x, s, a):
    return packed([0] + [truth(load('fmath.prime').rabin_miller(x[0], v)) for v in range(1, x[0])])
def poly(x, f, split):
    """ f(args..., modulus, p) on lists; were they changed? """
    p, k = x[0], x[1]
    mod, rest = x[2:2 + k], x[2 + k:]
    lists, build = split(rest)
    keep = [list(l) for l in lists] + [list(mod)]
    got = f(*build(lists, mod, p))
    same = keep == lists + [mod]
    return [I(c) for c in taken(got)] + [1 if same else 0], []
@op
def num_polyRed(x, s, a):
    return poly(x, nt().polynomial_reduce_mod, lambda r: ([r], lambda l, m, p: (l[0], m, p)))
@op
def num_polyMul(x, s, a):
    def split(r):
        f, g = r[1:1 + r[0]], r[1 + r[0]:]
        return [f, f if a == ['same'] else g]
    return poly(x, nt().polynomial_multiply_mod,
                lambda r: (split(r), lambda l, m, p: (l[0], l[1], m, p)))
@op
def num_polyExp(x, s, a):
    return poly(x, nt().polynomial_exp_mod, lambda r: ([r[1:]], lambda l, m, p: (l[0], r[0], m, p)))

# ---------------------------------------------------------------- C22
def elem(v):
    if type(v) != type(S['gf'](0)) or v.__class__ is not S['gf'](0).__class__:
        raise Bad('field element expected')
    return I(int(v))
@op
def gf_field(x, s, a):
    S.clear()
    S['gf'] = load('fmath.galoisfield').GFp(x[0])
    S['p'] = x[0]
    S['k'] = 0
    S['kept'] = {}
    return [], []
@op
def gf_other(x, s, a):
    kept = S['kept']
    kept[S['k']] = dict((k, v) for k, v in S.items() if k != 'kept')
    if x[0] not in kept:
        kept[x[0]] = {'gf': load('fmath.galoisfield').GFp(x[1]), 'p': x[1], 'k': x[0]}
    S.clear()
    S.update(kept[x[0]])
    S['kept'] = kept
    return [], []
def gput(r, v):
    k = elem(v)
    S[r] = v
    return [k], []
@op
def gf_elem(x, s, a):
    return gput(x[0], S['gf'](x[1]))
def sides(x):
    return (x[3] if x[2] == 2 else S[x[3]]), (x[4] if x[2] == 1 else S[x[4]])
FUN = [lambda u, v: u + v, lambda u, v: u - v, lambda u, v: u * v, lambda u, v: u / v, lambda u, v: u ^ v, lambda u, v: u ** v]
@op
def gf_bin(x, s, a):
    u, v = sides(x)
    return gput(x[1], FUN[x[0]](u, v))
@op
def gf_neg(x, s, a):
    return gput(x[0], -S[x[1]])
@op
def gf_eq(x, s, a):
    u, v = sides(x)
    return [equal(u, v)], []
@op
def gf_member(x, s, a):
    return [truth(S['gf'].is_element(x[0]))], []
@op
def gf_text(x, s, a):
    return [I(int(O(str(S[x[0]]))))], []
@op
def gf_dump(x, s, a):
    return [elem(S[k]) for k in x], []
@op
def gf_binAll(x, s, a):
    gf, p, r = S['gf'], S['p'], []
    for u in range(p):
        for v in range(p):
            # aux: which side is an element
            try:
                w = FUN[x[0]](gf(u) if a[0] != '2' else u, gf(v) if a[0] != '1' else v)
            except Exception:
                r.append(-1)
            else:
                r.append(elem(w))
    return r, []

# ---------------------------------------------------------------- C23
@op
def pi_pi(x, s, a):
    m = load('fmath.pi')
    f = m.pi() if x[0] == 0 else m.pi(x[0])
    return [I(f.numerator), I(f.denominator)], []
@op
def pi_piText(x, s, a):
    t = O(load('fmath.pi').pi_string)
    return [len(t)], [t[:2], t[2 + x[0]:2 + x[1]]]

# ---------------------------------------------------------------- C24 - C26
@op
def wl_new(x, s, a):
    h, kind, k, t, n = x
    kw = []
    if kind == 0:
        M = hashmod('michael').Michael
        S[h] = (kind, M(s[0]) if k else M())
    elif kind in (2, 3):
        M = hashmod('tkip_mic').TKIP_MIC
        v = 'D%d' % kind
        if k: S[h] = (kind, M(s[0]) if kind == 3 else M(s[0], v))
        else: S[h] = (kind, M(version=v))
    else:
        M = hashmod('tkip_key_mixing').TKIP_Mixer
        kw = {}
        if k: kw['tk1'] = s[0]
        if t: kw['transmitterAddress'] = s[1]
        if n: kw['pnBytes'] = s[2]
        S[h] = (kind, M(**kw))
    return [], []
@op
def wl_setKey(x, s, a):
    S[x[0]][1].setKey(s[0])
    return [], []
@op
def wl_setTA(x, s, a):
    S[x[0]][1].setTA(s[0])
    return [], []
@op
def wl_setPn(x, s, a):
    S[x[0]][1].setPnBytes(s[0])
    return [], []
@op
def wl_newKey(x, s, a):
    return [], [O(S[x[0]][1].newKey(s[0]))]
@op
def wl_hash(x, s, a):
    return [], [O(S[x[0]][1].hash(s[0]))]
@op
def wl_call(x, s, a):
    return [], [O(S[x[0]][1](s[0]))]
@op
def wl_mic(x, s, a):
    return [], [O(S[x[0]][1].hash(s[0], s[1], x[1], s[2]))]
@op
def wl_mix(x, s, a):
    return [], [O(hashmod('tkip_key_mixing').TKIP_Mixer(s[0], s[1]).newKey(s[2]))]

# ---------------------------------------------------------------- C27 - C29
def maker(kind, block, size):
    """ a constructor taking the optional key """
    m = hashmod('hmac')
    SHA1.toy = False
    if kind == 11: return m.HMAC_SHA1
    if kind == 12: return m.HMAC_MD5
    H = SHA1 if kind == 1 else toyHash(block, size)
    class P(m.HMAC):
        def __init__(self, key=None):
            m.HMAC.__init__(self, H, key)
    return P
def direct(kind, block, size):
    m = hashmod('hmac')
    H = SHA1 if kind == 1 else toyHash(block, size)
    return lambda *key: m.HMAC(H, *key)
@op
def mac_new(x, s, a):
    SHA1.toy = False
    f = maker(*x[1:4]) if x[1] > 10 else direct(*x[1:4])
    S[x[0]] = f(s[0]) if x[4] else f()
    return [], []
@op
def mac_setKey(x, s, a):
    S[x[0]].setKey(s[0])
    return [], []
@op
def mac_reset(x, s, a):
    S[x[0]].reset()
    return [], []
@op
def mac_update(x, s, a):
    S[x[0]].update(s[0])
    return [], []
@op
def mac_digest(x, s, a):
    return [], [O(S[x[0]].digest())]
@op
def mac_call(x, s, a):
    return [], [O(S[x[0]](s[0]))]
@op
def mac_hmac(x, s, a):
    f = maker(*x[:3]) if x[0] > 10 else direct(*x[:3])
    return [], [O(f(s[0])(s[1]))]
@op
def mac_pbkdf2(x, s, a):
    f = hashmod('pbkdf2').pbkdf2
    if x[0] == 11:
        SHA1.toy = False
        return [], [O(f(s[0], s[1], x[3], x[4]))]
    return [], [O(f(s[0], s[1], x[3], x[4], maker(*x[:3])))]
@op
def mac_psk(x, s, a):
    f = hashmod('pbkdf2').dot11PassPhraseToPSK
    SHA1.toy = x[0] == 0
    try:
        return [], [O(f(s[0], s[1]))]
    finally:
        SHA1.toy = False
@op
def mac_prf(x, s, a):
    return [], [O(load('hash.prf_dot11').PRF(s[0], s[1], s[2], x[0]))]
@op
def mac_prfN(x, s, a):
    return [], [O(getattr(load('hash.prf_dot11'), 'PRF_%d' % x[0])(s[0], s[1], s[2]))]

# ---------------------------------------------------------------- C30
def ana(leaf):
    __import__(leaf)
    return sys.modules[leaf]
def orbitsOf(w):
    return ana('permutation').permutation if w == 0 else ana('sbox_analysis')
@op
def tab_orbits(x, s, a):
    perm = tuple(x[1:]) if a else list(x[1:])
    rs = []
    for i in (0, 1):        # the same object again, after the first answer was changed
        d = orbitsOf(x[0]).map_orbits_of_permutation(perm)
        r = []
        for k in sorted(d.keys()): r += [I(k), len(d[k])] + [I(v) for v in taken(d[k])]
        d.clear()
        rs.append(r)
    if rs[0] != rs[1]: raise Bad('two answers')
    return r, []
@op
def tab_lengths(x, s, a):
    r = []
    perm = list(x[1:])
    one = sorted([tuple(p) for p in taken(orbitsOf(x[0]).orbit_start_and_length(perm))])
    two = sorted([tuple(p) for p in taken(orbitsOf(x[0]).orbit_start_and_length(perm))])
    if one != two: raise Bad('two answers')
    for st, ln in one: r += [I(st), I(ln)]
    return r, []
def spectral(w):
    return ana('walshtransform' if w == 0 else 'sbox_nonlinearity')
def twice(v):
    w = 2 * v
    if int(w) != w: raise Bad('nonlinearity')
    return int(w)
@op
def tab_walsh(x, s, a):
    return [I(v) for v in taken(spectral(x[0]).walshTransform(x[1:]))], []
@op
def tab_nonlin(x, s, a):
    f = x[1:]
    v, w = spectral(x[0]).nonLinearity(f), spectral(x[0]).nonLinearity(f)
    if v != w: raise Bad('different nonlinearities')
    return [twice(v)], []
@op
def tab_sboxNonlin(x, s, a):
    return [twice(v) for v in taken(ana('sbox_nonlinearity').sboxNonlinearity(x[1:]))], []
@op
def tab_table(x, s, a):
    m = ana('permutation' if x[0] == 0 else 'sbox_analysis')
    return [I(v) for v in (m.aes_sbbytes if x[1] == 0 else m.sms4_sbbytes)], []

# ----------------------------------------------------------------
LONGS = ('num', 'text', 'gf', 'grp', 'tab', 'pi', 'key')
def run(c):
    # integers of either type; which one depends on the call alone
    kind = long if c['op'].split('_')[0] in LONGS and binascii.crc32(c['op'] + ' '.join(c['xs'])) & 1 else int
    x = [kind(v) for v in c['xs']]
    s = [v.encode('ascii').decode('hex') for v in c['ss']]
    a = [v.encode('ascii') if isinstance(v, unicode) else v for v in c.get('aux', [])]
    try:
        ri, rs = OPS[c['op']](x, s, a)
        ri = [I(v) for v in ri]
        return {'ok': True, 'ri': [str(v) for v in ri], 'rs': [v.encode('hex') for v in rs]}
    except KeyboardInterrupt:
        raise
    except Absent:
        return {'ok': True, 'ri': [], 'rs': [], 'exc': 'absent'}
    except Bad:
        return {'ok': True, 'ri': ['-271828182845904523536'], 'rs': [], 'exc': 'Bad: %s' % (sys.exc_info()[1],)}
    except:
        t, v = sys.exc_info()[:2]
        try:
            msg = '%s: %s' % (getattr(t, '__name__', t), v)
        except:
            msg = 'error'
        return {'ok': False, 'ri': [], 'rs': [], 'exc': repr(msg)[:300]}

def main():
    while 1:
        line = sys.stdin.readline()
        if not line: break
        c = json.loads(line)
        if c['op'] == 'reset':
            S.clear()
            Source.rng, Source.mode = None, None
            SHA1.toy = False
            r = {'ok': True, 'ri': [], 'rs': []}
        else:
            r = run(c)
        OUT.write(json.dumps(r) + '\n')
        OUT.flush()
main()
