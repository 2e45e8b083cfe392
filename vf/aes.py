"""AES in Python: only to choose inputs (messages whose synthetic IV takes a
chosen value); the oracle is spec/aes.qnt."""


def _tables():
    sb, p, q = [0x63] * 256, 1, 1
    rot = lambda x, s: (x << s | x >> (8 - s)) & 255
    while True:
        p = (p ^ p << 1 ^ (0x1b if p & 0x80 else 0)) & 0xff
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xff
        if q & 0x80:
            q ^= 9
        sb[p] = q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63
        if p == 1:
            break
    inv = [0] * 256
    for i, v in enumerate(sb):
        inv[v] = i
    return sb, inv


S, I = _tables()


def mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = a << 1 ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


M = {c: [mul(c, x) for x in range(256)] for c in (2, 3, 9, 11, 13, 14)}


def keys(k):
    nk = len(k) // 4
    w = [list(k[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nk + 7)):
        t = list(w[-1])
        if i % nk == 0:
            t = [S[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = mul(2, rc)
        elif nk > 6 and i % nk == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[i:i + 4], []) for i in range(0, len(w), 4)]


def encrypt(k, b):
    ks = keys(k)
    s = [x ^ y for x, y in zip(b, ks[0])]
    for r in range(1, len(ks)):
        s = [S[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r < len(ks) - 1:
            s = [M[2][s[i]] ^ M[3][s[i // 4 * 4 + (i + 1) % 4]] ^ s[i // 4 * 4 + (i + 2) % 4] ^ s[i // 4 * 4 + (i + 3) % 4] for i in range(16)]
        s = [x ^ y for x, y in zip(s, ks[r])]
    return bytes(s)


def decrypt(k, b):
    ks = keys(k)
    s = list(b)
    for r in range(len(ks) - 1, 0, -1):
        s = [x ^ y for x, y in zip(s, ks[r])]
        if r < len(ks) - 1:
            s = [M[14][s[i]] ^ M[11][s[i // 4 * 4 + (i + 1) % 4]] ^ M[13][s[i // 4 * 4 + (i + 2) % 4]] ^ M[9][s[i // 4 * 4 + (i + 3) % 4]] for i in range(16)]
        s = [I[s[(i - 4 * (i % 4)) % 16]] for i in range(16)]
    return bytes(x ^ y for x, y in zip(s, ks[0]))


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def dbl(b):
    v = int.from_bytes(b, 'big') << 1
    if v >> 128:
        v ^= 1 << 128 | 0x87
    return v.to_bytes(16, 'big')


def cmac(k, m):
    k1 = dbl(encrypt(k, bytes(16)))
    if m and len(m) % 16 == 0:
        m = m[:-16] + xor(m[-16:], k1)
    else:
        m += b'\x80'
        m += bytes(-len(m) % 16)
        m = m[:-16] + xor(m[-16:], dbl(k1))
    c = bytes(16)
    for i in range(0, len(m), 16):
        c = encrypt(k, xor(c, m[i:i + 16]))
    return c


def s2v(k, strings):
    d = cmac(k, bytes(16))
    for s in strings[:-1]:
        d = xor(dbl(d), cmac(k, s))
    p = strings[-1]
    if len(p) >= 16:
        return cmac(k, p[:-16] + xor(p[-16:], d))
    p += b'\x80'
    return cmac(k, xor(dbl(d), p + bytes(16 - len(p))))


def siv_text(k, ads, head, iv):
    """The plain text that starts with head (whole blocks) and ends in one
    block chosen so that its synthetic IV is iv."""
    k = k[:len(k) // 2]
    d = cmac(k, bytes(16))
    for s in ads:
        d = xor(dbl(d), cmac(k, s))
    c = bytes(16)
    for i in range(0, len(head), 16):
        c = encrypt(k, xor(c, head[i:i + 16]))
    last = xor(xor(decrypt(k, iv), c), dbl(encrypt(k, bytes(16))))
    return head + xor(last, d)
