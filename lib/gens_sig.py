"""Generators for hashing, key derivation, signatures and aggregation."""
from gens_fields import *

# ---- C17: SHA-256, HMAC, HKDF, expand_message_xmd -------------------------------------------------
def c17(tier, r):
    q = tier == 'quick'; k = 1 if q else 10; out = []
    for i in range(0, 261, 20):
        p = Prog('sha-len-%d' % i)
        for n in range(i, min(i + 20, 261)): by(p, 'm', rbytes(r, n)); p('sha.hash - %m'); n > 1 and p('sha.hash - %%m %d' % r.randrange(1, n))
        out.append(p)
    for _ in range(12 * k):
        p = Prog('sha-%d' % r.getrandbits(24))
        for _ in range(10):
            n = r.choice(LENS + [r.randrange(2000)]); b = r.choice([rbytes(r, n), bytes(n), b'\xff' * n, b'\x80' * n]); by(p, 'm', b)
            cuts = []; left = n
            while left and r.random() < .7: c = r.choice([0, 1, 55, 63, 64, 65, left, r.randrange(left + 1)]); c = min(c, left); cuts.append(str(c)); left -= c
            p('sha.hash - %m ' + ' '.join(cuts))
        out.append(p)
    p = Prog('sha-long', weight=200)
    for n in (0, 1, 55, 56, 64, 65, 200): by(p, 'm', rbytes(r, n)); p('sha.arr h %m'); p('sha.hex - %h'); p('sha.str - %m')
    for n in (32, 32, 32): by(p, 'm', r.choice([rbytes(r, n), bytes(n), b'\x0f' * n])); p('sha.hex - %m')
    for n, c in ((64, 1025), (61, 3017), (1, 10001)): by(p, 'm', rbytes(r, n)); p('sha.rep - %%m %d' % c)
    h = Prog('sha-2^32-bits', weight=2000); h.once = h.big = True; by(h, 'm', rbytes(r, 64)); h('sha.rep - %%m %d' % ((1 << 23) + (2 if q else 1))); out.append(h)
    if not q: h = Prog('sha-2^33-bits', weight=4000); h.once = h.big = True; by(h, 'm', rbytes(r, 61)); h('sha.rep - %%m %d' % 17600000); out.append(h)
    for n in (4095, 4096, 5000, 8192, 16384): by(p, 'm', rbytes(r, n)); p('sha.hash - %m'); p('sha.hash - %m 1 64 63 1000')
    out.append(p)
    KL = [0, 1, 20, 31, 32, 33, 55, 56, 63, 64, 65, 66, 100, 127, 128, 129, 200]
    for i, n in enumerate(KL):
        p = Prog('hmac-%d' % n)
        for _ in range(4):
            key = rbytes(r, n); by(p, 'k', r.choice([key, key[:-1] + b'\0' if n else key])); by(p, 't', msg(r)); p('kdf.hmac - %k %t'); p('kdf.extract p %k %t')
        out.append(p)
    for L in [1, 2, 31, 32, 33, 48, 63, 64, 65, 96, 255, 256, 257, 1000, 8128, 8129, 8159, 8160, 8161, 8192, 9000] + [r.randrange(1, 8160) for _ in range(4 * k)]:
        p = Prog('hkdf-%d' % L, weight=10 + L / 100)
        by(p, 'p', rbytes(r, 32)); by(p, 'i', rbytes(r, r.choice([0, 1, 2, 10, 31, 32, 33, 64, 100]))); p('kdf.expand - %%p %%i %d' % L)
        if L <= 8160: by(p, 's', rbytes(r, r.choice(KL))); by(p, 'k', msg(r)); p('kdf.full - %%s %%k %%i %d' % L)
        by(p, 'm', msg(r)); by(p, 'd', dst(r)); p('kdf.xmd - %%m %%d %d' % L)
        out.append(p)
    for _ in range(12 * k):
        p = Prog('xmd-%d' % r.getrandbits(24))
        for _ in range(6):
            L = r.choice([1, 16, 31, 32, 33, 48, 64, 96, 128, 200, 255, 256, 257, 512]); by(p, 'm', msg(r)); by(p, 'd', dst(r)); p('kdf.xmd - %%m %%d %d' % L)
            p('kdf.xmd - %m %d 0')
        out.append(p)
    return out

# ---- C18: KeyGen and EIP-2333 -------------------------------------------------------------------------
IDX = [0, 1, 2, 255, 256, 65535, 65536, 1 << 24, (1 << 24) - 1, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) - 2, 0x01020304, 0x80000001, 0xff00ff00, 3600, 12381]
def skval(r):
    c = r.random()
    return r.choice([0, 1, 2, Q - 1, Q - 2, Q >> 1, 1 << 254, (1 << 254) - 1, X, 0xff << 240]) if c < .35 else r.getrandbits(r.randrange(1, 255)) if c < .5 else r.randrange(Q)
def c18(tier, r):
    q = tier == 'quick'; k = 1 if q else 10; out = []
    p = Prog('seed-len')
    for n in list(range(0, 70)) + [95, 96, 127, 128, 200, 256, 1000]: by(p, 's', rbytes(r, n)); p('sig.sk k %s')
    out.append(p)
    for _ in range(6 * k):
        p = Prog('seed-%d' % r.getrandbits(24))
        for _ in range(10): n = r.choice([32, 32, 33, 48, 64, 65, 128]); by(p, 's', r.choice([rbytes(r, n), bytes(n), b'\xff' * n, bytes(n - 1) + b'\1'])); p('sig.sk k %s')
        out.append(p)
    for _ in range(24 * k):
        p = Prog('child-%d' % r.getrandbits(24))
        if r.random() < .4: by(p, 's', rbytes(r, 32)); p('sig.sk k0 %s')
        else: p('sc.raw k0 ' + sch(skval(r) if r.random() < .9 else r.getrandbits(256), 4))
        cur = 'k0'
        for i in range(4):           # a path m/i/j/k/l and a sibling
            p('sig.child k%d %%%s %d' % (i + 1, cur, r.choice(IDX + [r.getrandbits(32)]))); cur = 'k%d' % r.choice([i + 1, i + 1, 0])
        p('sig.pk q %k1') if r.random() < .3 else None
        out.append(p)
    p = Prog('eip2333-all-idx'); p('sc.raw k ' + sch(r.randrange(Q), 4))
    for i in IDX: p('sig.child c %%k %d' % i)
    out.append(p)
    for _ in range(4 * k):
        p = Prog('lamport-%d' % r.getrandbits(24))
        by(p, 'i', rbytes(r, r.choice([32, 32, 16, 64]))); by(p, 's', rbytes(r, r.choice([4, 4, 0, 32]))); p('kdf.lamportSk - %i %s')
        p('sc.raw k ' + sch(skval(r), 4)); p('kdf.lamportPk - %%k %d' % r.choice(IDX))
        out.append(p)
    return out

# ---- C19: unhardened derivation ---------------------------------------------------------------------------
def c19(tier, r):
    k = 1 if tier == 'quick' else 10; out = []
    p1, p2 = pool(E1, r), pool(E2, r)
    for _ in range(30 * k):
        p = Prog('unhardened-%d' % r.getrandbits(24))
        p('sc.raw k0 ' + sch(skval(r), 4)); p('sig.pk p0 %k0'); p('g2.base G'); p('g2.scaleS q0 %G %k0')
        for i in range(r.choice([1, 2, 3])):
            x = r.choice(IDX + [r.getrandbits(32)])
            p('sig.childU k%d %%k%d %d' % (i + 1, i, x)); p('sig.childG1 p%d %%p%d %d' % (i + 1, i, x)); p('sig.pk t %%k%d' % (i + 1)); p('g1.equal - %%t %%p%d' % (i + 1)); p('sig.childG2 q%d %%q%d %d' % (i + 1, i, x))
            if r.random() < .3: p('sig.child kh %%k%d %d' % (i, x))
        out.append(p)
    for _ in range(16 * k):
        p = Prog('childpoints-%d' % r.getrandbits(24)); x = r.choice(IDX)
        a, b = p1.any(.15), p2.any(.15)
        for i in range(3):      # the same point in several representations
            p(p1.ld('a', a)); p('sig.childG1 c %%a %d' % x); p(p2.ld('b', b)); p('sig.childG2 d %%b %d' % x)
        out.append(p)
    p = Prog('identity', weight=300)
    for zi in ('zero', 'zzz', 'junk'): p(E1.load('a', None, r, zi)); p('sig.childG1 c %a 7'); p(E2.load('b', None, r, zi)); p('sig.childG2 d %b 7')
    p('sc.raw z ' + sch(0, 4)); p('sig.childU k %z 7'); p('sig.pk t %k'); p('g1.equal - %t %c')
    for i in IDX: p('sc.raw z ' + sch(skval(r), 4)); p('sig.childU k %%z %d' % i)
    return out + [p]

# ---- C20: scalars, secret key octets, hexadecimal --------------------------------------------------------------
ADDW = [(4, 4, 4), (5, 4, 4), (6, 4, 4), (6, 6, 4), (6, 4, 6), (7, 6, 6), (8, 6, 6), (1, 1, 1), (2, 1, 1), (3, 1, 1), (3, 2, 1), (4, 1, 4), (8, 8, 8), (2, 4, 4)]
MULW = [(8, 4, 4), (2, 1, 1), (5, 4, 1), (5, 1, 4), (10, 6, 4), (12, 6, 6), (9, 4, 4), (4, 2, 2)]
DIVW = [(1, 1), (2, 1), (2, 2), (4, 4), (6, 4), (8, 4), (4, 1), (4, 2), (4, 3), (6, 6), (8, 6), (12, 6), (8, 8), (8, 1), (3, 2), (5, 4)]
def limbs(r, n):
    return sum(r.choice([0, 0, M64, M64, 1, 1 << 63, (1 << 63) - 1, M64 - 1, r.getrandbits(64), r.getrandbits(r.randrange(1, 65))]) << (64 * i) for i in range(n))
def wide(r, n):
    c = r.random(); top = 1 << (64 * n)
    if c < .45: return limbs(r, n)
    if c < .6: return r.choice([0, 1, top - 1, top - 2, top >> 1, (top >> 1) - 1])
    return r.getrandbits(r.randrange(1, 64 * n + 1))
def divpair(r, n, k):
    """operands that need the correction steps of schoolbook division"""
    d = max(1 << (64 * (k - 1)), min(wide(r, k), (1 << 64 * k) - 1)); c = r.random(); top = 1 << (64 * n)
    if k == 4 and c < .5: d = Q
    if c < .15: d = (1 << (64 * k - 1)) + r.choice([0, 1, M64])
    elif c < .25: d = (1 << (64 * k)) - r.choice([1, 2, 1 << 63, 1 << 64])
    elif c < .32: d = (1 << (64 * (k - 1))) + r.choice([0, 1, (1 << (64 * (k - 1))) - 1])
    d = max(1, min(d, (1 << 64 * k) - 1))
    if d < 1 << (64 * (k - 1)): d |= 1 << (64 * (k - 1))
    e = r.random()
    if e < .5: a = d * r.randrange(max(1, top // d)) + r.choice([0, -1, d - 1, 1, r.randrange(d)])
    elif e < .65: a = d * (top // d) - r.choice([0, 1, d, d + 1])
    elif e < .75: a = (d << (64 * r.randrange(max(1, n - k + 1)))) - r.choice([0, 1])
    else: a = wide(r, n)
    return max(0, min(a, top - 1)), d
def c20(tier, r):
    k = 1 if tier == 'quick' else 12; out = []
    for _ in range(10 * k):
        p = Prog('skbytes-%d' % r.getrandbits(24))
        for _ in range(20):
            v = r.choice([0, 1, Q - 1, Q, Q + 1, 2 * Q - 1, 2 * Q, 2 * Q + 1, (1 << 256) - 1, Q ^ (1 << 64), Q + (1 << 64), Q - (1 << 64), Q + (1 << 192), Q - (1 << 192), Q ^ 1, r.getrandbits(256), r.randrange(Q), limbs(r, 4)]) % (1 << 256)
            by(p, 'b', be(v, 32)); p('sig.skFrom k %b 0'); p('sig.skTo c %k'); p('sig.skFromd k %c'); p('sig.skFrom k %b 1'); p('sig.skTo c %k')
        out.append(p)
    for _ in range(30 * k):
        p = Prog('scalar-%d' % r.getrandbits(24))
        for _ in range(12):
            n = r.choice([1, 2, 3, 4, 5, 6, 8]); v = wide(r, n); w = r.choice([v, max(v - 1, 0), v ^ (1 << r.randrange(64 * n)), wide(r, n)])
            p('sc.raw a ' + sch(v, n)); p('sc.raw b ' + sch(w, n))
            p('sc.toLE c %a'); p('sc.fromLE d %c'); p('sc.equal - %a %d'); p('sc.fromBE d %c'); p('sc.toBE c %a'); p('sc.fromBE d %c'); p('sc.equal - %a %b'); p('sc.cmp - %a %b'); p('sc.cmp - %b %a'); p('sc.bits - %a')
            s = r.choice([0, 1, 63, 64, 65, 127, 128, 64 * n - 1, 64 * n - 64, r.randrange(64 * n)])
            if 0 <= s < 64 * n: p('sc.rsh d %%a %d' % s); p('sc.rshA d %%a %d' % s)
        out.append(p)
    for _ in range(20 * k):
        p = Prog('arith-%d' % r.getrandbits(24))
        for c, a, b in ADDW:
            x, y = wide(r, a), wide(r, b); m = max(a, b)
            if r.random() < .4 and a >= b: y = ((1 << (64 * a)) - x - r.choice([0, 1])) % (1 << (64 * b))     # carries all the way
            p('sc.raw a ' + sch(x, a)); p('sc.raw b ' + sch(y, b)); p('sc.add d %%a %%b %d' % c)
        for c, a, b in MULW: p('sc.raw a ' + sch(wide(r, a), a)); p('sc.raw b ' + sch(wide(r, b), b)); p('sc.mul d %%a %%b %d' % c)
        for n, d in DIVW:
            for _ in range(3): x, y = divpair(r, n, d); p('sc.raw a ' + sch(x, n)); p('sc.raw b ' + sch(y, d)); p('sc.divn - %a %b')
        out.append(p)
    for _ in range(8 * k):
        p = Prog('hex-%d' % r.getrandbits(24))
        for _ in range(10):
            b = rbytes(r, r.choice([0, 1, 2, 3, 16, 31, 32, 33, 48, 96, 100])); by(p, 'b', b); p('hex.enc t %b'); p('hex.dec c %t')
            if len(b) in (1, 32, 48, 96): p('hex.encN t %b'); p('hex.decN c %%t %d' % len(b))
            h = b.hex(); h = r.choice([h, h.upper(), '0x' + h, '0x' + h.upper(), h[:-1], '0x' + h[1:], ''.join(r.choice([c, c.upper()]) for c in h)])
            by(p, 't', h.encode()); p('hex.dec c %t')
            if len(h.replace('0x', '', 1) if h.startswith('0x') else h) == 64: p('hex.decN c %t 32')
        out.append(p)
    p = Prog('hex-short')
    for t in (b'', b'0', b'x', b'0x', b'00', b'0x0', b'0x00', b'a', b'ab', b'0xA', b'0xaB', b'00x1'):
        if t != b'00x1': by(p, 't', t); p('hex.dec c %t')
    out.append(p)
    return out

# ---- signatures ---------------------------------------------------------------------------------------------
class Sg:
    """builds signing scenarios; the secret scalars are known, so that expectations need no pairing"""
    def __init__(s, tag, r): s.p, s.r, s.n = Prog('%s-%d' % (tag, r.getrandbits(28))), r, 0; s.p1, s.p2 = pool(E1, r), pool(E2, r)
    def new(s, pre): s.n += 1; return '%s%d' % (pre, s.n)
    def key(s, v=None):
        """(secret register, public register, value)"""
        k, q = s.new('k'), s.new('q'); v = skval(s.r) if v is None else v
        s.p('sc.raw %s %s' % (k, sch(v, 4))); s.p('sig.pk %s %%%s' % (q, k)); return k, q, v
    def msg(s, b=None): m = s.new('m'); by(s.p, m, msg(s.r) if b is None else b); return m
    def sign(s, k, m): t = s.new('s'); s.p('sig.sign %s %%%s %%%s' % (t, k, m)); return t
    def rezig(s, g, reg):
        """the same point through another Jacobian triple"""
        E, pl = (E1, s.p1) if g == 'g1' else (E2, s.p2); t = s.new('z'); a = s.new('a')
        s.p(pl.ld(a, s.r.choice(pl.sub)[1])); s.p('%s.add %s %%%s %%%s' % (g, t, reg, a)); s.p('%s.sub %s %%%s %%%s' % (g, t, t, a)); return t
    def torsion(s, g, reg):
        pl = s.p1 if g == 'g1' else s.p2; t = s.new('t'); a = s.new('a')
        s.p(pl.ld(a, s.r.choice(pl.tors)[1])); s.p('%s.add %s %%%s %%%s' % (g, t, reg, a)); return t
    def op(s, o, *a): t = s.new('o'); s.p('%s %s %s' % (o, t, ' '.join('%' + x for x in a))); return t
    def bump(s, g, reg, i=None):
        """a neighbour of the triple: one component differs"""
        t = s.new('n'); s.p('%s.bump %s %%%s %d' % (g, t, reg, s.r.randrange(4 if g == 'g1' else 7) if i is None else i)); return t
    def off(s, g): t = s.new('f'); s.p((s.p1 if g == 'g1' else s.p2).off(t)); return t
    def inf(s, g): t = s.new('i'); E = E1 if g == 'g1' else E2; s.p(E.load(t, None, s.r, s.r.choice(['zero', 'zzz', 'junk']))); return t
    def pt(s, g, cls):
        pl = s.p1 if g == 'g1' else s.p2; t = s.new('p')
        s.p(pl.ld(t, s.r.choice(pl.sub)[1] if cls == 'sub' else s.r.choice(pl.curve) if cls == 'curve' else s.r.choice(pl.tors)[1])); return t
    def verify(s, q, m, t, w=None): s.p('sig.verify - %%%s %%%s %%%s%s' % (q, m, t, '' if w is None else ' %064x' % (w % Q)))
def s_put(l, j, x): return l[:j] + [x] + l[j + 1:]
def flip(r, b):
    if not b: return b'\0'
    c = r.randrange(5); i = r.randrange(len(b))
    if c == 0: return b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
    if c == 1: return b[:-1]
    if c == 2: return b + r.choice([b'\0', b'\x80', b'a'])
    if c == 3: return bytes([b[0] ^ 0x80]) + b[1:]
    return b[:-1] + bytes([b[-1] ^ 1])
def c01(tier, r):
    q = tier == 'quick'; out = []
    for i in range(64 if q else 800):
        s = Sg('sv', r); k, pk, v = s.key(0 if i == 7 else None); b = msg(r) if i % 8 else rbytes(r, LENS[i // 8 % len(LENS)]); m = s.msg(b); t = s.sign(k, m)
        a, g = r.choice([pk, s.rezig('g1', pk)]), r.choice([t, s.rezig('g2', t)]); s.verify(a, m, g, v)
        s.verify(a, m, s.bump('g2', g, i % 7), v); s.verify(a, m, g, v)          # a neighbour right after the good one
        if i % 2: s.verify(s.bump('g1', a, i // 2 % 3), m, g); s.verify(a, m, g, v)
        else: s.verify(s.bump('g1', a, 3), m, g, -v); s.verify(a, m, g, v)
        for c in r.sample(range(17), 5):
            if c == 0: s.verify(pk, s.msg(flip(r, b)), t, v)
            elif c == 1: k2, pk2, v2 = s.key(r.choice([None, (v + 1) % Q, (Q - v) % Q, (v - 1) % Q, v ^ 1])); s.verify(pk2, m, t, v2)
            elif c == 2: s.verify(pk, m, s.op('g2.neg', t), v)
            elif c == 3: s.verify(s.op('g1.neg', pk), m, t, -v)
            elif c == 4: s.verify(s.op('g1.neg', pk), m, s.op('g2.neg', t), -v)
            elif c == 5: s.verify(pk, m, s.torsion('g2', t), v)
            elif c == 6: s.verify(s.torsion('g1', pk), m, t)
            elif c == 7: s.verify(s.torsion('g1', pk), m, s.torsion('g2', t))
            elif c == 8: s.verify(pk, m, s.op('g2.add', t, s.pt('g2', 'sub')), v)
            elif c == 9: s.verify(pk, m, s.inf('g2'), v)
            elif c == 10: s.verify(s.inf('g1'), m, t, 0)
            elif c == 11: s.verify(s.inf('g1'), m, s.inf('g2'), 0)
            elif c == 12: s.verify(pk, m, s.off('g2'), v)
            elif c == 13: s.verify(s.off('g1'), m, t)
            elif c == 14: s.verify(pk, m, s.pt('g2', 'curve'), v); s.verify(s.pt('g1', 'curve'), m, t)
            elif c == 15: s.verify(pk, m, s.pt('g2', 'tors'), v); s.verify(s.pt('g1', 'tors'), m, s.inf('g2')); s.verify(s.inf('g1'), m, s.pt('g2', 'tors'), 0)
            elif c == 16: s.verify(pk, m, s.op('g2.dbl', t), v); s.verify(s.op('g1.dbl', pk), m, s.op('g2.dbl', t), 2 * v)
        out.append(s.p)
    for i in range(8 if q else 60):      # the equation itself, without the secret
        s = Sg('full', r); k, pk, v = s.key(r.randrange(1, Q)); m = s.msg(); t = s.sign(k, m)
        if i % 2: s.verify(pk, m, r.choice([s.op('g2.neg', t), s.op('g2.add', t, s.pt('g2', 'sub'))]))
        else: s.verify(s.rezig('g1', pk), m, s.rezig('g2', t))
        s.p.weight = 1600; out.append(s.p)
    return out

def c02(tier, r):
    q = tier == 'quick'; out = []
    for i in range(80 if q else 900):
        s = Sg('agg', r); n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]); ks = [s.key() for _ in range(n)]
        if n > 1 and r.random() < .2: ks[r.randrange(1, n)] = ks[0]            # the same key twice
        bs = [msg(r) for _ in range(n)]; c = r.random()
        if n > 1 and c < .35: a, b = r.sample(range(n), 2); bs[a] = bs[b]        # a duplicate at any distance
        elif n > 1 and c < .5: a, b = r.sample(range(n), 2); bs[a] = flip(r, bs[b])
        ms = [s.msg(b) for b in bs]; ss = [s.sign(k[0], m) for k, m in zip(ks, ms)]
        agg = s.new('A'); s.p('sig.aggSig %s %s' % (agg, ' '.join('%' + x for x in ss)))
        def chk(sig, pks, ms, ws, flag=None):
            f = r.choice('01d') if flag is None else flag
            s.p('sig.aggVerify - %%%s %s %s %d %s' % (sig, ' '.join('%' + x for x in pks + ms), f, len(pks), ' '.join('%064x' % (w % Q) for w in ws)))
        pk = [k[1] for k in ks]; w = [k[2] for k in ks]
        for f in '01d': chk(agg, pk, ms, w, f)
        chk(s.bump('g2', agg, i % 7), pk, ms, w, '1'); chk(agg, pk, ms, w, '1')
        if n: j = r.randrange(n); chk(agg, s_put(pk, j, s.bump('g1', pk[j], i % 3)), ms, [], '1'); chk(agg, pk, ms, w, '1')
        for c in r.sample(range(12), 3):
            if c == 0 and n > 1: o = r.sample(range(n), n); chk(agg, [pk[j] for j in o], [ms[j] for j in o], [w[j] for j in o])   # reordered pairs
            elif c == 1 and n > 1: o = list(range(n)); o[0], o[1] = 1, 0; chk(agg, pk, [ms[j] for j in o], w, '0')               # messages swapped
            elif c == 2 and n: chk(agg, pk, ms[:-1], [])
            elif c == 3: chk(agg, pk, ms + [s.msg()], [])
            elif c == 4 and n: j = r.randrange(n); chk(agg, pk[:j] + [s.torsion('g1', pk[j])] + pk[j + 1:], ms, [], '0')
            elif c == 5 and n: j = r.randrange(n); chk(agg, pk[:j] + [s.off('g1')] + pk[j + 1:], ms, [], '0')
            elif c == 6: chk(s.torsion('g2', agg), pk, ms, w, '0')
            elif c == 7: chk(r.choice([s.off('g2'), s.inf('g2'), s.op('g2.neg', agg)]), pk, ms, w, '0')
            elif c == 8 and n: j = r.randrange(n); chk(agg, pk[:j] + pk[j + 1:], ms[:j] + ms[j + 1:], w[:j] + w[j + 1:], '0')   # a signer missing
            elif c == 9 and n: k2 = s.key(); chk(agg, pk + [k2[1]], ms + [s.msg()], w + [k2[2]], '0')                              # a signer too many
            elif c == 10 and n: j = r.randrange(n); chk(agg, pk[:j] + [s.inf('g1')] + pk[j + 1:], ms, w[:j] + [0] + w[j + 1:], '0')
            elif c == 11 and n: chk(s.rezig('g2', agg), [s.rezig('g1', x) for x in pk], ms, w)
        out.append(s.p)
    # many messages, one duplicate far away from the first
    for n in ([22] if q else [19, 20, 21, 40]):
        s = Sg('many', r); ks = [s.key() for _ in range(3)]; bs = [bytes([j, n]) for j in range(n)]; kk = [ks[j % 3] for j in range(n)]
        ms = [s.msg(b) for b in bs]; ss = [s.sign(k[0], m) for k, m in zip(kk, ms)]; s.p('sig.aggSig A ' + ' '.join('%' + x for x in ss))
        s.p('sig.aggVerify - %%A %s 1 %d %s' % (' '.join('%' + x for x in [k[1] for k in kk] + ms), n, ' '.join('%064x' % k[2] for k in kk)))
        ms[-1] = ms[1]; s.p('sig.aggVerify - %%A %s 1 %d %s' % (' '.join('%' + x for x in [k[1] for k in kk] + ms), n, ' '.join('%064x' % k[2] for k in kk)))
        s.p.weight = n * 300; out.append(s.p)
    for i in range(4 if q else 20):      # without witnesses
        s = Sg('aggfull', r); ks = [s.key(r.randrange(1, Q)) for _ in range(2)]; ms = [s.msg() for _ in ks]; ss = [s.sign(k[0], m) for k, m in zip(ks, ms)]
        A = s.op('g2.add', *ss); 
        if i % 2: ms.reverse()
        s.p('sig.aggVerify - %%%s %s %s 2' % (A, ' '.join('%' + x for x in [k[1] for k in ks] + ms), '0')); s.p.weight = 2500; out.append(s.p)
    return out

def c03(tier, r):
    q = tier == 'quick'; out = []
    for i in range(60 if q else 700):
        s = Sg('hom', r); n = r.choice([0, 1, 2, 2, 3, 4, 5, 8]); p = s.p
        vs = [r.choice([None, 0, 1, Q - 1]) if r.random() < .3 else None for _ in range(n)]
        ks = [s.key(v) for v in vs]
        if n > 1 and r.random() < .3: ks[-1] = s.key((Q - ks[0][2]) % Q)       # cancels
        if n > 2 and r.random() < .3: ks[1] = ks[0]
        m = s.msg(); ss = [s.sign(k[0], m) for k in ks]
        J = lambda v: ' '.join('%' + x for x in v)
        p('sig.aggSk SK ' + J([k[0] for k in ks])); p('sig.aggPk PK ' + J([k[1] for k in ks])); p('sig.aggSig SG ' + J(ss))
        p('sig.pk t %SK'); p('g1.equal - %t %PK')
        if n: p('sig.sign u %SK %' + m); p('g2.equal - %u %SG'); w = sum(k[2] for k in ks) % Q; p('sig.verify - %%PK %%%s %%SG %064x' % (m, w))
        if n > 1:
            o = r.sample(range(n), n); p('sig.aggSk SK2 ' + J([ks[j][0] for j in o])); p('sc.equal - %SK %SK2'); p('sig.aggPk PK2 ' + J([ks[j][1] for j in o])); p('g1.equal - %PK %PK2'); p('sig.aggSig SG2 ' + J([ss[j] for j in o])); p('g2.equal - %SG %SG2')
            c = r.randrange(1, n)      # grouping
            p('sig.aggPk L ' + J([k[1] for k in ks[:c]])); p('sig.aggPk M ' + J([k[1] for k in ks[c:]])); p('sig.aggPk N %L %M'); p('g1.equal - %N %PK'); p('sig.aggSk SL ' + J([k[0] for k in ks[:c]])); p('sig.aggSk SM ' + J([k[0] for k in ks[c:]])); p('sig.aggSk SN %SL %SM')
            p('sig.aggSig GL ' + J(ss[:c])); p('sig.aggSig GM ' + J(ss[c:])); p('sig.aggSig GN %GL %GM')
        mk = ''.join(r.choice('01') for _ in range(n)) or '-'
        for o, v in (('aggPkT', [k[1] for k in ks]), ('aggSigT', ss)): p('sig.%s T %s -' % (o, J(v))); p('sig.%s T %s %s' % (o, J(v), mk))
        # points of any kind and the identity in any representation
        v1 = [s.inf('g1') if r.random() < .2 else s.pt('g1', r.choice(['sub', 'curve', 'tors'])) for _ in range(r.randrange(1, 5))]; v1 += [r.choice(v1)] if r.random() < .4 else []
        if r.random() < .3: v1.append(s.op('g1.neg', v1[0]))
        v2 = [s.inf('g2') if r.random() < .2 else s.pt('g2', r.choice(['sub', 'curve', 'tors'])) for _ in range(r.randrange(1, 4))]; v2 += [r.choice(v2)] if r.random() < .4 else []
        p('sig.aggPk a ' + J(v1)); p('sig.aggSig b ' + J(v2)); p('sig.aggPkT c %s %s' % (J(v1), ''.join(r.choice('01') for _ in v1))); p('sig.aggSigT c %s %s' % (J(v2), ''.join(r.choice('01') for _ in v2)))
        out.append(p)
    return out

def c04(tier, r):
    q = tier == 'quick'; out = []
    for i in range(60 if q else 700):
        s = Sg('pop', r); p = s.p; k, pk, v = s.key(0 if i == 3 else None); t = s.new('P'); p('sig.popProve %s %%%s' % (t, k))
        pv = lambda q_, t_, w=None: p('sig.popVerify - %%%s %%%s%s' % (q_, t_, '' if w is None else ' %064x' % (w % Q)))
        pv(pk, t, v); pv(s.rezig('g1', pk), s.rezig('g2', t), v)
        pv(pk, t, v); pv(pk, s.bump('g2', t, i % 7), v); pv(pk, t, v)
        if i % 2: pv(s.bump('g1', pk, i // 2 % 3), t); pv(pk, t, v)
        else: pv(s.bump('g1', pk, 3), t, -v); pv(pk, t, v)
        for c in r.sample(range(10), 4):
            if c == 0: k2, pk2, v2 = s.key(); pv(pk2, t, v2)
            elif c == 1: e = s.new('e'); p('g1.toALE %s %%%s 1' % (e, pk)); g = s.sign(k, e); pv(pk, g, v); s.verify(pk, e, t, v)        # the domains are separate
            elif c == 2: pv(pk, s.torsion('g2', t), v)
            elif c == 3: pv(s.torsion('g1', pk), t)
            elif c == 4: pv(s.op('g1.neg', pk), t, -v); pv(s.op('g1.neg', pk), s.op('g2.neg', t), -v)
            elif c == 5: pv(pk, s.inf('g2'), v); pv(s.inf('g1'), s.inf('g2'), 0)
            elif c == 6: pv(pk, s.off('g2'), v); pv(s.off('g1'), t)
            elif c == 7: pv(pk, s.pt('g2', 'curve'), v); pv(s.pt('g1', 'tors'), s.inf('g2'))
            elif c == 8: pv(s.op('g1.dbl', pk), s.op('g2.dbl', t), 2 * v)       # proofs are not linear
            elif c == 9: e = s.new('e'); p('g1.toC %s %%%s' % (e, pk)); pv(pk, s.sign(k, e), v)
        # fast aggregate verification of one message
        n = r.choice([1, 1, 2, 3, 4]); ks = [s.key() for _ in range(n)]; m = s.msg(); ss = [s.sign(x[0], m) for x in ks]; p('sig.aggSig A ' + ' '.join('%' + x for x in ss)); W = sum(x[2] for x in ks)
        fa = lambda pks, m_, sg, w=None: p('sig.popFast - %%%s %%%s %s%s' % (m_, sg, ' '.join('%' + x for x in pks), '' if w is None else ' %064x' % (w % Q)))
        pks = [x[1] for x in ks]; fa(pks, m, 'A', W); fa(pks, m, s.bump('g2', 'A', i % 6), W); fa(r.sample(pks, n), m, 'A', W); fa([], m, 'A')
        if i % 2: fa(pks, m, 'A', W); j = r.randrange(n); fa(s_put(pks, j, s.bump('g1', pks[j], i // 2 % 3)), m, 'A'); fa(pks, m, 'A', W)
        c = r.randrange(8)
        if c == 0: fa(pks[1:] or [], m, 'A', W - ks[0][2]) if n > 1 else fa([], m, s.inf('g2'))
        elif c == 1: fa(pks + [pks[0]], m, 'A', W + ks[0][2])
        elif c == 2: fa(pks, s.msg(), 'A', W)
        elif c == 3: fa(pks, m, s.torsion('g2', 'A'), W)
        elif c == 4: a = s.new('t'); p(s.p1.ld(a, r.choice(s.p1.tors)[1])); fa(pks + [a], m, 'A')
        elif c == 5:    # torsion that cancels inside the aggregate is not visible to the verifier
            a = s.new('t'); p(s.p1.ld(a, r.choice(s.p1.tors)[1])); x = s.op('g1.add', pks[0], a); y = s.op('g1.neg', a); fa([x] + pks[1:] + [y], m, 'A', W)
        elif c == 6:    # rogue key: the aggregate is the attacker's own key
            x = s.key(); rk = s.op('g1.sub', x[1], pks[0]); sg = s.sign(x[0], m); fa([pks[0], rk], m, sg, x[2]); pr = s.new('P'); p('sig.popProve %s %%%s' % (pr, x[0])); pv(rk, pr, x[2] - ks[0][2])
        else: g = s.op('g1.neg', pks[0]); fa(pks + [g], m, 'A', W - ks[0][2]); fa([pks[0], g], m, s.inf('g2'), 0)
        out.append(p)
    for i in range(4 if q else 20):
        s = Sg('popfull', r); k, pk, v = s.key(r.randrange(1, Q)); s.p('sig.popProve t %' + k)
        if i % 2: s.p('g2.neg t %t')
        s.p('sig.popVerify - %%%s %%t' % pk); s.p.weight = 1700; out.append(s.p)
    return out

# ---- C09: the same program on every implementation of the arithmetic -------------------------------------------
def c09(tier, r):
    q = tier == 'quick'; k = 1 if q else 8
    ps = low_programs(r, 60 * k) + word_programs(r, 12 * k) + [field_program('fp', r, 120, special=fp_special) for _ in range(30 * k)]
    for kind, sp in (('fp2', sp_fp2), ('fp6', sp_fp6), ('fp12', sp_fp12)): ps += [field_program(kind, r, 60, special=sp) for _ in range(8 * k)]
    ps += [group_program(E1, r, 80) for _ in range(8 * k)] + [group_program(E2, r, 60) for _ in range(6 * k)]
    for f, n in ((c14, 10), (c05, 8), (c06, 10), (c11, 8), (c16, 8), (c18, 6), (c19, 6), (c20, 10), (c01, 8), (c15, 4)):
        allp = f('quick', r); ps += r.sample(allp, min(len(allp), n * (1 if q else 4)))
    E = [EDGE[i] for i in sorted(r.sample(range(len(EDGE)), 16 if q else 40))]
    for x in E:
        p = Prog('low-edge-%x' % x)
        for y in E:
            for o in ('add', 'sub', 'mul', 'ladd') + (('lsub',) if y <= x else ()): p('low.%s - %s %s %d' % (o, h48(x), h48(y), r.randrange(3)))
        for o in ('dbl', 'neg', 'sq', 'ldbl'): p('low.%s - %s 0' % (o, h48(x))); p('low.%s - %s 1' % (o, h48(x)))
        ps.append(p)
    return ps

# ---- structured lists: positions, lengths and special members --------------------------------------------------
def J(v): return ' '.join('%' + x for x in v)
def W64(v): return ' '.join('%064x' % (w % Q) for w in v)
class Agg(Sg):
    """n signers of n messages; chk() asks the verifier about any list made of them"""
    def __init__(s, tag, r, n, nk=None, msgs=None, sign=True):
        super().__init__(tag, r); kk = [s.key(r.randrange(1, Q)) for _ in range(nk or n)]; s.ks = [kk[j % len(kk)] for j in range(n)]
        s.bs = msgs or [bytes([j, n & 255]) + b'message' for j in range(n)]; s.ms = [s.msg(b) for b in s.bs]; s.N = n
        s.A = s.new('A')
        if sign: s.p('sig.aggSig %s %s' % (s.A, J([s.sign(k[0], m) for k, m in zip(s.ks, s.ms)])))
        else: s.p(s.p2.ld(s.A, r.choice(s.p2.sub)[1]))
        s.pk = [k[1] for k in s.ks]; s.w = [k[2] for k in s.ks]
    def chk(s, pks=None, ms=None, ws=None, flag='0', sig=None):
        pks = s.pk if pks is None else pks; ms = s.ms if ms is None else ms; ws = s.w if ws is None else ws
        s.p('sig.aggVerify - %%%s %s %s %d %s' % (sig or s.A, J(pks + ms), flag, len(pks), W64(ws)))
    def put(s, lst, j, v): return lst[:j] + [v] + lst[j + 1:]
def c02_lists(tier, r):
    q = tier == 'quick'; out = []
    # a duplicate message at every pair of positions, with repetitions allowed and not allowed
    for n in (2, 3, 5, 8) if q else (2, 3, 4, 5, 6, 7, 8, 12):
        s = Agg('dup-%d' % n, r, n, 2)
        prs = [(a, b) for a in range(n) for b in range(a + 1, n)]
        for a, b in prs if not q else r.sample(prs, min(len(prs), 12)): s.chk(ms=s.put(s.ms, b, s.ms[a]), flag=r.choice('0d')); s.chk(ms=s.put(s.ms, b, s.msg(s.bs[a])), flag='0')
        s.chk(); s.chk(flag='d'); out.append(s.p)
    # the same, where the list with the repetition really is what was signed
    for n in (2, 3, 4, 6, 9) if q else range(2, 13):
        for _ in range(1 if q else 4):
            a, b = sorted(r.sample(range(n), 2)); bs = [bytes([j]) * (j + 1) for j in range(n)]; bs[b] = bs[a]
            s = Agg('signeddup-%d-%d-%d' % (n, a, b), r, n, msgs=bs); s.chk(flag='1'); s.chk(flag='0'); s.chk(flag='d')
            if n > 2: k = [x for x in range(n) if x not in (a, b)][0]; o = list(range(n)); o[k], o[b] = o[b], o[k]; s.chk([s.pk[j] for j in o], [s.ms[j] for j in o], [s.w[j] for j in o], flag='0')
            out.append(s.p)
    # messages that are nearly equal: prefixes, zero padding, last octet, first octet, empty
    bs = [b'', b'\0', b'\0\0', b'a', b'a\0', b'\0a', b'b', b'aa', b'ab', b'ba', bytes(32), bytes(33), bytes(31) + b'\1', b'\1' + bytes(31), b'\xff' * 32, b'\x7f' + b'\xff' * 31]
    for _ in range(2 if q else 8):
        o = r.sample(range(len(bs)), r.choice([3, 5, len(bs)])); s = Agg('near-%d' % r.getrandbits(24), r, len(o), 3, msgs=[bs[i] for i in o]); s.chk(flag='0'); s.chk(flag='d'); s.chk(flag='1'); out.append(s.p)
    # keys outside the subgroup whose surplus cancels, at any two positions; an unusable key at every position
    for n in (2, 3, 4, 6) if q else (2, 3, 4, 5, 6, 8):
        s = Agg('cancel-%d' % n, r, n, 3)
        for l, t in s.p1.tors[:4 if q else None]:
            a, b = r.sample(range(n), 2); tr = s.new('t'); s.p(s.p1.ld(tr, t)); pk = list(s.pk); pk[a] = s.op('g1.add', s.pk[a], tr); pk[b] = s.op('g1.sub', s.pk[b], tr)
            s.chk(pk, ws=[], flag=r.choice('01')); s.chk(s.put(s.pk, a, pk[a]), ws=[], flag='0')
        t3 = [t for l, t in s.p1.tors if l == 3]
        if n >= 3 and t3:          # three surpluses of order 3
            tr = s.new('t'); s.p(s.p1.ld(tr, t3[0])); s.chk([s.op('g1.add', x, tr) for x in s.pk[:3]] + s.pk[3:], ws=[], flag='0')
        # the same key twice, off by a surplus and its opposite
        tr = s.new('t'); s.p(s.p1.ld(tr, r.choice(s.p1.tors)[1])); s.chk([s.op('g1.add', s.pk[0], tr), s.op('g1.sub', s.pk[0], tr)] + s.pk[2:], ws=[], flag='0')
        out.append(s.p)
    for n in (3, 5) if q else (1, 2, 3, 4, 5, 7, 9):
        s = Agg('badkey-%d' % n, r, n, 2)
        for j in range(n):
            s.chk(s.put(s.pk, j, s.torsion('g1', s.pk[j])), ws=[], flag=r.choice('0d1')); s.chk(s.put(s.pk, j, s.pt('g1', 'tors')), ws=[]); s.chk(s.put(s.pk, j, s.pt('g1', 'curve')), ws=[])
            s.chk(s.put(s.pk, j, s.off('g1')), ws=[]); s.chk(s.put(s.pk, j, s.inf('g1')), ws=s.put(s.w, j, 0)); s.chk(s.put(s.pk, j, s.op('g1.neg', s.pk[j])), ws=s.put(s.w, j, -s.w[j]))
            s.chk(s.put(s.pk, j, s.key(r.randrange(1, Q))[1]), ws=[]) if q is False else None
        for l, t in s.p2.tors[:3 if q else None]: tr = s.new('t'); s.p(s.p2.ld(tr, t)); s.chk(sig=s.op('g2.add', s.A, tr))
        s.chk(sig=s.op('g2.neg', s.A)); s.chk(sig=s.off('g2')); s.chk(sig=s.inf('g2')); s.chk(sig=s.rezig('g2', s.A)); s.chk([s.rezig('g1', x) for x in s.pk])
        out.append(s.p)
    # after a list that is accepted, its neighbours
    for n in (2, 3, 5) if q else (1, 2, 3, 4, 5, 8, 12):
        s = Agg('neighbours-%d' % n, r, n, 3); b = lambda j: bytes([s.bs[j][0] ^ 1]) + s.bs[j][1:] if s.bs[j] else b'?'
        for j in range(n):
            s.chk(flag='1'); s.chk(s.put(s.pk, j, s.bump('g1', s.pk[j], j % 3)), ws=[], flag='1'); s.chk(flag='1'); s.chk(ms=s.put(s.ms, j, s.msg(b(j))), flag='1')
            s.chk(flag='1'); x = s.key(); s.chk(s.put(s.pk, j, x[1]), ws=s.put(s.w, j, x[2]), flag='1')
        for j in range(7): s.chk(flag='1'); s.chk(sig=s.bump('g2', s.A, j), flag='1')
        s.chk(); out.append(s.p)
    # unequal numbers of keys and messages
    s = Agg('counts', r, 6, 2, sign=False)
    for a in range(0, 7):
        for b in range(0, 7):
            if a != b: s.chk(s.pk[:a], s.ms[:b], [], flag=r.choice('01d')); s.chk(s.pk[:a], s.ms[:b], [], sig=s.inf('g2')) if r.random() < .5 else None
    i1 = s.inf('g1'); i2 = s.inf('g2')
    for n in range(0, 4):
        s.chk([i1] * n, s.ms[:n], [0] * n, sig=i2); s.chk([i1] * n, s.ms[:n], [0] * n)
        if n: s.chk([s.op('g1.neg', s.pk[0]) if j == 1 else s.pk[0] if j == 0 else i1 for j in range(n)], [s.ms[0]] * n, [0 if j > 1 else s.w[0] if j == 0 else -s.w[0] for j in range(n)], flag='1', sig=i2)
    out.append(s.p)
    # long lists: trouble anywhere
    for n in (17, 33) if q else (16, 17, 20, 21, 32, 33, 40, 64, 65, 100):
        s = Agg('long-%d' % n, r, n, 3); s.p.weight = 25 * n; s.chk(); s.chk(flag='1')
        for j in sorted({0, 1, n // 2, n - 2, n - 1} | set(r.sample(range(n), 3))):
            s.chk(s.put(s.pk, j, s.torsion('g1', s.pk[j])), ws=[]); s.chk(s.put(s.pk, j, s.off('g1')), ws=[])
            k = r.randrange(n); j != k and s.chk(ms=s.put(s.ms, j, s.ms[k])); s.chk(ms=s.put(s.ms, j, s.msg(b'other%d' % j)), flag=r.choice('01'))
        out.append(s.p)
    return out
def c03_lists(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    M256 = (1 << 256) - 1
    for n in range(0, 41):
        p = Prog('sum-%d' % n)
        for rep in range(2 if q else 8):
            vs = [skval(r) for _ in range(n)]
            if rep == 1: vs = [r.choice([Q - 1, Q - 1, Q - 2, 0, 1, Q >> 1, (Q >> 1) + 1]) for _ in range(n)]
            if n > 1 and rep % 2: vs[-1] = (-sum(vs[:-1]) + r.choice([0, 0, 1, -1])) % Q
            for i, v in enumerate(vs): p('sc.raw k%d %s' % (i, sch(v, 4)))
            p('sig.aggSk S ' + J(['k%d' % i for i in range(n)]))
            for o, pl, k, x in (('aggPk', p1, 'g1', 'p'), ('aggSig', p2, 'g2', 's')):
                E = pl.E; pts = [pl.any(.08) for _ in range(n)]
                if n > 1 and rep == 1: a = r.choice(pl.sub)[1]; pts = [r.choice([a, E.neg(a), a, None, pl.any()]) for _ in range(n)]
                for i, a in enumerate(pts): p(pl.ld('%s%d' % (x, i), a))
                rg = ['%s%d' % (x, i) for i in range(n)]
                p('sig.%s A %s' % (o, J(rg))); p('sig.%sT T %s -' % (o, J(rg))); p('%s.equal - %%A %%T' % k)
                for _ in range(2): mk = ''.join(r.choice('01') for _ in range(n)) or '-'; p('sig.%sT T %s %s' % (o, J(rg), mk))
                if n:
                    j = r.randrange(n); p('sig.%sT T %s %s' % (o, J(rg), ''.join('1' if i == j else '0' for i in range(n)))); p('%s.equal - %%T %%%s%d' % (k, x, j)); p('sig.%sT T %s %s' % (o, J(rg), ''.join('0' if i == j else '1' for i in range(n)))); p('%s.sub T %%A %%T' % k); p('%s.equal - %%T %%%s%d' % (k, x, j)); p('sig.%sT T %s %s' % (o, J(rg), '0' * n))
        out.append(p)
    # a sum, then the sum of a list that differs in one place, then the first again
    for n in (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 8, 17):
        p = Prog('near-%d' % n)
        for i in range(n):
            v = skval(r); p('sc.raw k%d %s' % (i, sch(v, 4))); p('sc.raw l%d %s' % (i, sch((v ^ (1 << r.randrange(250))) % Q, 4)))
            for pl, x in ((p1, 'p'), (p2, 's')): a = pl.any(0); p(pl.ld('%s%d' % (x, i), a)); p(pl.ld('%sx%d' % (x, i), r.choice([pl.E.neg(a), pl.any(0), None, endo(pl.E, a) if pl.E is E1 else pl.E.neg(a)])))
        for o, x, y, m in (('aggSk', 'k', 'l', ''), ('aggPk', 'p', 'px', ''), ('aggSig', 's', 'sx', ''), ('aggPkT', 'p', 'px', ' -'), ('aggSigT', 's', 'sx', ' -'), ('aggPkT', 'p', 'px', ' ' + '1' * n), ('aggSigT', 's', 'sx', ' ' + '1' * n)):
            near(lambda l: p('sig.%s T %s%s' % (o, J(l), m)), ['%s%d' % (x, i) for i in range(n)], [(i, '%s%d' % (y, i)) for i in range(n)])
        out.append(p)
    # every pair of special points, in every representation, both through the list and as a fold
    for k, pl, o in (('g1', p1, 'aggPk'), ('g2', p2, 'aggSig')):
        E = pl.E; a = r.choice(pl.sub)[1]; b = r.choice(pl.curve); sp = [None, None, a, a, E.neg(a), E.add(a, a), b, E.neg(b), r.choice(pl.tors)[1]]
        p = Prog('pairs-' + k)
        for rep in range(1 if q else 4):
            for i, x in enumerate(sp): p(pl.ld('p%d' % i, x, 'affine' if rep == 3 and x else None))
            for i in range(len(sp)):
                for j in range(len(sp)): p('sig.%s t %%p%d %%p%d' % (o, i, j)); p('sig.%sT t %%p%d %%p%d %%p%d -' % (o, i, j, r.randrange(len(sp)))); p('sig.%sT t %%p%d %%p%d %%p%d 1%d1' % (o, r.randrange(len(sp)), i, j, r.getrandbits(1)))
        out.append(p)
    # signing and adding commute, for many signers
    for n in (6, 12, 31) if q else (6, 7, 12, 20, 31, 33, 64):
        s = Sg('many-%d' % n, r); ks = [s.key(r.randrange(Q)) for _ in range(n)]; m = s.msg(); ss = [s.sign(k[0], m) for k in ks]; p = s.p
        p('sig.aggSk K ' + J([k[0] for k in ks])); p('sig.aggPk P ' + J([k[1] for k in ks])); p('sig.aggSig S ' + J(ss)); p('sig.pk t %K'); p('g1.equal - %t %P'); p('sig.sign t %K %' + m); p('g2.equal - %t %S'); s.verify('P', m, 'S', sum(k[2] for k in ks)); out.append(p)
    return out
def c01_lengths(tier, r):
    """sign and verify, for every message length and every shape of key"""
    q = tier == 'quick'; out = []; L = list(range(0, 200, 1)) + list(range(200, 700, 7))
    if q: L = sorted(r.sample(range(0, 200), 40)) + [300, 511, 512, 513]
    for i in range(0, len(L), 8):
        s = Sg('len-%d' % i, r); k, pk, v = s.key(r.randrange(1, Q))
        for n in L[i:i + 8]: b = rbytes(r, n); m = s.msg(b); t = s.sign(k, m); s.verify(pk, m, t, v); m2 = s.msg(flip(r, b)); s.verify(pk, m2, t, v)
        out.append(s.p)
    for i in range(6 if q else 40):
        s = Sg('keys', r); m = s.msg(rbytes(r, 32))
        for _ in range(6): k, pk, v = s.key(); t = s.sign(k, m); s.verify(pk, m, t, v); s.verify(s.rezig('g1', pk), m, s.rezig('g2', t), v)
        for v in r.sample([0, 1, 2, Q - 1, Q - 2, (Q - 1) // 2, (Q + 1) // 2, X, X * X, 1 << 254, 1 << 64, 1 << 128, (1 << 192) - 1], 4): k, pk, v = s.key(v); t = s.sign(k, m); s.verify(pk, m, t, v); s.verify(pk, m, s.op('g2.neg', t), v)
        out.append(s.p)
    # signatures and keys outside the groups: every torsion class, projective and affine
    for i in range(2 if q else 10):
        s = Sg('class', r); k, pk, v = s.key(r.randrange(1, Q)); m = s.msg(); t = s.sign(k, m)
        for E, g, reg in ((E2, 'g2', t), (E1, 'g1', pk)):
            pl = s.p2 if E is E2 else s.p1
            for l, tt in pl.tors:
                a = s.new('a'); s.p(pl.ld(a, tt)); x = s.op(g + '.add', reg, a); y = s.op(g + '.affine', x)
                for z in (x, y): s.verify(pk, m, z, v) if g == 'g2' else s.verify(z, m, t)
                s.verify(pk, m, a, v) if g == 'g2' else s.verify(a, m, t)
            for z in ('zero', 'zzz', 'junk'): a = s.new('a'); s.p(E.load(a, None, r, z)); s.verify(pk, m, a, v) if g == 'g2' else (s.verify(a, m, t, 0), s.verify(a, m, s.inf('g2'), 0))
            for _ in range(3): s.verify(pk, m, s.off('g2'), v) if g == 'g2' else s.verify(s.off('g1'), m, t)
            x = s.op(g + '.affine', reg); s.verify(pk, m, x, v) if g == 'g2' else s.verify(x, m, t, v)
        out.append(s.p)
    return out
def c04_lists(tier, r):
    q = tier == 'quick'; out = []
    # one message, keys of every kind and number
    for n in (1, 2, 3, 5, 8, 17, 33) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 64):
        s = Sg('fast-%d' % n, r); p = s.p; ks = [s.key(r.randrange(1, Q)) for _ in range(min(n, 5))]; kk = [ks[j % len(ks)] for j in range(n)]; m = s.msg(); W = sum(k[2] for k in kk); pks = [k[1] for k in kk]
        sg = {k[0]: s.sign(k[0], m) for k in ks}; p('sig.aggSig A ' + J([sg[k[0]] for k in kk]))
        fa = lambda v, t='A', w=None, mm=m: p('sig.popFast - %%%s %%%s %s%s' % (mm, t, J(v), '' if w is None else ' %064x' % (w % Q)))
        fa(pks, w=W); fa(r.sample(pks, n), w=W); fa([s.rezig('g1', x) for x in pks], s.rezig('g2', 'A'), W)
        fa(pks[:-1], w=W - kk[-1][2]); fa(pks + [pks[0]], w=W + kk[0][2]); fa(pks, mm=s.msg(), w=W); fa(pks, s.op('g2.neg', 'A'), W); fa([s.op('g1.neg', x) for x in pks], s.op('g2.neg', 'A'), -W)
        i = s.inf('g1'); fa(pks + [i], w=W); fa([i] + pks, w=W); fa([i], w=0); fa([i] * n, s.inf('g2'), 0)
        for l, t in s.p1.tors[:4]: a = s.new('t'); p(s.p1.ld(a, t)); j = r.randrange(n); fa(pks[:j] + [s.op('g1.add', pks[j], a)] + pks[j + 1:])
        for l, t in s.p2.tors[:4]: a = s.new('t'); p(s.p2.ld(a, t)); fa(pks, s.op('g2.add', 'A', a), W)
        fa([s.off('g1')] + pks); fa(pks, s.off('g2'), W); fa(pks, s.inf('g2'), W)
        g = s.op('g1.neg', pks[0]); fa(pks + [g], w=W - kk[0][2]); fa([pks[0], g], w=0); fa([pks[0], g], s.inf('g2'), 0); fa([], s.inf('g2'))
        for j in range(n) if n <= 5 else [n // 2]:      # the neighbours of a list that is accepted, right after it
            x = s.key(); fa(pks, w=W); fa(s_put(pks, j, x[1]), w=W - kk[j][2] + x[2]); fa(pks, w=W); fa(s_put(pks, j, s.bump('g1', pks[j], j % 3)))
        for j in range(7): fa(pks, w=W); fa(pks, s.bump('g2', 'A', j), W)
        fa(pks, w=W); out.append(p)
    # proofs for special keys; proofs made of other encodings of the key, under both suites
    for i in range(3 if q else 20):
        s = Sg('proof', r); p = s.p
        for v in r.sample([0, 1, 2, Q - 1, Q - 2, (Q + 1) // 2, X, 1 << 254, r.randrange(Q), r.randrange(Q)], 4):
            k, pk, v = s.key(v); t = s.new('P'); p('sig.popProve %s %%%s' % (t, k))
            pv = lambda a, b, w=None: p('sig.popVerify - %%%s %%%s%s' % (a, b, '' if w is None else ' %064x' % (w % Q)))
            pv(pk, t, v); pv(s.rezig('g1', pk), s.op('g2.affine', t), v); pv(s.op('g1.affine', pk), s.rezig('g2', t), v)
            for l, tt in r.sample(s.p1.tors, 3): a = s.new('t'); p(s.p1.ld(a, tt)); pv(s.op('g1.add', pk, a), t); pv(a, t); pv(a, s.inf('g2'))
            for l, tt in r.sample(s.p2.tors, 3): a = s.new('t'); p(s.p2.ld(a, tt)); pv(pk, s.op('g2.add', t, a), v); pv(pk, a, v)
            for o in ('toC %s %%%s', 'toABE %s %%%s 1', 'toALE %s %%%s 1', 'toALE %s %%%s 0', 'toJLE %s %%%s 1', 'toABE %s %%%s 0'):
                e = s.new('e'); p('g1.' + o % (e, pk)); dd = s.new('d'); by(p, dd, b'BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_'); h = s.new('h'); p('sig.fromMsg %s %%%s %%%s' % (h, e, dd)); p('g2.scaleS %s %%%s %%%s' % (h, h, k)); pv(pk, h, v)
                if r.random() < .4: pv(pk, s.sign(k, e), v)
        out.append(p)
    return out
def c17_every(tier, r):
    q = tier == 'quick'; out = []
    for n, m in ((5, 40), (32, 64), (70, 65), (130, 200)) if q else [(r.randrange(1, 300), r.randrange(1, 300)) for _ in range(40)]:
        L = r.choice([1, 31, 32, 33, 64, 100, 256]); cl = ['kdf.hmac - %%%s %%%s', 'kdf.extract - %%%s %%%s', 'kdf.expand - %%%%%%s %%%%%%s %d' % L, 'kdf.xmd - %%%%%%s %%%%%%s %d' % L]
        out += byte_neighbours('kdf', r, [lambda d, t=t: t % (d['a'], d['b']) for t in cl] + [lambda d: 'kdf.full - %%%s %%%s %%%s %d' % (d['a'], d['b'], d['c'], L), lambda d: 'sha.hash - %%%s' % d['b']], dict(a=rbytes(r, n), b=rbytes(r, m), c=rbytes(r, r.choice([0, 1, 50, 70]))), 4)
    # every output length; every length of every input around the block boundaries
    for i in range(1, 301, 25):
        p = Prog('out-%d' % i)
        for L in range(i, i + 25):
            by(p, 'k', rbytes(r, 32)); by(p, 'i', rbytes(r, r.randrange(0, 70))); by(p, 'd', dst(r)); by(p, 'm', rbytes(r, r.randrange(0, 70))); p('kdf.expand - %%k %%i %d' % L); p('kdf.xmd - %%m %%d %d' % L); p('kdf.full - %%d %%m %%i %d' % L)
        out.append(p)
    for i in range(0, 300, 20):
        p = Prog('in-%d' % i)
        for n in range(i, i + 20):
            b = rbytes(r, n); by(p, 'b', b); by(p, 'k', rbytes(r, r.choice([0, 1, 32, 64, 65]))); by(p, 's', rbytes(r, 32))
            p('kdf.hmac - %k %b'); p('kdf.hmac - %b %k'); p('kdf.extract - %b %k'); p('kdf.extract - %k %b'); p('kdf.expand - %%s %%b %d' % r.choice([31, 32, 33, 64, 65, 100])); p('kdf.full - %%b %%k %%s %d' % r.choice([48, 64, 82])); p('kdf.full - %%k %%b %%s %d' % r.choice([32, 48]))
            p('kdf.xmd - %%b %%k %d' % r.choice([32, 48, 256])); p('kdf.xmd - %%k %%b %d' % r.choice([16, 32, 48, 64, 256]))
        out.append(p)
    for L in [8128, 8129, 8150, 8159, 8160, 8161, 8162, 8191, 8192, 10000, 65536, 70000] + [255 * 32 + i * 32 for i in (1, 2, 255)]:
        p = Prog('limit-%d' % L); by(p, 'k', rbytes(r, 32)); by(p, 'i', rbytes(r, 5)); p('kdf.expand - %%k %%i %d' % L); p('kdf.xmd - %%i %%k %d' % L); p('kdf.xmd - %%k %%i %d' % L); out.append(p)
    # every pair of cuts of a message of up to three blocks
    for n in (64, 65, 127, 128, 129, 191, 192) if q else (1, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 183, 184, 191, 192, 193, 256, 257):
        p = Prog('cuts-%d' % n); by(p, 'm', rbytes(r, n)); C = sorted({0, 1, 31, 55, 56, 63, 64, 65, 127, 128, 129, n - 1, n} & set(range(n + 1)))
        for a in C:
            for b in C:
                if a + b <= n: p('sha.hash - %%m %d %d' % (a, b))
        p('sha.hash - %m ' + ' '.join(['1'] * n)); p('sha.hash - %m ' + ' '.join(['0', '1'] * min(n, 70))); p('sha.hash - %m ' + ' '.join(['3'] * (n // 3)))
        out.append(p)
    p = Prog('bytes')        # every octet value at every position of a word
    for v in range(256): by(p, 'm', bytes([v])); p('sha.hash - %m'); by(p, 'm', bytes([v] * 4)); p('sha.hash - %m') if v % 4 == 0 else None
    for n in (1, 3, 4, 32, 55, 64):
        for j in range(0, 8 * n, 1 if n < 5 else 7): by(p, 'm', (1 << j).to_bytes(n, 'big')); p('sha.hash - %m')
    out.append(p)
    return out
def c18_every(tier, r):
    q = tier == 'quick'; out = []
    for n in (32, 65, 100) if q else (32, 33, 48, 64, 65, 96, 128, 200): out += byte_neighbours('seed', r, [lambda d: 'sig.sk k %%%s' % d['s']], dict(s=rbytes(r, n)), 8)
    for n0 in (32, 40) if q else (0, 32, 64, 96):
        p = Prog('seed-%d' % n0)
        for n in range(n0, n0 + (8 if q else 32)): by(p, 's', rbytes(r, n)); p('sig.sk k %s')
        out.append(p)
    # every bit of the index and of the parent key takes part
    idx = [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(2, 32)] + [0xffffffff ^ (1 << i) for i in range(0, 32, 5)]
    idx = r.sample(idx, 30) if q else idx
    for i in range(0, len(idx), 6):
        p = Prog('idx-%d' % i); p('sc.raw k ' + sch(r.randrange(Q), 4))
        for x in idx[i:i + 6]: p('sig.child c %%k %d' % x)
        out.append(p)
    ks = [1 << i for i in range(0, 255)] + [0xff << (8 * i) for i in range(31)] + [Q - 1, Q - 2, 0, 1]
    ks = r.sample(ks, 30) if q else r.sample(ks, 150)
    for i in range(0, len(ks), 6):
        p = Prog('parent-%d' % i)
        for v in ks[i:i + 6]: p('sc.raw k ' + sch(v, 4)); p('sig.child c %%k %d' % r.choice(IDX)); r.random() < .3 and p('kdf.lamportPk - %%k %d' % r.choice(IDX))
        out.append(p)
    for i in range(3 if q else 20):
        p = Prog('lamport-len-%d' % i)
        for _ in range(6): by(p, 'i', rbytes(r, r.randrange(0, 130))); by(p, 's', rbytes(r, r.randrange(0, 130))); p('kdf.lamportSk - %i %s')
        out.append(p)
    return out
def child_neighbours(r, q):
    """the children of a key, of one that shares three words with it, and of the next index, one operation at a time"""
    p = Prog('child-neighbours-%d' % r.getrandbits(24)); v = r.randrange(Q); i = r.getrandbits(31); ks = [v] + [(v ^ (1 << (64 * j + r.randrange(50)))) % Q for j in range(4)] + [Q - v]; p('g2.base G')
    for j, x in enumerate(ks): p('sc.raw k%d %s' % (j, sch(x, 4))); p('sig.pk p%d %%k%d' % (j, j)); p('g2.scaleS q%d %%G %%k%d' % (j, j))
    ix = [i] + [i ^ (1 << b) for b in (0, 8, 16, 24, 31)]
    p('g1.glv px %p0'); p('g1.neg pm %p0'); p('g1.bump pz %p0 3'); p('g2.neg qx %q0'); p('g2.bump qz %q0 6')
    for o, x, e in (('child', 'k', []), ('childU', 'k', []), ('childG1', 'p', ['px', 'pm', 'pz']), ('childG2', 'q', ['qx', 'qz'])):
        near(lambda l: p('sig.%s c %%%s %d' % (o, l[0], l[1])), [x + '0', i], [(0, '%s%d' % (x, j)) for j in range(1, len(ks) if o != 'child' or not q else 3)] + [(0, y) for y in e] + [(1, y) for y in (ix[1:] if o != 'child' or not q else ix[1:4])])
    return [p]
def c19_every(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    for _ in range(1 if q else 8): out += child_neighbours(r, q)
    idx = [1 << i for i in range(32)] + [(1 << i) - 1 for i in range(2, 33)] + [0xffffffff ^ (1 << i) for i in range(32)]
    for i in range(0, len(idx), 8):
        p = Prog('idx-%d' % i); v = r.randrange(Q); p('sc.raw k ' + sch(v, 4)); p('sig.pk p %k'); p('g2.base G'); p('g2.scaleS q %G %k')
        for x in idx[i:i + 8]: p('sig.childU c %%k %d' % x); p('sig.pk a %c'); p('sig.childG1 b %%p %d' % x); p('g1.equal - %a %b'); p('g2.scaleS a %G %c'); p('sig.childG2 b %%q %d' % x); p('g2.equal - %a %b') if False else None
        out.append(p)
    ks = [1 << i for i in range(255)] + [Q - 1 - i for i in range(6)] + [Q - (1 << i) for i in range(0, 254, 9)] + [0, 1, 2, 3]
    ks = r.sample(ks, 60) if q else ks
    for i in range(0, len(ks), 10):
        p = Prog('parent-%d' % i)
        for v in ks[i:i + 10]: x = r.choice(IDX + [r.getrandbits(32)]); p('sc.raw k ' + sch(v, 4)); p('sig.pk p %k'); p('sig.childU c %%k %d' % x); p('sig.pk a %c'); p('sig.childG1 b %%p %d' % x); p('g1.equal - %a %b')
        out.append(p)
    # points with leading zero octets, of every class and in every representation
    for k, pl, o in (('g1', p1, 'childG1'), ('g2', p2, 'childG2')):
        for l, a in [(0, None)] + pl.tors + [(0, x) for x in pl.curve[:6] + pl.mixed[:6]]:
            p = Prog('%s-%d-%d' % (o, l, r.getrandbits(16))); x = r.choice(IDX)
            for zm in (('zero', 'zzz', 'junk') if a is None else ('affine', 'jac', None)):
                p(pl.E.load('a', a, r, zm) if a is None else pl.ld('a', a, zm)); p('sig.%s c %%a %d' % (o, x))
            out.append(p)
    return out
def c20_every(tier, r):
    q = tier == 'quick'; out = []
    p = Prog('hex-values')         # every octet value; every digit character in either half; every length
    for v in range(256):
        by(p, 'b', bytes([v])); p('hex.enc t %b'); p('hex.dec c %t'); p('hex.encN t %b'); p('hex.decN c %t 1')
    for n in (32, 48, 96):          # every octet at every position
        for b in [bytes(n), bytes([255]) * n, bytes(range(n)), bytes(range(256 - n, 256))] + [bytes([v if i % 7 == k else 0 for i in range(n)]) for k in range(7) for v in (0x0f, 0xf0)] + [bytes([255 if i != k else r.choice([0, 9, 10, 0x90, 0xa0]) for i in range(n)]) for k in range(n)]:
            by(p, 'b', b); p('hex.encN t %b'); p('hex.decN c %%t %d' % n); p('hex.enc t %b'); p('hex.dec c %t'); by(p, 't', b.hex().upper().encode()); p('hex.decN c %%t %d' % n)
    D = '0123456789abcdefABCDEF'
    for a in D:
        for b in D: by(p, 't', (a + b).encode()); p('hex.dec c %t'); p('hex.decN c %t 1') if r.random() < .3 else None
    out.append(p)
    p = Prog('hex-lengths')
    for n in range(0, 130):
        b = rbytes(r, n); by(p, 'b', b); p('hex.enc t %b'); p('hex.dec c %t'); t = b.hex(); by(p, 't', t.encode()); p('hex.dec c %t'); by(p, 't', (t + 'a').encode()); p('hex.dec c %t'); by(p, 't', ('0x' + t + '0').encode()); p('hex.dec c %t')
    out.append(p)
    for n in (1, 2, 3, 4, 5, 6, 8):
        p = Prog('bits-%d' % n); top = 64 * n
        for i in range(top):
            p('sc.raw a ' + sch(1 << i, n)); p('sc.bits - %a'); p('sc.raw b ' + sch((1 << i) - 1, n)); p('sc.bits - %b'); p('sc.cmp - %a %b'); p('sc.cmp - %b %a'); p('sc.equal - %a %b'); p('sc.toLE c %a'); p('sc.fromLE d %c'); p('sc.toBE c %a'); p('sc.fromBE d %c')
            if i % 3 == 0: p('sc.raw b ' + sch((1 << i) ^ r.getrandbits(top), n)); p('sc.raw a ' + sch(r.getrandbits(top), n)); p('sc.cmp - %a %b')
        out.append(p)
        p = Prog('rsh-%d' % n)
        for v in ((1 << top) - 1, r.getrandbits(top), 1 << (top - 1), limbs(r, n)):
            p('sc.raw a ' + sch(v, n))
            for s in list(range(top)) + [top, top + 1, top + 63, top + 64, top + 65, 2 * top, 512, 513, 576, 1023, 1024, 1025, 2048]: p('sc.rsh d %%a %d' % s); p('sc.rshA d %%a %d' % s) if s % 4 == 0 else None
        out.append(p)
        p = Prog('cmp-%d' % n)       # values that differ in one limb, the lower limbs the other way round
        for i in range(n):
            for _ in range(6):
                x = [r.getrandbits(64) for _ in range(n)]; y = list(x); y[i] = r.choice([(x[i] + 1) & M64, x[i] ^ (1 << r.randrange(64)), x[i] ^ (1 << 63), x[i] ^ (1 << 31), x[i] ^ (1 << 32), r.getrandbits(64)]); y[:i] = [r.choice([v, M64 - v, r.getrandbits(64)]) for v in x[:i]]
                a, b = (sum(v << (64 * j) for j, v in enumerate(t)) for t in (x, y)); p('sc.raw a ' + sch(a, n)); p('sc.raw b ' + sch(b, n)); p('sc.cmp - %a %b'); p('sc.cmp - %b %a'); p('sc.equal - %a %b'); p('sc.equal - %a %a')
        out.append(p)
    # secret keys around every multiple of the order, and with one limb of the order changed
    p = Prog('sk-edges'); qs = [(Q >> (64 * i)) & M64 for i in range(4)]; vs = [k * Q + d for k in (0, 1, 2) for d in range(-3, 4)] + [(1 << i) for i in range(256)] + [Q ^ (1 << i) for i in range(256)]
    for i in range(4):
        for d in (-1, 0, 1):
            for low in (0, M64, None): l = list(qs); l[i] = (l[i] + d) & M64; l[:i] = [low if low is not None else v for v in l[:i]]; vs.append(sum(v << (64 * j) for j, v in enumerate(l)))
    for v in vs:
        if 0 <= v < 1 << 256: by(p, 'b', be(v, 32)); p('sig.skFrom k %b 0'); p('sig.skFrom j %b 1'); p('sig.skFromd k %b'); p('sig.skTo c %j')
    out.append(p)
    # division: quotient digits at their extremes, for every shape
    for n, d in DIVW:
        p = Prog('div-%d-%d' % (n, d))
        for _ in range(40 if q else 400): x, y = divpair(r, n, d); p('sc.raw a ' + sch(x, n)); p('sc.raw b ' + sch(y, d)); p('sc.divn - %a %b')
        out.append(p)
    for c, a, b in ADDW:
        p = Prog('add-%d-%d-%d' % (c, a, b))
        for i in range(16 if q else 120):
            x, y = wide(r, a), wide(r, b); m = max(a, b)
            if i % 2: k = r.randrange(1, m + 1); y = ((1 << (64 * k)) - x) % (1 << (64 * b)); y = max(0, y - r.choice([0, 0, 1]))
            p('sc.raw a ' + sch(x, a)); p('sc.raw b ' + sch(y, b)); p('sc.add d %%a %%b %d' % c)
        out.append(p)
    for c, a, b in MULW:
        p = Prog('mul-%d-%d-%d' % (c, a, b))
        for i in range(12 if q else 120): p('sc.raw a ' + sch(wide(r, a), a)); p('sc.raw b ' + sch(wide(r, b), b)); p('sc.mul d %%a %%b %d' % c)
        out.append(p)
    return out

def c20_paths(paths, tier, r):
    """every way through long division, as found by the model with short words, with words of 64 bits: the leading bits are the
    model's, the others zeros, ones or random"""
    out = []; paths = [x for x in paths if (x[1], x[2]) in DIVW]
    if tier == 'quick' and len(paths) > 420: paths = r.sample(paths, 420)
    fill = lambda v, n, wb, f: sum((((v >> (wb * i)) & ((1 << wb) - 1)) << (64 - wb) | (0 if f == 0 else (1 << (64 - wb)) - 1 if f == 1 else r.getrandbits(64 - wb))) << (64 * i) for i in range(n))
    for i in range(0, len(paths), 70):
        p = Prog('div-paths-%d' % i)
        for wb, n, k, x, y in paths[i:i + 70]:
            for f, g in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 2)):
                a, d = fill(x, n, wb, f), fill(y, k, wb, g)
                for a in (a, a - 1 if f == 0 and r.random() < .2 and a else a): p('sc.raw a ' + sch(a, n)); p('sc.raw d ' + sch(d, k)); p('sc.divn - %a %d')
        out.append(p)
    return out
