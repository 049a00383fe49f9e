"""Sizes: message, seed and output lengths and numbers of arguments around the powers of two where a counter, a buffer or a
window could change.  Long inputs are compared with the inputs they would be taken for if the length were cut."""
from gens_sig import *
BIG = [65535, 65536, 65537, 65546, 65568, 69000, 70000, 98304, 131071, 131072, 131077]
MID = [1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769]
def lens(r, q, nbig=3, nmid=4): return r.sample(MID, nmid) + [65536 + r.choice([0, 0, 1, 10, 32])] + r.sample(BIG, nbig) if q else MID + BIG
def cuts(n): return sorted({n & 0xffff, n & 0xfff, n & 0xff, n & 0x7fff, n - 1, n >> 1, max(n - 65535, 0)} - {n})
def cutof(r, b, k=1):
    """what the octets would be taken for: some prefix, some suffix, or the first and last octets exchanged for others"""
    n = len(b); c = r.sample(cuts(n), min(k, len(cuts(n)))); out = [b[:x] for x in c]
    i = r.choice([n - 1, min(n - 1, 65535), min(n - 1, 65536), min(n - 1, 4096), n // 2]); out.append(b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:])
    return out
def longbytes(r, n): return r.getrandbits(8 * n).to_bytes(n, 'little') if n else b''
def c01_size(tier, r):
    q = tier == 'quick'; out = []
    for n in lens(r, q):
        s = Sg('size-%d' % n, r); k, pk, v = s.key(r.randrange(1, Q)); b = longbytes(r, n); m = s.msg(b); t = s.sign(k, m); s.verify(pk, m, t, v)
        for x in cutof(r, b): s.verify(pk, s.msg(x), t, v)
        s.p.once = n > 40000; out.append(s.p)
    return out
def c02_size(tier, r):
    q = tier == 'quick'; out = []
    for n in lens(r, q, 1, 1):
        b = longbytes(r, n); bs = [b] + cutof(r, b, 2); s = Agg('size-%d' % n, r, len(bs), 2, msgs=bs); s.chk(); s.chk(flag='1'); s.chk(ms=s.put(s.ms, 1, s.ms[0])); s.chk(ms=[s.ms[0], s.ms[1], s.msg(b)] + s.ms[3:])
        s.p.once = n > 40000; out.append(s.p)
    for n in [r.choice([63, 64, 65]), r.choice([127, 128, 129])] if q else [63, 64, 65, 127, 128, 129, 255, 256, 257]:
        s = Agg('count-%d' % n, r, n, 3, msgs=[bytes([j & 255, j >> 8]) * (1 + j % 3) for j in range(n)], sign=n < 70 or not q); s.p.weight = 40 * n; s.chk()
        j = n - 1 - r.randrange(3); s.chk(ms=s.put(s.ms, j, s.ms[r.randrange(5)])); s.chk(s.put(s.pk, j, s.torsion('g1', s.pk[j])), ws=[]); s.chk(ms=s.put(s.ms, j, s.msg(b'another')))
        s.p.once = True; out.append(s.p)
    return out
def c03_size(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    for n in [64, r.choice([63, 65, 100]), r.choice([127, 128, 129]), 256 + r.randrange(1, 60)] + ([] if q else [62, 63, 65, 66, 96, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025]):
        p = Prog('count-%d-%d' % (n, r.getrandbits(16)), weight=n * 2)
        for i in range(9): p(p1.ld('p%d' % i, p1.any(.1))); p(p2.ld('s%d' % i, p2.any(.1))); p('sc.raw k%d %s' % (i, sch(skval(r), 4)))
        for o, x, k in (('aggPk', 'p', 'g1'), ('aggSig', 's', 'g2')):
            rg = [x + str(r.randrange(9)) for _ in range(n)]; p('sig.%s A %s' % (o, J(rg))); p('sig.%sT T %s -' % (o, J(rg)))
            for j in {r.choice([0, n // 2, n - 2, r.randrange(n)]), n - 1}: p('sig.%sT T %s %s' % (o, J(rg), ''.join('1' if i == j else '0' for i in range(n)))); p('%s.equal - %%T %%%s' % (k, rg[j]))
            p('sig.%sT T %s %s' % (o, J(rg), ''.join(r.choice('01') if i < 200 else r.choice('0001') for i in range(n))))
            p('sig.%s T %s' % (o, J(rg[:n - 1]))); p('%s.add T %%T %%%s' % (k, rg[-1])); p('%s.equal - %%T %%A' % k)
        p('sig.aggSk K ' + J(['k%d' % r.randrange(9) for _ in range(n)])); p('sig.aggSk K ' + J(['k%d' % r.randrange(1, 3) for _ in range(n)]))
        out.append(p)
    return out
def c04_size(tier, r):
    q = tier == 'quick'; out = []
    for n in [64, r.choice([63, 65]), r.choice([127, 128, 129]), r.choice([255, 256, 257])] + ([] if q else [63, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513]):
        s = Sg('count-%d' % n, r); p = s.p; ks = [s.key(r.randrange(1, Q)) for _ in range(4)]; kk = [ks[j % 4] for j in range(n)]; b = longbytes(r, r.choice([32, 32, 1024, 65536 + 5])); m = s.msg(b); W = sum(k[2] for k in kk); pks = [k[1] for k in kk]
        sg = {k[0]: s.sign(k[0], m) for k in ks}; p('sig.aggSig A ' + J([sg[k[0]] for k in kk]))
        fa = lambda v, t='A', w=None, mm=m: p('sig.popFast - %%%s %%%s %s%s' % (mm, t, J(v), '' if w is None else ' %064x' % (w % Q)))
        fa(pks, w=W); fa(pks[:-1], w=W - kk[-1][2]); fa(pks[1:], w=W - kk[0][2]); fa(pks + [pks[1]], w=W + kk[1][2]); fa(pks[:n & 0x3f], w=sum(k[2] for k in kk[:n & 0x3f]))
        if len(b) > 100: fa(pks, mm=s.msg(cutof(r, b)[0]), w=W)
        j = n - 1; a = s.new('t'); p(s.p1.ld(a, r.choice(s.p1.tors)[1])); fa(pks[:j] + [s.op('g1.add', pks[j], a)]); p.once = True; p.weight = 200 + n; out.append(p)
    return out
def c14_size(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        k, pl = E.name, pool(E, r)
        for n in ([r.choice([255, 256, 257]), r.choice([511, 512, 513])] if q else [255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097]):
            p = Prog('%s-count-%d' % (k, n), weight=n * (.4 if E is E1 else 1.5))
            for i in range(12): p(pl.ld('p%d' % i, pl.any(.05))); p('sc.raw s%d %s' % (i, sch(scalar(r) if i else (1 << 256) - 1, 4)))
            p('%s.wsum w %s %d %d' % (k, J_(['p%d' % r.randrange(12) for _ in range(n)] + ['s%d' % r.randrange(12) for _ in range(n)]), r.randrange(2), n)); out.append(p)
    return out
def c15_size(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    for n in [16, 32, 64, 128, r.choice([17, 31, 63, 65, 127, 129])] + ([] if q else [15, 16, 17, 24, 31, 33, 48, 63, 65, 96, 127, 129, 130, 192, 255, 256, 257]):
        p = Prog('count-%d' % n, weight=120 + n); D = {}
        for i in range(4):
            (a, A), (b, B) = r.choice(p1.sub), r.choice(p2.sub); D['a', i], D['b', i] = a, b; p(p1.ld('A%d' % i, A)); p(p2.ld('B%d' % i, B))
        D['a', 4] = D['b', 4] = 0; p(E1.load('A4', None, r, 'zzz')); p(E2.load('B4', None, r, 'zzz'))
        def call(l): p('pair.calcW e %s %s' % (' '.join('%%A%d %%B%d' % x for x in l), ' '.join('%064x %064x' % (D['a', i], D['b', j]) for i, j in l)))
        l = [(r.randrange(4), r.randrange(4)) for _ in range(n)]; call(l)
        i, j = r.choice([0, n - 1, n // 2]), r.randrange(n); l2 = list(l); l2[i] = (4, l2[i][1]); l2[j] = (l2[j][0], 4); call(l2); p('pair.npairs - ' + ' '.join('%%A%d %%B%d' % x for x in l2))
        if n > 40: p.once = True
        out.append(p)
    return out
def c16_size(tier, r):
    q = tier == 'quick'; out = []
    for n in lens(r, q, 1, 2):
        p = Prog('size-%d' % n); b = longbytes(r, n); by(p, 'd', dst(r)); by(p, 'm', b); p('sig.fromMsg h %m %d'); by(p, 'm', cutof(r, b)[-1]); p('sig.fromMsg h %m %d'); p.once = n > 40000; out.append(p)
    for n in lens(r, q, 2, 2) + [1 << 17]:
        p = Prog('dst-size-%d' % n); b = longbytes(r, n); by(p, 'm', msg(r)); by(p, 'd', b); p('sig.fromMsg h %m %d'); by(p, 'd', cutof(r, b)[-1]); p('sig.fromMsg h %m %d'); p.once = n > 40000; out.append(p)
    return out
def c17_size(tier, r):
    q = tier == 'quick'; out = []
    for n in lens(r, q):
        b = longbytes(r, n); s = longbytes(r, r.choice([0, 20, 64, 65]))
        p = Prog('size-%d' % n); by(p, 'm', b); by(p, 's', s); by(p, 'd', dst(r)); p('sha.hash - %m'); p('sha.hash - %%m %d 64 %d' % (r.randrange(n - 200), r.choice([1, 63, 65]))); p('kdf.hmac - %s %m'); p('kdf.hmac - %m %s'); p('kdf.xmd - %m %d 64'); p('kdf.xmd - %s %m 32')
        by(p, 'p', longbytes(r, 32)); p('kdf.expand - %p %m 70') if n < 5000 else p('kdf.expand - %p %m 32'); p('kdf.extract - %m %s'); p('kdf.full - %s %m %s 48'); p('kdf.full - %m %s %s 48'); p.once = n > 20000; p.weight = 60 + n / 200; out.append(p)
    return out
def c18_size(tier, r):
    out = []
    for n in lens(r, tier == 'quick', 2, 3):
        p = Prog('seed-size-%d' % n); b = longbytes(r, n); by(p, 's', b); p('sig.sk k %s'); by(p, 't', cutof(r, b)[-1]); p('sig.sk k %t'); by(p, 'u', cutof(r, b)[0]); p('sig.sk k %u'); p.once = n > 40000; out.append(p)
    return out
def c20_size(tier, r):
    out = []; L = lens(r, tier == 'quick', 0, 2)
    for n in L:
        p = Prog('hex-size-%d' % n, weight=30); b = longbytes(r, n); by(p, 'b', b); p('hex.enc t %b'); p('hex.dec c %t'); p.once = True; out.append(p)
    return out

# ---- inputs of more octets or bits than 32-bit counters hold (written prefix, number of zeros, suffix)
def lots(r, e): return (1 << e) + r.choice([0, 0, 1, 7, 32, 55, 60, 64, r.randrange(200)])
def big(tag, r, e, n=1):
    p = Prog('big-%s-2^%d' % (tag, e), weight=n * (1 << e) / 4e5); p.once = p.big = True
    by(p, 'a', rbytes(r, r.choice([0, 1, 5, 32, 63]))); by(p, 'z', rbytes(r, r.choice([0, 0, 1, 9, 40]))); return p, lots(r, e)
def c16_big(tier, r):
    out = []
    for e in ((29, 31, 32) if tier == 'quick' else (28, 29, 30, 31, 32, 33)):
        p, n = big('msg', r, e); by(p, 'd', dst(r)); p('big.fromMsg h %%a %%z %%d %d' % n); out.append(p)
    for e in ((29,) if tier == 'quick' else (29, 31, 32)): p, n = big('dst', r, e); by(p, 'm', msg(r)); p('big.dst h %%m %%a %%z %d' % n); out.append(p)
    return out
def c01_big(tier, r):
    """a message of 2^e octets and more, and the message it would be taken for if the length were cut"""
    out = []
    for e in ((29, 32) if tier == 'quick' else (28, 29, 30, 31, 32, 33)):
        p, n = big('sign', r, e); w = r.randrange(1, Q); p('sc.raw k ' + sch(w, 4)); p('sig.pk q %k'); p('big.sign t %%k %%a %%z %d' % n); out.append(p)
        if e < 30: p('big.verify - %%q %%a %%z %%t %d %064x' % (n, w)); p('big.verify - %%q %%a %%z %%t %d %064x' % (n - (1 << e), w)); p('sig.sign u %k %z'); p('big.verify - %%q %%a %%z %%u %d %064x' % (n, w))
        else:
            p, n = big('verify', r, e); p('sc.raw k ' + sch(w, 4)); p('sig.pk q %k'); p('big.sign t %%k %%a %%z %d' % (n - (1 << e))); p('big.verify - %%q %%a %%z %%t %d %064x' % (n, w)); out.append(p)
    return out
def c02_big(tier, r):
    out = []
    for e in ((29,) if tier == 'quick' else (29, 31, 32)):
        p, n = big('agg', r, e, 2); w = r.randrange(1, Q); p('sc.raw k ' + sch(w, 4)); p('sig.pk q %k'); p('big.sign t %%k %%a %%z %d' % n); p('big.agg - %%q %%a %%z %%t %d %064x' % (n, w)); out.append(p)
        p('big.sign t %%k %%a %%z %d' % (n - (1 << e))); p('big.agg - %%q %%a %%z %%t %d %064x' % (n, w))
    return out
def c04_big(tier, r):
    out = []
    for e in ((29,) if tier == 'quick' else (29, 31, 32)):
        p, n = big('fast', r, e, 2); w, x = r.randrange(1, Q), r.randrange(1, Q); p('sc.raw k ' + sch(w, 4)); p('sc.raw l ' + sch(x, 4)); p('sig.pk q %k'); p('sig.pk s %l'); p('sig.aggSk m %k %l')
        p('big.sign t %%m %%a %%z %d' % n); p('big.popFast - %%a %%z %%t %%q %%s %d %064x' % (n, (w + x) % Q)); p('big.sign t %%m %%a %%z %d' % (n - (1 << e))); p('big.popFast - %%a %%z %%t %%q %%s %d %064x' % (n, (w + x) % Q)); out.append(p)
    return out
def c17_big(tier, r):
    out = []; q = tier == 'quick'
    for o, es in (('sha', (29, 32) if q else (28, 29, 30, 31, 32, 33)), ('xmd', (31,) if q else (29, 30, 31, 32, 33)), ('hmac', (29,) if q else (29, 30, 31)), ('key', (29,) if q else (29, 31, 32))):
        for e in es:
            p, n = big(o, r, e)
            if o == 'sha': p('sha.big - %%a %%z %d' % n)
            elif o == 'xmd': by(p, 'd', dst(r)); p('big.xmd - %%a %%z %%d %d %d' % (n, r.choice([32, 256, 255])))
            elif o == 'hmac': by(p, 'k', rbytes(r, 64)); p('big.hmac - %%k %%a %%z %d' % n)
            else: by(p, 'm', msg(r)); p('big.key - %%a %%z %%m %d' % n)
            out.append(p)
    return out
def c18_big(tier, r):
    out = []
    for e in ((29,) if tier == 'quick' else (29, 30, 31)): p, n = big('seed', r, e); by(p, 'a', rbytes(r, 32)); p('big.sk k %%a %%z %d' % n); out.append(p)
    return out

# ---- lists of thousands to millions of entries that repeat a few values
def coprime(r): return r.choice([(1, 1), (1, 5), (5, 1), (3, 4), (4, 3), (5, 7), (7, 4), (11, 12), (9, 13)])
def about(r, n): return n + r.choice([-1, 0, 0, 1, r.randrange(1, max(2, n // 8))])
def c14_many(tier, r):
    q = tier == 'quick'; out = []
    for E, ns in ((E1, [300, 1 << r.choice([11, 12, 13]), 1 << r.choice([14, 15, 16]), 1 << 17, 1 << 20] if q else [1 << i for i in range(5, 24)]), (E2, [300, 1 << r.choice([11, 12, 13]), 1 << r.choice([14, 15, 16]), 1 << 17] if q else [1 << i for i in range(5, 21)])):
        k, pl = E.name, pool(E, r)
        for n0 in ns:
            a, b = coprime(r); n = max(n0, about(r, n0)) if r.random() < .8 else about(r, n0); m = n + r.choice([0, 0, 1, -1, 100]); p = Prog('%s-many-%d' % (k, n), weight=30); p.once = True; p.big = n > 70000
            for i in range(a): p(pl.ld('p%d' % i, pl.any(.05)))
            for i in range(b): p('sc.raw s%d %s' % (i, sch((1 << 256) - 1 - r.getrandbits(8) if i == 0 else (1 << 255) + r.getrandbits(255) if i == 1 else scalar(r), 4)))
            p('%s.wsumC w %s %s %d %d %d %d' % (k, J_(['p%d' % i for i in range(a)]), J_(['s%d' % i for i in range(b)]), r.randrange(2), a, n, max(m, 0))); out.append(p)
    return out
def mask(r): return r.choice(['10', '01', '0010000', '110', ''.join(r.choice('01') for _ in range(r.randrange(1, 12)))])
def c03_many(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    for n0 in [300, 1 << r.choice([10, 11, 12]), 1 << 16] if q else [1 << i for i in range(8, 21)]:
        n = n0 + r.randrange(1, n0 // 8); p = Prog('many-%d' % n, weight=60); p.once = True; p.big = n > 70000; a = r.choice([1, 2, 3, 5, 7])
        for i in range(a): p(p1.ld('p%d' % i, p1.any(.1))); p(p2.ld('s%d' % i, p2.any(.1))); p('sc.raw k%d %s' % (i, sch(skval(r) if i else Q - 1 - r.getrandbits(100), 4)))
        for o, x in (('aggPk', 'p'), ('aggSig', 's')):
            rg = J([x + str(i) for i in range(a)]); p('sig.%sC A %s %d' % (o, rg, n)); p('sig.%sTC A %s %s %d' % (o, rg, mask(r), n)); p('sig.%sTC A %s %s %d' % (o, rg, r.choice(['010', '0010000', '01001', '10000000000']), n))
        p('sig.aggSkC K %s %d' % (J(['k%d' % i for i in range(a)]), n * (1 if q else 4))); out.append(p)
    return out
def c15_many(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    for n0 in [256, 512] if q else [256, 512, 1024, 2048, 4096, 16384, 65536]:
        n = max(n0, about(r, n0)); p = Prog('many-%d' % n, weight=150); p.once = True; p.big = n > 3000; k = r.choice([1, 2, 3, 5]); W = []
        for i in range(k): (a, A), (b, B) = r.choice(p1.sub), r.choice(p2.sub); W += [a, b]; p(p1.ld('A%d' % i, A)); p(p2.ld('B%d' % i, B))
        p('pair.calcC e %s %d %s' % (' '.join('%%A%d %%B%d' % (i, i) for i in range(k)), n, ' '.join('%064x' % w for w in W))); out.append(p)
    return out
def c04_many(tier, r):
    q = tier == 'quick'; out = []
    for n0 in [300, 1 << 12] if q else [256, 512, 1024, 4096, 16384, 65536, 1 << 17]:
        n = max(n0, about(r, n0)); s = Sg('many-%d' % n, r); p = s.p; a = r.choice([1, 2, 3, 5]); ks = [s.key(r.randrange(1, Q)) for _ in range(a)]; m = s.msg()
        def fast(n, sg): w = sum(ks[i % a][2] for i in range(n)) % Q; p('sig.popFastC - %%%s %%%s %s %d %064x' % (m, sg, J([k[1] for k in ks]), n, w)); return w
        W = sum(ks[i % a][2] for i in range(n)) % Q; p('sc.raw W ' + sch(W, 4)); t = s.sign('W', m); fast(n, t); fast(n - 1, t); fast(n & 0xff, t) if n & 0xff else None
        p.once = True; p.weight = 300; out.append(p)
    return out
def c02_many(tier, r):
    q = tier == 'quick'; out = []
    for n0 in [256, 512] if q else [256, 512, 1024, 4096, 16384]:
        n = max(n0, about(r, n0)); s = Sg('many-%d' % n, r); p = s.p; a, b = coprime(r); ks = [s.key(r.randrange(1, Q)) for _ in range(a)]; ms = [s.msg(rbytes(r, 3 + i)) for i in range(b)]
        C = [0] * b
        for i in range(n): C[i % b] += ks[i % a][2]
        hs = []
        by(p, 'dst', b'BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_')
        for j in range(b): h = s.new('h'); p('sig.fromMsg %s %%%s %%dst' % (h, ms[j])); p('sc.raw c%d %s' % (j, sch(C[j] % Q, 4))); hs.append(h)
        p('g2.wsum S %s %s 0 %d' % (J(hs), J(['c%d' % j for j in range(b)]), b)); W = ' '.join('%064x' % k[2] for k in ks)
        def agg(S, fl, n, kk=None, w=W): p('sig.aggVerifyC - %%%s %s %s %s %d %d %s' % (S, J(kk or [k[1] for k in ks]), J(ms), fl, a, n, w))
        agg('S', '0', n); agg('S', '1', n); agg('S', '0', n - 1); kk = [k[1] for k in ks]; kk[-1] = s.torsion('g1', kk[-1]); agg('S', '0', n, kk, '0' * 63 + '1' if a == 1 else '')
        p.once = True; p.weight = 100 + 40 * b; out.append(p)
    return out
