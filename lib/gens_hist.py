"""C22: calls do not depend on what was called before, on other threads or on what a callback does."""
from gens_sig import *
import re

# ---- the clients whose calls are interleaved
def trim(p, n): p.lines = p.lines[:n]; return p
def c_field(k, sp):
    def f(r): return field_program(k, r, 14 if k != 'fp12' else 8, regs=4 if k != 'fp12' else 2, special=sp, inv=True)
    return f
def c_group(E):
    def f(r): return trim(group_program(E, r, 10, regs=4), 22)
    return f
def c_enc(E):
    def f(r):
        p = Prog('enc'); pl = pool(E, r); k = E.name
        for i in range(3):
            p(pl.ld('a', pl.any(.15))); p('%s.toC b %%a' % k); p('%s.fromC c %%b' % k); p('%s.toABE b %%a 1' % k); p('%s.fromABE c %%b 11' % k); p('%s.inSub - %%a' % k); p('%s.onCurve - %%a' % k)
            t = 's%d' % i; p('sc.raw %s %s' % (t, sch(scalar(r), 4))); p('%s.scaleS c %%a %%%s' % (k, t))
        return p
    return f
def c_wsum(E):
    def f(r):
        p = Prog('wsum'); pl = pool(E, r)
        for n in r.sample([1, 2, 3, 5, 9, 17], 2): wsum_line(p, E, r, n, n, pl, yieldm=r.choice([0, 1, 2, 3]))
        return p
    return f
def c_map(r):
    p = Prog('map')
    for i in range(2): p(load('fp', 'u', r)); p('g1.map a %u'); p(load('fp2', 'v', r)); p('g2.map b %v'); p('g2.clear c %b')
    return p
def c_hash(r):
    p = Prog('hash'); b = msg(r)[:80] or b'abc'; d = dst(r)
    for x, y in ((b, d), (flip(r, b), d), (b, flip(r, d))): by(p, 'm', x); by(p, 'd', y); p('sig.fromMsg h %m %d'); p('kdf.xmd - %m %d 96'); p('sha.hash - %m'); p('kdf.hmac - %d %m')
    return p
def c_keys(r):
    p = Prog('keys'); by(p, 's', rbytes(r, 32)); p('sig.sk k %s'); p('sig.pk q %k'); x = r.choice(IDX)
    p('sig.childU c %%k %d' % x); p('sig.childG1 d %%q %d' % x); p('sig.skTo b %k'); p('sig.skFrom l %b 0'); p('kdf.extract e %s %b'); p('kdf.expand - %e %s 100')
    if r.random() < .3: p('sig.child h %%k %d' % x)
    return p
def c_sign(r):
    s = Sg('sg', r); k, pk, v = s.key(); k2, pk2, v2 = s.key(); m, m2 = s.msg(rbytes(r, 20)), s.msg(rbytes(r, 20)); t, t2 = s.sign(k, m), s.sign(k2, m2)
    s.verify(pk, m, t, v); s.verify(pk2, m, t, v2); s.verify(pk2, m2, t2, v2); s.verify(pk, m2, t, v); s.verify(pk, m, t2, v)
    return s.p
def c_agg(r):
    s = Agg('ag', r, 3); s.chk(); s.chk(ms=s.ms[::-1]); s.chk(ws=s.w[::-1], pks=s.pk[::-1], ms=s.ms[::-1]); s.chk(pks=s.pk[:2] + [s.pk[0]], ws=s.w[:2] + [s.w[0]])
    return s.p
def c_pop(r):
    s = Sg('pp', r); k, pk, v = s.key(); k2, pk2, v2 = s.key(); t = s.op('sig.popProve', k); t2 = s.op('sig.popProve', k2)
    for a, w, b in ((pk, v, t), (pk2, v2, t), (pk2, v2, t2), (pk, v, t2)): s.p('sig.popVerify - %%%s %%%s %064x' % (a, b, w))
    return s.p
def c_pair(r):
    p = Prog('pair'); p1, p2 = pool(E1, r), pool(E2, r); n = r.choice([1, 2, 3]); a = []
    p('g1.base G'); p('g2.base H')
    ex = []
    for i in range(n):
        u, v = r.randrange(1, Q), r.randrange(1, Q); p('g1.scale a%d %%G %s' % (i, sch(u, 4))); p('g2.scale b%d %%H %s' % (i, sch(v, 4))); a += ['a%d' % i, 'b%d' % i]; ex += ['%064x' % u, '%064x' % v]
    p('pair.calcW f %s %s' % (' '.join('%' + x for x in a), ' '.join(ex))); p('pair.npairs - ' + ' '.join('%' + x for x in a)); p('fp12.sq g %f'); p('fp12.conj g %f'); p('fp12.mul g %f %g'); p('fp12.isOne - %g')
    return p
def c_sc(r):
    p = Prog('sc')
    for n, k in r.sample([d for d in DIVW], 5): a, d = divpair(r, n, k); p('sc.raw a ' + sch(a, n)); p('sc.raw d ' + sch(d, k)); p('sc.divn - %a %d'); n in (1, 2, 3, 4, 5, 6, 8) and (p('sc.toBE b %a'), p('sc.bits - %a'))
    for w in (6, 8, 12): p('fp.modPrime m ' + sch(wide(r, w), w))
    return p
def c_hex(r):
    p = Prog('hex')
    for _ in range(4): by(p, 'b', rbytes(r, r.choice([1, 32, 48, 96]))); p('hex.enc t %b'); p('hex.dec u %t'); p('hex.encN t %b')
    return p
CLIENTS = [c_field('fp', fp_special), c_field('fp2', sp_fp2), c_field('fp6', sp_fp6), c_field('fp12', sp_fp12), c_group(E1), c_group(E2), c_enc(E1), c_enc(E2), c_wsum(E1), c_wsum(E2), c_map, c_hash, c_keys, c_sign, c_agg, c_pop, c_pair, c_sc, c_hex]

def rename(line, pre):
    t = line.split()
    return ' '.join([t[0], t[1] if t[1] == '-' else pre + t[1]] + ['%' + pre + x[1:] if x[0] == '%' else x for x in t[2:]])
def segments(p, n):
    L = p.lines; return [L[len(L) * i // n:len(L) * (i + 1) // n] for i in range(n)]
def interleave(progs, sched, n):
    """the schedule is a sequence of client numbers; the k-th occurrence of a client stands for its k-th segment"""
    seg = [segments(p, n) for p in progs]; pos = [0] * len(progs); out = Prog('clients-%s-%s' % ('+'.join(p.tag.split('-')[0] for p in progs), ''.join(map(str, sched))))
    for c in sched:
        for l in seg[c - 1][pos[c - 1]]: out(rename(l, 'c%d_' % c))
        pos[c - 1] += 1
    return out
def c22_clients(r, scheds, n, q):
    out = []; k = max(max(s) for s in scheds); i = 0
    for sc in scheds:
        fs = [CLIENTS[(i + j * 7) % len(CLIENTS)] if j < 2 else r.choice(CLIENTS) for j in range(k)]; i += 1
        if r.random() < .35: fs[1] = fs[0]                   # two clients doing the same thing with other values
        ps = [f(r) for f in fs]; p = interleave(ps, sc, n); out.append(p)
    return out
# ---- x, then a neighbour of x, then x again
def c22_again(tier, r):
    q = tier == 'quick'; out = []
    def again(tag, calls, reps=2):
        p = Prog('again-%s-%d' % (tag, r.getrandbits(20)))
        for _ in range(reps):
            for ls in calls:
                for l in ls: p(l)
        for l in calls[0]: p(l)
        out.append(p)
    for _ in range(2 if q else 12):
        b = rbytes(r, 33); d = b'DST-' + rbytes(r, 12)
        H = lambda m, e: ['by.raw m ' + HEX(m), 'by.raw d ' + HEX(e), 'sig.fromMsg h %m %d', 'kdf.xmd - %m %d 256', 'kdf.hmac - %d %m', 'kdf.extract - %d %m', 'sha.hash - %m']
        again('hash', [H(b, d), H(b[:-1] + bytes([b[-1] ^ 1]), d), H(b, d[:-1] + bytes([d[-1] ^ 1])), H(bytes([b[0] ^ 1]) + b[1:], d), H(b[:-1], b[-1:] + d), H(b + d[:1], d[1:])], 1)
        # longer ones that differ in one place only
        for n in r.sample([40, 64, 65, 96, 128, 129, 200, 256, 300, 1000], 3):
            e = rbytes(r, n); nb = [e[:j] + bytes([e[j] ^ (1 << r.randrange(8))]) + e[j + 1:] for j in sorted({n - 1, 0, r.randrange(n), r.choice([x for x in (15, 16, 31, 32, 63, 64, 127, 128, 255) if x < n])})]
            again('long', [H(e, d)] + [H(x, d) for x in nb], 1); again('longtag', [H(b, e)] + [H(b, x) for x in r.sample(nb, 2)], 1)
        k = r.randrange(Q); K = lambda v, m: ['sc.raw k ' + sch(v % Q, 4), 'by.raw m ' + HEX(m), 'sig.sign s %k %m', 'sig.pk p %k', 'sig.popProve t %k', 'sig.verify - %%p %%m %%s %064x' % (v % Q), 'sig.popVerify - %%p %%t %064x' % (v % Q), 'sig.childU c %k 5', 'sig.childG1 e %p 5', 'sig.skTo - %k']
        e = rbytes(r, r.choice([65, 80, 150, 300])); again('sign', [K(k, b), K(k ^ 1, b), K(k, b[::-1]), K(-k, b), K(k ^ (1 << r.choice([70, 100, 130, 190, 200, 253])), b)], 1); again('sign-long', [K(k, e), K(k, e[:-1] + bytes([e[-1] ^ 1])), K(k, e[:40] + bytes([e[40] ^ 1]) + e[41:]), K(k, e[:-1])], 1)
        s0 = rbytes(r, 32); S = lambda s, i: ['by.raw s ' + HEX(s), 'sig.sk k %s', 'sig.child c %%k %d' % i, 'sig.childU c %%k %d' % i, 'kdf.expand - %s %s 48']
        again('seed', [S(s0, 1), S(s0[:-1] + bytes([s0[-1] ^ 1]), 1), S(s0, 2), S(s0 + b'\0', 1), S(s0, 1 | 1 << 24)], 1)
        for kd in ('fp', 'fp2', 'fp6', 'fp12'):
            n = NC[kd]; v = [r.randrange(P) for _ in range(n)]; j = r.randrange(n)
            def F(v, e):
                l = ['%s.raw a %s' % (kd, ' '.join(h48(x) for x in v))] + ['%s.%s b %%a' % (kd, o) for o in ('sq', 'inv', 'dbl', 'neg')] + ['%s.mul c %%a %%b' % kd, '%s.mul c %%b %%a' % kd, '%s.toBE - %%a 1' % kd, '%s.exp c %%a %s' % (kd, sch(e, 1))]
                return l + (['%s.sqrt - %%b' % kd, '%s.isQNR - %%a' % kd, '%s.isLL - %%a' % kd] if kd in ('fp', 'fp2') else ['%s.frob b %%a %d' % (kd, e % 5)])
            again(kd, [F(v, 77), F(v[:j] + [(v[j] ^ 1) % P] + v[j + 1:], 77), F(v[:j] + [(v[j] ^ (1 << r.choice([64, 128, 192, 256, 320]) + r.randrange(50))) % P] + v[j + 1:], 77), F(v, 78), F([(P - x) % P for x in v], 77), F([0] * n, 77), F(v[::-1], 77)])
        for E in (E1, E2):
            pl = pool(E, r); kk = E.name; a, c = r.choice(pl.sub)[1], r.choice(pl.curve); om = pow(2, (P - 1) // 3, P)
            sm = lambda x: om * x % P if E is E1 else mul2(x, (om, 0))
            def G(pt, s, pt2=c):
                return [pl.ld('a', pt), pl.ld('b', pt2), 'sc.raw s ' + sch(s, 4)] + ['%s.%s c %%a %%b' % (kk, o) for o in ('add', 'sub')] + ['%s.dbl c %%a' % kk, '%s.scaleS c %%a %%s' % kk, '%s.scale d %%c %s' % (kk, sch(s & M64, 1)), '%s.inSub - %%a' % kk, '%s.toC t %%a' % kk, '%s.fromC d %%t' % kk, '%s.toABE t %%a 1' % kk, '%s.fromABE d %%t 11' % kk, '%s.onCurve - %%a' % kk, '%s.wsum w %%a %%b %%s %%s %d 2' % (kk, r.randrange(4)), '%s.clear c %%a' % kk]
            s = r.randrange(Q)
            again(kk, [G(a, s), G(E.neg(a), s), G(a, s ^ 1), G(a, s ^ (1 << 64 * r.randrange(1, 4) + r.randrange(60))), G((sm(a[0]), a[1]), s), G(None, s), G(a, s, None), G(c, s)], 1)
        for E in (E1, E2): out += near_sums(E, r, True)[1:3]
        x, y = [r.choice(pool(E, r).sub)[1] for E in (E1, E2)]
        def Pr(x, y, m): return [pool(E1, r).ld('x', x), pool(E2, r).ld('y', y), 'pair.calc f %x %y' + m]
        again('pair', [Pr(x, y, ''), Pr(E1.neg(x), y, ' y'), Pr(x, E2.neg(y), ' r'), Pr(None, y, '')], 1)
        u, v = r.randrange(P), (r.randrange(P), r.randrange(P))
        M = lambda a, b: ['fp.raw u ' + h48(a), 'g1.map c %u', 'fp2.raw v %s %s' % (h48(b[0]), h48(b[1])), 'g2.map d %v']
        again('map', [M(u, v), M((P - u) % P, (P - v[0], P - v[1])), M(u ^ 1, (v[0], v[1] ^ 1)), M(0, (v[1], v[0]))])
    return out
# ---- callbacks that throw, or call the library themselves
def c22_yield(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        pl = pool(E, r)
        for n in ((0, 1, 2, 3, 7, 20, 70) if E is E1 else (0, 1, 2, 5, 20)) if q else (0, 1, 2, 3, 4, 5, 7, 12, 20, 33, 70, 128, 300):
            p = Prog('%s-callback-%d' % (E.name, n))
            for md in (3, 2, 0): wsum_line(p, E, r, n, n, pl, small=n > 8, yieldm=md)
            out.append(p)
    for n in (20, 21) if q else (19, 20, 21, 30):
        p = Prog('pair-callback-%d' % n); p('g1.base G'); p('g2.base H'); a = []
        for i in range(n): p('g1.scale a%d %%G %s' % (i, sch(i % 5 + 1, 4))); p('g2.scale b%d %%H %s' % (i, sch(i % 3 + 1, 4))); a += ['%%a%d' % i, '%%b%d' % i]
        for md in 'rtry' if not q else 'rt': p('pair.calc f %s %s' % (' '.join(a), md))
        if not q: p('pair.calc f ' + ' '.join(a))
        out.append(p)
    return out
def c22_schedules(eng, tier, r):
    """all interleavings of the clients, from TLC"""
    q = tier == 'quick'; n, c = (3, 2) if q else (3, 3)
    out = eng.model('Clients', 'Clients.cfg', workers=1, env=dict(CLIENTS=str(n), CALLS=str(c), HIDDEN='0', OVERLAP='0'), expect_states=500)
    eng.model('Clients', 'Clients.cfg', workers=2, env=dict(CLIENTS='4', CALLS='3', HIDDEN='0', OVERLAP='1'), expect_states=2000)
    eng.model('Clients', 'Clients.cfg', workers=1, env=dict(CLIENTS='2', CALLS='2', HIDDEN='1', OVERLAP='1'), refuted=True)
    S = [[int(x) for x in m.split(',')] for m in re.findall(r'<<"SCHED", <<([\d, ]+)>>>>', out)]
    assert len(S) == (90 if q else 1680), len(S)
    if not q: S = r.sample(S, 600)
    return c22_clients(r, S, c, q)

# ---- C23: octets and lists of every length and every content
def c23_inputs(tier, r):
    q = tier == 'quick'; out = []
    SIZES = {'g1': (('C', 48), ('ABE', 96), ('ALE', 96), ('JBE', 144), ('JLE', 144)), 'g2': (('C', 96), ('ABE', 192), ('ALE', 192), ('JBE', 288), ('JLE', 288)), 'fp': (('BE', 48), ('LE', 48)), 'fp2': (('BE', 96), ('LE', 96)), 'fp6': (('BE', 288), ('LE', 288)), 'fp12': (('BE', 576), ('LE', 576))}
    for k, fs in SIZES.items():
        for nm, n in fs:
            p = Prog('octets-%s-%s' % (k, nm)); d = 'abcdef'
            for i in range(24 if q else 300):
                b = r.choice([rbytes(r, n), bytes(n), b'\xff' * n, bytes([r.getrandbits(8)]) + rbytes(r, n - 1), bytes([r.choice([0, 0x20, 0x40, 0x80, 0xa0, 0xc0, 0xe0, 0x9a, 0x1a, 0xba])]) + rbytes(r, n - 1), bytes(r.choice([0, 0, 255, r.getrandbits(8)]) for _ in range(n))])
                by(p, 'b', b); fl = [''] if nm == 'C' else ['', ' 00', ' 01', ' 10', ' 11']
                if nm == 'C': p('%s.fromC x%d %%b' % (k, i))
                else:
                    for f in ('00', '01', '10', '11'): p('%s.from%s - %%b %s' % (k, nm, f))
                    p('%s.from%sd x%d %%b' % (k, nm, i))
            out.append(p)
    # whatever a decoder that was asked not to validate lets through is used
    for k, E in (('g1', E1), ('g2', E2)):
        n = 144 if k == 'g1' else 288
        for i in range(6 if q else 60):
            p = Prog('unvalidated-%s-%d' % (k, i)); F = E.F
            for a in 'ab': by(p, 'o', b''.join(r.randrange(P).to_bytes(48, 'big') for _ in range(n // 48))); p('%s.fromJBE %s %%o 01' % (k, a))
            for o in ('add', 'sub'): p('%s.%s c %%a %%b' % (k, o))
            for o in ('dbl', 'neg', 'affine', 'clear'): p('%s.%s c %%a' % (k, o))
            for o in ('inSub', 'onCurve', 'isZero', 'isAffine', 'toC'): p('%s.%s - %%a' % (k, o))
            p('%s.toABE - %%a 1' % k); p('%s.toJLE - %%a 0' % k); p('%s.scale c %%a %s' % (k, sch(r.getrandbits(512), 8))); p('sc.raw s ' + sch(r.getrandbits(256), 4)); p('%s.wsum c %%a %%b %%s %%s %d 2' % (k, r.randrange(4))); p('%s.equal - %%a %%b' % k)
            by(p, 'm', rbytes(r, 5))
            if k == 'g1': p('g1.glv c %a'); p('g2.base t'); p('sig.verify - %a %m %t'); p('sig.popVerify - %a %t'); p('sig.popFast - %m %t %a %b'); p('sig.aggVerify - %t %a %b %m %m 1 2'); p('pair.calc f %a %t'); p('sig.childG1 d %a 3'); p('sig.aggPk d %a %b')
            else: p('g2.psi c %a'); p('g1.base t'); p('sig.verify - %t %m %a'); p('sig.popVerify - %t %a'); p('sig.popFast - %m %a %t'); p('sig.aggVerify - %a %t %m 1 1'); p('pair.calc f %t %a'); p('fp12.isGt - %f'); p('sig.childG2 d %a 3'); p('sig.aggSig d %a %b')
            out.append(p)
    # lists of every shape, lengths that do not agree, the empty list
    p = Prog('shapes'); p('g1.base a'); p('g2.base b'); by(p, 'm', b''); p('sc.raw s ' + sch(3, 4))
    for n in (0, 1, 2, 5):
        for m in (0, 1, 2, 5): p('sig.aggVerify - %%b %s %s 0 %d' % (' '.join(['%a'] * n), ' '.join(['%m'] * m), n)); p('g1.wsum - %s %s 1 %d' % (' '.join(['%a'] * n), ' '.join(['%s'] * m), n)); p('g2.wsum - %s %s 1 %d' % (' '.join(['%b'] * n), ' '.join(['%s'] * m), n))
    for o in ('aggSk', 'aggPk', 'aggSig'): p('sig.%s -' % o)
    p('sig.aggPkT - -'); p('sig.aggSigT - -'); p('pair.calc f'); p('pair.npairs -'); p('sig.popFast - %m %b'); p('sig.aggVerify - %b 1 0'); p('sig.fromMsg h %m %m'); p('kdf.xmd - %m %m 1'); p('kdf.hmac - %m %m'); p('sha.hash - %m'); p('hex.enc t %m'); p('hex.dec u %m'); p('sig.sk k %m')
    out.append(p)
    # text of every length, with and without the prefix, whatever the characters
    p = Prog('text')
    for n in list(range(0, 12)) + [63, 64, 65, 66, 67]:
        for t in (b'0' * n, b'0x' + b'a' * n, rbytes(r, n), b'0x'[:n], b'0X' + b'F' * n, b'\xff' * n): by(p, 'b', t); p('hex.dec - %b')
    for n in (1, 32, 48, 96):
        for t in (b'1' * (2 * n), b'0x' + b'fA' * n, rbytes(r, 2 * n)): by(p, 'b', t); p('hex.decN - %%b %d' % n)
    out.append(p)
    return out

# ---- long computations can be interrupted
def c24(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        k, pl = E.name, pool(E, r)
        ns = [0, 1, 31, 32, 255, 256, 257, 300, 511, 512, 768, 1000, 2048, 2560, 4096, 8192, 20000] + [r.randrange(256, 6000) for _ in range(6 if q else 60)] + ([32768, 65536] if E is E1 else [32768] if q else [65536]) + ([1 << 17] if E is E1 else []) + ([] if q else [1 << 18, 1 << 20] if E is E1 else [1 << 17])
        for n in ns:
            p = Prog('%s-yield-%d' % (k, n), weight=10); p.once = n > 3000; p.big = n > 30000
            a, b = r.choice([(1, 1), (2, 3), (3, 2), (5, 4)])
            for i in range(a): p(pl.ld('p%d' % i, pl.any(.1)))
            for i in range(b): p('sc.raw s%d %s' % (i, sch(r.choice([0, 1, r.getrandbits(64), scalar(r)]) if n < 3000 else r.getrandbits(256), 4)))
            lo = 10 * (n // 256)
            m = n + r.choice([0, 0, 0, 1, -1, 300, -300]); m = max(m, 0)
            for t in [0, 1, 2, lo] + ([r.randrange(1, lo + 1), lo - 1, lo + 1, 3 * lo, 1 << 28] if lo else [1 << 28]) if n < 3000 else [0, lo]:
                p('%s.yieldC - %s %s %d %d %d %d %d' % (k, ' '.join('%%p%d' % i for i in range(a)), ' '.join('%%s%d' % i for i in range(b)), t, a, n, m, r.randrange(5)))
            out.append(p)
    p1, p2 = pool(E1, r), pool(E2, r)
    for _ in range(2 if q else 12):
        p = Prog('pair-yield-%d' % r.getrandbits(24)); c = r.choice([1, 2, 3])
        for i in range(c): p(p1.ld('a%d' % i, r.choice(p1.sub)[1])); p(p2.ld('b%d' % i, r.choice(p2.sub)[1] if i == 0 or r.random() < .6 else None))
        for n in [0, 1, 16, 19, 20, 21, 22, 23, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 200]:
            for t, y in [(0, 0)] + [(1, y) for y in range(5)] + [(2, r.randrange(5))]:
                for w in (0, 1):
                    if n or not w: p('pair.yieldC - %s %d %d %d %d' % (' '.join('%%a%d %%b%d' % (i, i) for i in range(c)), t, n, w, y))
        out.append(p)
    return out
