"""Generators for the extension fields, square roots, the pairing and the maps to the curves."""
from gens_curve import *

# ---- C10: the tower ---------------------------------------------------------------------------
def sp_fp2(p, r, R_):
    d, a = r.choice(R_), r.choice(R_); o = r.choice(['conj', 'mulNR', 'mulB', 'mulFq', 'frob', 'frobA', 'eqop', 'mk'])
    if o == 'mulFq': p(load('fp', 'k', r)); p('fp2.mulFq %s %%%s %%k' % (d, a))
    elif o == 'mk': p(load('fp', 'k', r)); p(load('fp', 'k2', r)); p('fp2.mk %s %%k %%k2' % d)
    elif o == 'frob': p('fp2.frob %s %%%s %d' % (d, a, r.choice([0, 1, 2, 3, 7, 12])))
    elif o == 'frobA': p('fp2.frobA %s %%%s %d' % (a, a, r.choice([0, 1, 2, 3])))
    elif o == 'eqop': p('fp2.equal - %%%s %%%s' % (d, a))
    else: p('fp2.%s %s %%%s' % (o, d, a))
def sp_fp6(p, r, R_):
    d, a = r.choice(R_), r.choice(R_); o = r.choice(['mulBy01', 'mulBy01A', 'mulBy1', 'mulNR', 'mulBase', 'frob', 'frobA', 'mk'])
    for x in 'xyz': p(load('fp2', x, r))
    if o == 'mulBy01': p('fp6.mulBy01 %s %%%s %%x %%y' % (d, a))
    elif o == 'mulBy01A': p('fp6.mulBy01A %s %%%s %%x %%y' % (a, a))
    elif o in ('mulBy1', 'mulBase'): p('fp6.%s %s %%%s %%x' % (o, d, a))
    elif o == 'mulNR': p('fp6.mulNR %s %%%s' % (d, a))
    elif o == 'mk': p('fp6.mk %s %%x %%y %%z' % d)
    elif o == 'frob': p('fp6.frob %s %%%s %d' % (d, a, r.randrange(0, 20)))
    else: p('fp6.frobA %s %%%s %d' % (a, a, r.randrange(0, 20)))
def sp_fp12(p, r, R_):
    d, a = r.choice(R_), r.choice(R_); o = r.choice(['conj', 'mulBy014A', 'frob', 'frobA', 'fp4Sq', 'mk'])
    for x in 'xyz': p(load('fp2', x, r))
    if o == 'mulBy014A': p('fp12.mulBy014A %s %%%s %%x %%y %%z' % (a, a))
    elif o == 'conj': p('fp12.conj %s %%%s' % (d, a))
    elif o == 'fp4Sq': p('fp12.fp4Sq - %x %y')
    elif o == 'mk': p(load('fp6', 'v', r)); p(load('fp6', 'v2', r)); p('fp12.mk %s %%v %%v2' % d)
    elif o == 'frob': p('fp12.frob %s %%%s %d' % (d, a, r.randrange(0, 30)))
    else: p('fp12.frobA %s %%%s %d' % (a, a, r.randrange(0, 30)))
PHI = P ** 4 - P ** 2 + 1
def exp_chain(p, dst, src, e, w=6):
    """dst := src^e for cyclotomic src, any size of e, by w-limb pieces"""
    B = 64 * w; parts = []
    while e: parts.append(e & ((1 << B) - 1)); e >>= B
    p('fp12.cycExp %s %%%s %s' % (dst, src, sch(parts[-1], w)))
    for q in reversed(parts[:-1]):
        p('fp12.cycExp t1 %%%s %s' % (dst, sch((1 << B) - 1, w))); p('fp12.mul %s %%t1 %%%s' % (dst, dst))
        p('fp12.cycExp t1 %%%s %s' % (src, sch(q, w))); p('fp12.mul %s %%%s %%t1' % (dst, dst))
def cyclo_program(r, gt=True):
    p = Prog('cyclo-%d' % r.getrandbits(24), weight=900 if gt else 150)
    p(load('fp12', 'f', r)); p('fp12.isZero - %f'); p('fp12.raw g %s' % ' '.join(h48(r.randrange(P)) for _ in range(12)))
    for f in 'fg':
        p('fp12.inv i %%%s' % f); p('fp12.conj c %%%s' % f); p('fp12.mul c %c %i'); p('fp12.frob d %c 2'); p('fp12.mul %s %%c %%d' % ('u' if f == 'f' else 'v'))
    if p.lines[0].split()[2:] == [h48(0)] * 12: return Prog('empty')
    p('fp12.one o'); p('fp12.neg m %o')
    for x in 'uvo':
        p('fp12.cycSq s %%%s' % x); p('fp12.sq t %%%s' % x); p('fp12.equal - %s %t'); p('fp12.copy s %%%s' % x); p('fp12.cycSqA s %s')
        p('fp12.conj s %%%s' % x); p('fp12.inv t %%%s' % x); p('fp12.equal - %s %t')
    p('fp12.mul u %u %v')
    for _ in range(3):
        w = r.choice([1, 2, 4]); p('fp12.cycExp s %%u %s' % rexp(r, w))
    p('fp12.isGt - %u'); p('fp12.isGt - %o'); p('fp12.isGt - %m'); p('fp12.cycSq m %m'); p('fp12.isGt - %g')
    p('fp12.zero z'); p('fp12.isGt - %z')
    if gt:
        p('fp12.copy e %g'); p('pair.finalA e %e'); p('fp12.isGt - %e'); p('fp12.cycExp s %%e %s' % sch(Q, 4)); p('fp12.isOne - %s')
        p('fp12.exp s %%e %s' % rexp(r, 4)); p('fp12.isGt - %s'); p('fp12.mul s %e %u'); p('fp12.isGt - %s'); p('fp12.neg s %e'); p('fp12.isGt - %s'); p('fp12.conj s %e'); p('fp12.isGt - %s')
    return p
import json, os
ROOTS = {k: [int(c, 16) for c in v] for k, v in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'gtroots.json'))).items()}
def raw12(reg, v): return 'fp12.raw %s %s' % (reg, ' '.join(raw(c) for c in v))
def root_programs(r, quick):
    out = []; names = [n for n in ROOTS if n != 'gt']
    for i in range(0, len(names), 3):
        p = Prog('orders-%d' % i, weight=100)
        p(raw12('g', ROOTS['gt'])); p('fp12.cycExp g %%g %s' % sch(r.randrange(1, Q), 4)); p('fp12.isGt - %g')
        for n in names[i:i + 3]:
            p(raw12('t', ROOTS[n])); p('fp12.isGt - %t'); p('fp12.mul u %t %g'); p('fp12.isGt - %u'); p('fp12.conj v %u'); p('fp12.isGt - %v'); p('fp12.inv v %t'); p('fp12.mul v %v %t'); p('fp12.isGt - %v'); p('fp12.isOne - %v')
            for f in (1, 2, 3, 6): p('fp12.frob v %%t %d' % f)
            p('fp12.cycSq v %t'); p('fp12.cycExp v %%t %s' % sch(r.getrandbits(64), 1)); p(raw12('w', ROOTS[r.choice(names)])); p('fp12.mul w %t %w'); p('fp12.isGt - %w'); p('fp12.mul w %w %g'); p('fp12.isGt - %w')
        out.append(p)
    p = Prog('cyclo-order', weight=400)      # the order-q subgroup against the rest of the cyclotomic group
    p(raw12('c', ROOTS['phi12'])); p(raw12('d', ROOTS['phi12/q'])); p(raw12('e', ROOTS['4513^1'])); p(raw12('g', ROOTS['gt'])); p('fp12.one o')
    for x in 'cdego':
        for y in 'cdego': p('fp12.mul t %%%s %%%s' % (x, y)); p('fp12.isGt - %t'); p('fp12.cycSq s %t'); p('fp12.conj s %t'); p('fp12.isGt - %s')
        for e in (0, 1, 2, 3, 4, 5, Q - 1, Q, Q + 1, X, X + 1, (1 << 256) - 1, 1 << 255, 4513): p('fp12.cycExp s %%%s %s' % (x, sch(e, 4)))
        for w in (1, 2, 3, 5, 6): p('fp12.cycExp s %%%s %s' % (x, sch(r.getrandbits(64 * w), w)))
    out.append(p)
    return out
def differ_programs(kind, r):
    """values that differ in a single bit of a single coefficient"""
    p = Prog('%s-differ' % kind); n = NC[kind]
    for i in range(n):
        for limb in range(6):
            v = [r.randrange(P) for _ in range(n)]; w = list(v); w[i] ^= 1 << (64 * limb + r.randrange(64))
            if w[i] >= P: continue
            p('%s.raw a %s' % (kind, ' '.join(map(h48, v)))); p('%s.raw b %s' % (kind, ' '.join(map(h48, w)))); p('%s.equal - %%a %%b' % kind)
            z = [0] * n; z[i] = (1 << (64 * limb + r.randrange(60))) % P; p('%s.raw a %s' % (kind, ' '.join(map(h48, z)))); p('%s.isZero - %%a' % kind)
            z[0] ^= R % P
            if z[0] < P: p('%s.raw a %s' % (kind, ' '.join(map(h48, z)))); p('%s.isOne - %%a' % kind)
    return [p]
def named_grid(kind, r, q):
    """the small integers and the signed basis elements with each other, in both orders and in both forms"""
    n = NC[kind]; vs = [[0] * n] + [[x % P if j == i else 0 for j in range(n)] for i in range(n) for x in (1, -1)] + [[x % P] + [0] * (n - 1) for x in (2, -2)] + [[1] * n, [P - 1] * n]; out = []
    few = [vs[0], vs[1], vs[2], vs[3], vs[-4], vs[-1]]
    for i, v in enumerate(vs):
        p = Prog('%s-named-%d' % (kind, i)); p('%s.raw a %s' % (kind, ' '.join(map(raw, v))))
        for w in few if q and n > 2 else vs:
            p('%s.raw b %s' % (kind, ' '.join(map(raw, w)))); p('%s.equal - %%a %%b' % kind)
            for x, y in ('ab', 'ba'):
                for o in ('add', 'sub', 'mul'):
                    p('%s.%s c %%%s %%%s' % (kind, o, x, y)); p('%s.copy c %%%s' % (kind, x)); p('%s.%sA c %%c %%%s' % (kind, o, y))
        for o in ('sq', 'inv', 'neg', 'dbl'): p('%s.%s c %%a' % (kind, o))
        out.append(p)
    return out
def sparse_programs(kind, r, count):
    out = []; n = NC[kind]
    for _ in range(count):
        p = Prog('%s-sparse-%d' % (kind, r.getrandbits(24)))
        pat = lambda: ' '.join(h48(0 if r.random() < .5 else r.choice([R % P, P - R % P, fpraw(r), r.randrange(P)])) for _ in range(n))
        for _ in range(16):
            p('%s.raw a %s' % (kind, pat())); p('%s.raw b %s' % (kind, pat()))
            for o in ('mul', 'add', 'sub'): p('%s.%s c %%a %%b' % (kind, o))
            for o in ('sq', 'inv', 'neg', 'dbl'): p('%s.%s c %%a' % (kind, o))
            if kind == 'fp2':
                for o in ('conj', 'mulNR', 'mulB'): p('fp2.%s c %%a' % o)
            else:
                for x in 'xyz': p('fp2.raw %s %s' % (x, ' '.join(h48(0 if r.random() < .45 else r.choice([R % P, fpraw(r)])) for _ in range(2))))
                if kind == 'fp6': p('fp6.mulBy01 c %a %x %y'); p('fp6.mulBy1 c %a %x'); p('fp6.mulBase c %a %y'); p('fp6.mulNR c %a')
                else: p('fp12.mulBy014A b %b %x %y %z'); p('fp12.fp4Sq - %x %y')
        out.append(p)
    return out
def c10(tier, r):
    q = tier == 'quick'; k = 1 if q else 10; out = []
    for kind, n, length, sp in (('fp2', 30, 120, sp_fp2), ('fp6', 24, 80, sp_fp6), ('fp12', 24, 50, sp_fp12)):
        out += [field_program(kind, r, length, special=sp) for _ in range(n * k)]
        for _ in range(2 * k):       # every power of Frobenius
            p = Prog('%s-frob' % kind); p(load(kind, 'a', r)); p('%s.raw b %s' % (kind, ' '.join(h48(r.randrange(P)) for _ in range(NC[kind]))))
            for e in list(range(0, 26)) + [35, 36, 37, 100, 1000, 1001]:
                p('%s.frob c %%a %d' % (kind, e)); p('%s.frobA c %%c %d' % (kind, e)); p('%s.frob c %%b %d' % (kind, e))
            out.append(p)
        # unit vectors: the order of the tower and the multiplication table
        for _ in range(1):
            p = Prog('%s-basis' % kind); n = NC[kind]
            for i in range(n):
                p('%s.raw e%d %s' % (kind, i, ' '.join(raw(1) if j == i else h48(0) for j in range(n))))
            prs = [(i, j) for i in range(n) for j in range(n)]
            for i, j in prs: p('%s.mul c %%e%d %%e%d' % (kind, i, j))
            for i in range(n):
                for o in ('sq', 'inv', 'neg', 'dbl'): p('%s.%s c %%e%d' % (kind, o, i))
            out.append(p)
    out += [cyclo_program(r, i % 3 == 0) for i in range(9 * k)]
    # elements of every subgroup of the multiplicative group that an order test could confuse with the order-q one
    out += root_programs(r, q)
    # sparse operands: every coefficient absent or present
    for kind in ('fp2', 'fp6', 'fp12'): out += differ_programs(kind, r) + named_grid(kind, r, q) + sparse_programs(kind, r, 6 * k)
    out += exp_programs('fp2', r, (1, 2, 3, 4, 5, 6, 7, 8), .5 if q else 1) + exp_programs('fp6', r, (1, 2, 3, 4), .3 if q else 1) + exp_programs('fp12', r, (1, 2, 3, 4), .15 if q else 1)
    pc = Prog('constants')
    for n in ('negativeOne2', 'B', 'psiX', 'psiY'): pc('const.fp2 - %s 0' % n)
    for i in range(6): pc('const.fp2 - frob61 %d' % i); pc('const.fp2 - frob62 %d' % i)
    for i in range(12): pc('const.fp2 - frob12 %d' % i)
    return out + [pc]

# ---- C11: square roots, residues, signs ----------------------------------------------------------
def res(r):
    """residues around the places where the answer changes"""
    c = r.random()
    if c < .3: return r.choice([0, 1, 2, 3, 4, P - 1, P - 2, P - 3, (P - 1) // 2, (P + 1) // 2, (P - 3) // 2, (P + 3) // 2, (P - 1) // 2 ^ (1 << 64), RINV, R % P])
    if c < .5: return (P - 1) // 2 + r.choice([-1, 1]) * (r.getrandbits(r.randrange(1, 380)) % (P // 2))
    if c < .6: return fpraw(r) * RINV % P
    if c < .75: return pow(r.randrange(P), 2, P)
    if c < .85: return -pow(r.randrange(P), 2, P) % P
    return r.randrange(P)
def c11(tier, r):
    k = 1 if tier == 'quick' else 12; out = []
    for _ in range(40 * k):
        p = Prog('sqrt1-%d' % r.getrandbits(24))
        for _ in range(12):
            p('fp.raw a ' + raw(res(r)))
            for o in ('isQNR', 'isLL', 'sign'): p('fp.%s - %%a' % o)
            p('fp.neg n %a'); p('fp.isLL - %n'); p('fp.sign - %n')
            p('fp.sq s %a'); p('fp.isQNR - %s'); p('fp.sqrt t %s'); p('fp.sqrtA s %s'); p('fp.neg s %s'); p('fp.isQNR - %s')
            p('fp.sqrt b %a'); p('fp.sqrt b %n')
        out.append(p)
    def el(r):
        c = r.random()
        if c < .15: return (res(r), 0)
        if c < .3: return (0, res(r))
        if c < .4: x = res(r); return (x, r.choice([x, -x % P]))
        if c < .5: return r.choice([(0, 0), (1, 0), (P - 1, 0), (0, 1), (0, P - 1), (2, 0), (P - 2, 0)])
        return (res(r), res(r))
    for _ in range(40 * k):
        p = Prog('sqrt2-%d' % r.getrandbits(24))
        for _ in range(8):
            a = el(r); p('fp2.raw a %s %s' % (raw(a[0]), raw(a[1])))
            for o in ('isQNR', 'isLL', 'sign'): p('fp2.%s - %%a' % o)
            p('fp2.neg n %a'); p('fp2.isLL - %n'); p('fp2.sign - %n')
            p('fp2.sq s %a'); p('fp2.isQNR - %s'); p('fp2.sqrt t %s'); p('fp2.sqrtA s %s'); p('fp2.mulNR s %s'); p('fp2.isQNR - %s')
            p('fp2.sqrt t %a'); p('fp2.sqrt t %n')
        out.append(p)
    return out

# ---- C15: the pairing ---------------------------------------------------------------------------------
def c15(tier, r):
    q = tier == 'quick'; out = []
    p1, p2 = pool(E1, r), pool(E2, r)
    def pts(p, i, inf=.12, sub2=True, zm=None):
        a = None if r.random() < inf else r.choice(p1.sub)[1] if r.random() < .7 else p1.any(0)
        b = None if r.random() < inf else r.choice(p2.sub)[1]
        p(p1.ld('a%d' % i, a, zm)); p(p2.ld('b%d' % i, b, zm)); return '%%a%d %%b%d' % (i, i)
    for n in ([0, 1, 1, 1, 2, 2, 3, 4] if q else [0] + [1, 2, 3, 4] * 12 + [7, 12]):
        p = Prog('pair-%d-%d' % (n, r.getrandbits(20)), weight=1300 * n + 600)
        v = ' '.join(pts(p, i) for i in range(n)); p('pair.npairs - ' + v)
        p('pair.calc e %s%s' % (v, r.choice(['', ' y']))); p('fp12.isGt - %e') if r.random() < .3 else None
        out.append(p)
    # the two-step interface and plain tuples give the same value
    for i in range(2 if q else 8):
        p = Prog('pair-two-%d' % i, weight=3500)
        v = pts(p, 0, 0) + ' ' + pts(p, 1, 0.3); p('pair.twostep e ' + v); p('pair.calc f ' + v); p('fp12.equal - %e %f')
        p2_ = Prog('pair-direct-%d' % i, weight=2500); v = pts(p2_, 0, 0, zm='affine') + ' ' + pts(p2_, 1, 0, zm='affine'); p2_('pair.direct e ' + v)
        out += [p, p2_]
    # bilinearity: products of multiples of the generators with known exponents
    for _ in range(24 if q else 250):
        p = Prog('bilinear-%d' % r.getrandbits(24), weight=200)
        for _ in range(2):
            n = r.choice([1, 1, 2, 2, 3, 5]); regs, ws = [], []
            for i in range(n):
                (a, A), (b, B) = r.choice(p1.sub), r.choice(p2.sub)
                if r.random() < .1: a, A = 0, None
                if r.random() < .1: b, B = 0, None
                if i == n - 1 and n > 1 and r.random() < .5 and not (ws[0] == '0' or ws[1] == '0'):
                    # closes the product: e(A, B) e(-A, B) = 1
                    a0, b0 = int(ws[0], 16), int(ws[1], 16); a, b = Q - a0, b0; A, B = E1.mul(E1.G, a), E2.mul(E2.G, b)
                p(p1.ld('a%d' % i, A)); p(p2.ld('b%d' % i, B)); regs += ['%%a%d' % i, '%%b%d' % i]; ws += ['%x' % a, '%x' % b]
            p('pair.calcW e %s %s' % (' '.join(regs), ' '.join('%064x' % int(w, 16) for w in ws)))
        out.append(p)
    for n in ([21] if q else [19, 20, 21, 40]):
        p = Prog('bilinear-many-%d' % n, weight=50 * n); regs, ws = [], []
        for i in range(n):
            (a, A), (b, B) = r.choice(p1.sub), r.choice(p2.sub); p(p1.ld('a%d' % i, A)); p(p2.ld('b%d' % i, B)); regs += ['%%a%d' % i, '%%b%d' % i]; ws += ['%064x' % a, '%064x' % b]
        p('pair.calcW e %s %s' % (' '.join(regs), ' '.join(ws))); out.append(p)
    # final exponentiation of arbitrary elements
    for _ in range(10 if q else 60):
        p = Prog('final-%d' % r.getrandbits(24), weight=600)
        p('fp12.raw f ' + ' '.join(h48(fpraw(r)) for _ in range(12)))
        if r.random() < .3: p('fp12.one f'); p('fp12.neg f %f')
        p('pair.finalA f %f'); out.append(p)
    return out

# ---- C16: maps to the curves ------------------------------------------------------------------------------
KER1 = [0x146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598, 0xec1d2551f80abe70136a7f42e52133ebddf9b619a88147ae422a98e57581f2b0961dc019c74599f12a1b5513649a2e8,
        0xa92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29, 0x10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f,
        0x1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0, 0xa2605e5991fcf3e63728a7a1468d79bacaa5f23f3816aadcd38efdd330c6d4f5bbf450f92156e0e23e16e3252bcd042,
        0x854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405, 0xa3bf00221e169b850c5268c3d1edd576732060760bc0c00ed0311dee8588b18130822d3027f8d142802d784ea194fca]
def exc1():
    """u with Z u^2 = -1"""
    s = sqrt1(-pow(11, -1, P) % P)
    return [] if s is None else [s, P - s]
def exc2():
    z = neg2((2, 1)); out = []
    for t in (neg2(inv2(z)), inv2(z)):
        s = sqrt2(t)
        if s is not None and mul2(s, s) == t: out += [s, neg2(s)]
    return out
def dst(r):
    c = r.random()
    if c < .3: return b'BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_'
    if c < .4: return b'BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_'
    n = r.choice([0, 1, 2, 31, 32, 33, 54, 55, 56, 63, 64, 100, 254, 255, 256, 257, 300, 511, 512, 600])
    return bytes(r.choice([r.getrandbits(8), r.getrandbits(8), 0]) for _ in range(n))
def rbytes(r, n): return bytes(r.getrandbits(8) for _ in range(n))
LENS = [0, 1, 2, 3, 8, 31, 32, 33, 47, 48, 54, 55, 56, 57, 62, 63, 64, 65, 95, 96, 111, 112, 118, 119, 120, 121, 127, 128, 129, 183, 184, 191, 192, 193, 255, 256, 257, 300, 500, 1000]
def msg(r): return rbytes(r, r.choice(LENS))
def c16(tier, r):
    q = tier == 'quick'; k = 1 if q else 12; out = []
    u1 = [0, 1, P - 1, 2, P - 2] + KER1 + exc1()
    for i in range(0, len(u1), 4):
        p = Prog('g1-map-edge-%d' % i)
        for u in u1[i:i + 4]:
            p('fp.raw u ' + raw(u)); p('g1.swu - %u'); p('g1.map m %u'); p('g1.inSub - %m'); p('fp.neg u %u'); p('g1.swu - %u'); p('g1.map n %u')
        out.append(p)
    for _ in range(14 * k):
        p = Prog('g1-map-%d' % r.getrandbits(24))
        for _ in range(10): p('fp.raw u ' + (raw(res(r)) if r.random() < .5 else h48(fpraw(r)))); p('g1.swu - %u'); p('g1.map m %u'); p('g1.onCurve - %m')
        out.append(p)
    u2 = [(0, 0), (1, 0), (P - 1, 0), (0, 1), (0, P - 1), (1, 1), (P - 1, 1)] + exc2()
    def el2():
        c = r.random()
        return (res(r), 0) if c < .2 else (0, res(r)) if c < .4 else (res(r), res(r))
    def mp2(us, t):
        p = Prog('g2-map-%s' % t)
        for u in us: p('fp2.raw u %s %s' % (raw(u[0]), raw(u[1]))); p('g2.swu - %u'); p('g2.map m %u'); p('g2.onCurve - %m')
        out.append(p)
    for i in range(0, len(u2), 3): mp2(u2[i:i + 3], 'edge%d' % i)
    for i in range(12 * k): mp2([el2() for _ in range(6)], str(i))
    # the isogeny itself on points of E2' in any representation
    A2, C2 = (0, 240), (1012, 1012)
    for i in range(4 * k):
        p = Prog('g2-iso-%d' % i)
        for _ in range(6):
            while True:
                x = r.choice([F2.rand(r), (res(r), 0), (0, res(r)), (r.randrange(8), r.randrange(8))]); y = sqrt2(add2(mul2(add2(mul2(x, x), A2), x), C2))
                if y is not None and mul2(y, y) == add2(mul2(add2(mul2(x, x), A2), x), C2): break
            z = F2.rand(r) if r.random() < .1 else (1, 0); z2 = mul2(z, z)
            p('g2.raw a ' + ' '.join(sum((F2.raw(c) for c in (mul2(x, z2), mul2(y, mul2(z2, z)), z)), []))); p('g2.iso b %a'); p('g2.onCurve - %b')
        p(E2.load('a', None, r, 'zero')); p('g2.iso b %a')
        out.append(p)
    for _ in range(30 * k):
        p = Prog('hash-%d' % r.getrandbits(24))
        for _ in range(3):
            by(p, 'm', msg(r)); by(p, 'd', dst(r)); p('sig.fromMsg h %m %d'); p('g2.inSub - %h') if r.random() < .2 else None
        out.append(p)
    p = Prog('suites'); p('sig.suite - nul'); p('sig.suite - pop'); out.append(p)
    return out

# ---- structured enumerations --------------------------------------------------------------------------------------
def c15_every(tier, r):
    q = tier == 'quick'; out = []; p1, p2 = pool(E1, r), pool(E2, r)
    def setup(tag):
        """registers A* and B* holding +-1, +-2, 3 times a point of each group, in several representations, and the identity"""
        p = Prog('%s-%d' % (tag, r.getrandbits(24))); (a, A), (b, B) = r.choice(p1.sub), r.choice(p2.sub); L, N = {}, {}
        (a2, A2), (b2, B2) = r.choice(p1.sub), r.choice(p2.sub)
        for i, (k, pt) in enumerate([(0, None), (a, A), (Q - a, E1.neg(A)), (2 * a % Q, E1.add(A, A)), (a2, A2), (a, A)]): L['A%d' % i] = k; p(p1.ld('A%d' % i, pt, 'affine' if i in (1, 2) else None))
        for i, (k, pt) in enumerate([(0, None), (b, B), (Q - b, E2.neg(B)), (2 * b % Q, E2.add(B, B)), (b2, B2), (b, B)]): N['B%d' % i] = k; p(p2.ld('B%d' % i, pt, 'affine' if i in (1, 2) else None))
        L.update(N); return p, L
    def call(p, D, lst): p('pair.calcW e %s %s' % (' '.join('%%A%d %%B%d' % x for x in lst), ' '.join('%064x %064x' % (D['A%d' % i], D['B%d' % j]) for i, j in lst)))
    ij = [(i, j) for i in range(6) for j in range(6)]
    p, D = setup('singles')
    for x in ij: call(p, D, [x])
    out.append(p)
    # one call after another: nothing is remembered.  Every ordered pair of single products appears as neighbours
    p, D = setup('histories'); core = [(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (4, 1), (1, 4), (3, 2), (4, 4), (0, 1), (1, 0)]
    seq = [(x, y) for x in core for y in core]; r.shuffle(seq)
    for x, y in seq if not q else seq[:40]: call(p, D, [x]); call(p, D, [y])
    p.weight = None; out.append(p)
    for n in (2, 3) if q else (2, 3, 4, 5):
        p, D = setup('near'); lst = [(r.choice([1, 3, 4]), r.choice([1, 3, 4])) for _ in range(n)]
        near(lambda l: call(p, D, l), lst, [(j, y) for j, (a, b) in enumerate(lst) for y in ((r.choice([x for x in (1, 2, 3, 4) if x != a]), b), (a, r.choice([x for x in (1, 2, 3, 4) if x != b])))])
        out.append(p)
    prs = [(x, y) for x in ij for y in ij]
    for i in range(0, len(prs), 40):
        p, D = setup('doubles'); ch = prs[i:i + 40]
        for x, y in ch if not q else r.sample(ch, 10): call(p, D, [x, y])
        out.append(p)
    for _ in range(6 if q else 60):
        p, D = setup('triples')
        for _ in range(6): call(p, D, [r.choice(ij) for _ in range(r.choice([3, 3, 4]))])
        # repeated and cancelling members at a distance
        for lst in ([(1, 1), (4, 4), (1, 1)], [(1, 1), (4, 4), (2, 1)], [(1, 1), (4, 1), (2, 1)], [(1, 1), (1, 4), (1, 2)], [(1, 1), (1, 1), (1, 1)], [(1, 5), (5, 1), (1, 1)], [(0, 1), (1, 1), (1, 0), (2, 1)], [(1, 4), (4, 1), (1, 4)]): r.random() < .5 and call(p, D, lst)
        out.append(p)
    for n in (5, 8, 19, 20, 33) if q else (5, 6, 7, 8, 9, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 40, 64, 65, 100):
        p, D = setup('long-%d' % n)
        for _ in range(2): call(p, D, [r.choice(ij) for _ in range(n)])
        call(p, D, [(1, 1)] * n)
        p('pair.npairs - ' + ' '.join('%%A%d %%B%d' % r.choice(ij) for _ in range(n)))
        out.append(p)
    # arguments outside the prime order subgroup of E(Fp), representations, and the callback
    for i in range(4 if q else 30):
        p = Prog('outside-%d' % i)
        for a in (r.choice(p1.tors)[1], r.choice(p1.mixed), r.choice(p1.curve)):
            b = r.choice(p2.sub)[1]; p(p1.ld('a', a)); p(p2.ld('b', b)); p('pair.calc e %a %b'); p('fp12.isGt - %e')
            p(p1.ld('c', r.choice(p1.sub)[1])); p(p2.ld('d', r.choice(p2.sub)[1])); p('pair.calc e %a %b %c %d' + r.choice(['', ' y']))
        out.append(p)
    for i in range(3 if q else 20):
        p = Prog('reps-%d' % i); a, b = r.choice(p1.sub)[1], r.choice(p2.sub)[1]
        for za in reps(E1, r, a):
            for zb in reps(E2, r, b)[:3 if q else None]: p(ldz(E1, r, 'a', a, za)); p(ldz(E2, r, 'b', b, zb)); p('pair.calc e %a %b'); p('pair.twostep f %a %b')
        out.append(p)
    # final exponentiation: subfields, units, cyclotomic elements, one coefficient
    for i in range(6 if q else 40):
        p = Prog('final-%d' % i)
        for _ in range(3):
            c = r.randrange(5); v = [0] * 12
            if c == 0: v[r.randrange(12)] = fpraw(r) or 1
            elif c == 1: v[:6] = [fpraw(r) or 1 for _ in range(6)]
            elif c == 2: v[:2] = [fpraw(r) or 1 for _ in range(2)]
            elif c == 3: v[6:] = [fpraw(r) or 1 for _ in range(6)]
            else: v = [r.choice([0, R % P, fpraw(r)]) for _ in range(12)]; v[3] = v[3] or 1
            p('fp12.raw f ' + ' '.join(map(h48, v))); p('pair.finalA f %f'); p('fp12.isGt - %f'); p('pair.finalA f %f')
        out.append(p)
    return out
def gt_neighbours(r):
    """a member of the target group, then elements that share all but one component with it"""
    p = Prog('gt-neighbours'); p(raw12('g', ROOTS['gt'])); p('fp12.cycExp g %%g %s' % sch(r.randrange(1, Q), 4)); nb = []
    for j in range(12): p('fp12.raw u ' + ' '.join(h48(int(i == j)) for i in range(12))); p('fp12.add n%d %%g %%u' % j); nb.append('n%d' % j)
    p('fp12.conj k %g'); p('fp12.sq t %g'); p('fp12.neg m %g'); p('fp12.one o'); p('fp12.zero z'); nb += ['k', 't', 'm', 'o', 'z']
    near(lambda l: p('fp12.isGt - %%%s' % l[0]), ['g'], [(0, x) for x in nb]); near(lambda l: p('fp12.equal - %%%s %%%s' % tuple(l)), ['g', 'g'], [(i, x) for x in nb for i in (0, 1)])
    return [p]
def c10_every(tier, r):
    q = tier == 'quick'; out = gt_neighbours(r)
    for kd in ('fp2', 'fp6', 'fp12'): out += field_neighbours(kd, r, ('dbl', 'neg', 'sq', 'inv', 'frob 1', 'frob 2', 'frob 3', 'isZero', 'isOne') + (('conj', 'mulNR', 'mulB') if kd == 'fp2' else ('mulNR',) if kd == 'fp6' else ('conj',)), ('add', 'sub', 'mul', 'equal'), count=1 if q else 8)
    # sums and products with every pattern of zero coefficients on either side
    for kind in ('fp2', 'fp6', 'fp12'):
        n = NC[kind]; half = n // 2
        masks = list(range(1 << n)) if n <= 6 else [sum(1 << i for i in range(12) if r.random() < .4) for _ in range(400)] + [1 << i for i in range(12)] + [3 << 2 * i for i in range(6)] + [63, 63 << 6, 4095, 0]
        if q and n > 2: masks = r.sample(masks, 48 if n == 6 else 40)
        for i in range(0, len(masks), 16):
            p = Prog('%s-mask-%d' % (kind, i))
            for m in masks[i:i + 16]:
                v = [r.choice([fpraw(r), R % P, P - R % P, r.randrange(P)]) or 1 if m >> j & 1 else 0 for j in range(n)]; m2 = r.choice(masks); w = [r.choice([fpraw(r), R % P, r.randrange(P)]) or 1 if m2 >> j & 1 else 0 for j in range(n)]
                p('%s.raw a %s' % (kind, ' '.join(map(h48, v)))); p('%s.raw b %s' % (kind, ' '.join(map(h48, w))))
                for o in ('mul', 'add', 'sub'): p('%s.%s c %%a %%b' % (kind, o))
                p('%s.mul c %%b %%a' % kind); p('%s.mul c %%a %%a' % kind); p('%s.equal - %%a %%b' % kind)
                for o in ('sq', 'inv', 'neg', 'dbl'): p('%s.%s c %%a' % (kind, o))
                for o in ('isZero', 'isOne'): p('%s.%s - %%a' % (kind, o))
                p('%s.copy c %%a' % kind); p('%s.%sA c %%c %%%s' % (kind, r.choice(['mul', 'add', 'sub']), r.choice('abc'))); p('%s.copy c %%a' % kind); p('%s.%sA c %%c' % (kind, r.choice(['sq', 'dbl']))); p('%s.frob c %%a %d' % (kind, r.randrange(14)))
                if kind == 'fp2':
                    for o in ('conj', 'mulNR', 'mulB', 'sign'): p('fp2.%s %s %%a' % (o, '-' if o == 'sign' else 'c'))
                    p('fp.raw k ' + h48(r.choice([0, R % P, P - R % P, fpraw(r)]))); p('fp2.mulFq c %a %k')
                for x in 'xyz': p('fp2.raw %s %s' % (x, ' '.join(h48(0 if r.random() < .4 else r.choice([R % P, fpraw(r), P - R % P])) for _ in range(2))))
                if kind == 'fp6': p('fp6.mulBy01 c %a %x %y'); p('fp6.mulBy1 c %a %x'); p('fp6.mulBase c %a %y'); p('fp6.mulNR c %a'); p('fp6.mulBy01A a %a %y %z')
                if kind == 'fp12': p('fp12.conj c %a'); p('fp12.fp4Sq - %x %y'); p('fp12.mulBy014A a %a %x %y %z')
            out.append(p)
        # coefficients at the edges: sums that reach p in one coefficient, products that hit extreme values
        for i in range(6 if q else 60):
            p = Prog('%s-edges-%d' % (kind, i))
            for _ in range(10):
                v = [fpraw(r) for _ in range(n)]; w = [partner(r, x) for x in v]; p('%s.raw a %s' % (kind, ' '.join(map(h48, v)))); p('%s.raw b %s' % (kind, ' '.join(map(h48, w))))
                for o in ('add', 'sub', 'mul', 'mulA', 'addA', 'subA'): p('%s.%s %s %%a %%b' % (kind, o, 'a' if o.endswith('A') else 'c'))
                p('%s.add a %%a %%a' % kind); p('%s.sq c %%b' % kind); p('%s.sqA b %%b' % kind); p('%s.inv c %%b' % kind); p('%s.mul c %%c %%b' % kind); p('%s.isOne - %%c' % kind)
            out.append(p)
    # Karatsuba-style: operands with equal or opposite halves
    for i in range(4 if q else 40):
        p = Prog('halves-%d' % i)
        for kind in ('fp2', 'fp6', 'fp12'):
            n = NC[kind]
            for _ in range(6):
                h = [fpraw(r) for _ in range(n // 2)]; s = r.choice([1, -1, 0]); g = [(s * x) % P for x in h]
                if kind == 'fp6': h = [fpraw(r), fpraw(r)]; v = h + r.choice([h, [(-x) % P for x in h], [0, 0]]) + r.choice([h, [(-x) % P for x in h], [0, 0]])
                else: v = h + g
                p('%s.raw a %s' % (kind, ' '.join(map(h48, v)))); p(load(kind, 'b', r)); p('%s.mul c %%a %%b' % kind); p('%s.mul c %%b %%a' % kind); p('%s.sq c %%a' % kind); p('%s.mul c %%a %%a' % kind); p('%s.inv c %%a' % kind); p('%s.sub c %%a %%b' % kind)
        out.append(p)
    # Frobenius maps compose and have the right order
    p = Prog('frobenius-chain')
    for kind in ('fp2', 'fp6', 'fp12'):
        for j in range(NC[kind]):
            p('%s.raw a %s' % (kind, ' '.join(h48(r.randrange(P) if i == j else 0) for i in range(NC[kind]))))
            for e in range(0, 14): p('%s.frob b %%a %d' % (kind, e)); p('%s.copy c %%a' % kind); p('%s.frobA c %%c %d' % (kind, e))
        p('%s.raw a %s' % (kind, ' '.join(h48(r.randrange(P)) for i in range(NC[kind]))))
        for e in r.sample(range(14, 400), 12) + [1 << 31, (1 << 31) + 1, 1 << 20, (1 << 32) + 7, (1 << 63) + 5, (1 << 64) - 1, (1 << 64) - 11]: p('%s.frob b %%a %d' % (kind, e))
    out.append(p)
    # the cyclotomic group: exponents of every width
    p = Prog('cyc-exponents'); p(raw12('c', ROOTS['phi12']))
    for w in (1, 2, 3, 4, 5, 6):
        for e in r.sample(exponents(r, w), 3 if q else 20): p('fp12.cycExp s %%c %s' % sch(e, w))
    out.append(p)
    return out
def c11_every(tier, r):
    q = tier == 'quick'; out = []; H = (P - 1) // 2
    for kd in ('fp', 'fp2'): out += field_neighbours(kd, r, ('sqrt', 'isQNR', 'isLL', 'sign'), exps=False, count=2 if q else 12)
    def one(p, a):
        p('fp.raw a ' + raw(a))
        for o in ('isQNR', 'isLL', 'sign'): p('fp.%s - %%a' % o)
        p('fp.sqrt b %a'); p('fp.neg n %a'); p('fp.sqrt b %n'); p('fp.isLL - %n'); p('fp.sign - %n')
    E = sorted({(s + d) % P for s in (0, H, H + 1, P >> 2, RINV, RINV * H % P) for d in range(-20, 21)} | {H ^ (1 << i) for i in range(0, 380)} | {(H + (1 << i)) % P for i in range(381)} | {H - (1 << i) for i in range(379)} | {1 << i for i in range(381)} | {(RINV << i) % P for i in range(0, 384, 5)})
    if q: E = r.sample(E, 500)
    for i in range(0, len(E), 60):
        p = Prog('near-%d' % i)
        for a in E[i:i + 60]: one(p, a)
        out.append(p)
    # limbs of (p-1)/2 changed one at a time, the lower ones the other way round (residue and stored form)
    hl = [(H >> (64 * i)) & M64 for i in range(6)]; p = Prog('limbs')
    for i in range(6):
        for d in (-1, 0, 1):
            for low in (0, M64, None, 'r'):
                l = list(hl); l[i] = (l[i] + d) & M64; l[:i] = [hl[j] if low is None else r.getrandbits(64) if low == 'r' else low for j in range(i)]; v = sum(x << (64 * j) for j, x in enumerate(l))
                if v < P:
                    p('fp.raw a ' + raw(v)); p('fp.isLL - %a'); p('fp.raw a ' + h48(v)); p('fp.isLL - %a'); p('fp.sign - %a')
                    for w in (v, r.randrange(P)):
                        for u in ((v, 0), (0, v), (w, v), (v, w), (1, v)): p('fp2.raw b %s %s' % (raw(u[0]), raw(u[1]))); p('fp2.isLL - %b'); p('fp2.sign - %b'); p('fp2.neg b %b'); p('fp2.isLL - %b'); p('fp2.sign - %b')
    out.append(p)
    p = Prog('words')
    for i in range(6):
        for _ in range(8 if q else 60):
            a, b = words(r, i), r.choice([words(r, r.randrange(6)), r.randrange(P), 0, R % P]); st = r.choice([h48, raw]); p('fp.raw a ' + st(a))
            for o in ('isQNR', 'isLL', 'sign'): p('fp.%s - %%a' % o)
            p('fp.sqrt b %a')
            for u, v in ((a, b), (b, a)):
                p('fp2.raw a %s %s' % (st(u), st(v)))
                for o in ('isQNR', 'isLL', 'sign'): p('fp2.%s - %%a' % o)
                p('fp2.sqrt b %a')
    out.append(p)
    # Fp2: all combinations of special coefficients; roots that lie in the base field or on the imaginary axis
    S = [0, 1, 2, 3, P - 1, P - 2, H, H + 1, RINV, P - RINV, 4, 9, P - 4, P - 3]
    prs = [(a, b) for a in S for b in S]
    for i in range(0, len(prs), 28):
        p = Prog('fp2-special-%d' % i)
        for a in prs[i:i + 28]:
            p('fp2.raw a %s %s' % (raw(a[0]), raw(a[1])))
            for o in ('isQNR', 'isLL', 'sign'): p('fp2.%s - %%a' % o)
            p('fp2.sqrt b %a'); p('fp2.sq s %a'); p('fp2.sqrt b %s'); p('fp2.isQNR - %s'); p('fp2.mulNR s %s'); p('fp2.sqrt b %s'); p('fp2.isQNR - %s')
        out.append(p)
    # elements of norm one and of norm minus one, roots of unity of small order, and real and imaginary multiples of them
    U = []
    for n in (3, 4, 6, 8, 9, 11, 12, 16, 22, 24, 48):
        if (P * P - 1) % n == 0:
            for _ in range(2): U.append(pow2((r.randrange(P), r.randrange(P)), (P * P - 1) // n))
    for _ in range(8 if q else 80):
        x = (r.randrange(P), r.randrange(P)); n = pow(x[0] * x[0] + x[1] * x[1], -1, P); c = (x[0], -x[1] % P); u = mul2(mul2(c, c), (n, 0)); U.append(u)
        a = res(r); t = pow((-1 - a * a) % P, (P + 1) // 4, P)
        if (a * a + t * t + 1) % P == 0: U.append((a, t))
    for i in range(0, len(U), 10):
        p = Prog('fp2-units-%d' % i)
        for u in U[i:i + 10]:
            k = r.randrange(1, P)
            for t in (u, neg2(u), (u[1], u[0]), mul2(u, u), mul2(u, (k, 0)), mul2(u, (0, k))):
                p('fp2.raw a %s %s' % (raw(t[0]), raw(t[1]))); p('fp2.isQNR - %a'); p('fp2.raw b %s %s' % (raw(u[0]), raw(u[1]))); p('fp2.sqrt b %a'); p('fp2.isLL - %a'); p('fp2.sign - %a')
        out.append(p)
    for i in range(6 if q else 60):
        p = Prog('fp2-roots-%d' % i)
        for _ in range(12):
            x = r.choice([(res(r), 0), (0, res(r)), (res(r), res(r)), (r.randrange(P),) * 2, (lambda t: (t, P - t))(r.randrange(1, P)), (r.randrange(P), 1), (1, r.randrange(P))]); s = mul2(x, x)
            for t in (s, neg2(s), mul2(s, (0, 1)), mul2(s, (1, 1)), (s[0], (-s[1]) % P), (s[1], s[0])):
                p('fp2.raw a %s %s' % (raw(t[0]), raw(t[1]))); p('fp2.isQNR - %a'); p('fp2.sqrt b %a'); r.random() < .3 and p('fp2.sqrtA a %a')
            # norm is a square but the element is not, and the other way round, by multiplying with real non-residues
            k = r.randrange(1, P); p('fp2.raw a %s %s' % (raw(s[0] * k % P), raw(s[1] * k % P))); p('fp2.isQNR - %a'); p('fp2.sqrt b %a')
        out.append(p)
    return out
def c16_every(tier, r):
    q = tier == 'quick'; out = []; H = (P - 1) // 2
    for n, m in ((80, 43), (200, 300)) if q else ((1, 1), (33, 20), (64, 43), (80, 255), (130, 256), (200, 300), (1000, 43)): out += byte_neighbours('hash', r, [lambda d: 'sig.fromMsg h %%%s %%%s' % (d['m'], d['d'])], dict(m=rbytes(r, n), d=rbytes(r, m)), 3 if q else 12)
    # the maps on all special elements
    S = sorted({(s + d) % P for s in (0, H, RINV) for d in range(-6, 7)} | {1 << (64 * i) for i in range(6)} | {(RINV * d) % P for d in range(1, 6)} | set(KER1) | set(exc1()) | {P - x for x in KER1})
    for i in range(0, len(S), 12):
        p = Prog('g1-%d' % i)
        for u in S[i:i + 12]: p('fp.raw u ' + raw(u)); p('g1.swu - %u'); p('g1.map m %u'); p('g1.onCurve - %m')
        out.append(p)
    T = [(a, b) for a in (0, 1, 2, P - 1, H, H + 1, P - 2) for b in (0, 1, 2, P - 1, H, H + 1, P - 2)] + exc2()
    T = T if not q else r.sample(T, 16) + exc2()
    for i in range(0, len(T), 4):
        p = Prog('g2-%d' % i)
        for u in T[i:i + 4]:
            for w in (u, neg2(u)): p('fp2.raw u %s %s' % (raw(w[0]), raw(w[1]))); p('g2.swu - %u')
            p('g2.map m %u'); p('g2.onCurve - %m')
        out.append(p)
    # empty words, as stored and as written
    for i in range(6):
        p = Prog('words-%d' % i)
        for j in range(10 if q else 60):
            a, b = words(r, i), r.choice([words(r, r.randrange(6)), r.randrange(P), 0, R % P]); st = r.choice([h48, h48, raw])
            for u, v in ((a, b), (b, a)):
                p('fp2.raw u %s %s' % (st(u), st(v))); p('g2.swu - %u'); p('fp2.sign - %u')
                if j < 2: p('g2.map m %u')
            p('fp.raw v ' + st(a)); p('g1.swu - %v'); p('fp.sign - %v')
            if j < 2: p('g1.map m %v')
        out.append(p)
    for i in range(8 if q else 60):
        p = Prog('swu-%d' % i)
        for _ in range(12 if q else 30):
            u = (res(r), res(r)) if r.random() < .6 else r.choice([(res(r), 0), (0, res(r))]); p('fp2.raw u %s %s' % (raw(u[0]), raw(u[1]))); p('g2.swu - %u'); p('fp.raw v ' + raw(res(r))); p('g1.swu - %v')
        out.append(p)
    # every length of message and of domain separation tag
    Lm = list(range(0, 150)) + list(range(150, 700, 11)); Ld = list(range(0, 320))
    if q: Lm = r.sample(Lm, 40); Ld = sorted(r.sample(range(0, 256), 24)) + [254, 255, 256, 257, 300]
    J = [(n, r.choice([0, 32, 43, 100])) for n in Lm] + [(r.choice([0, 3, 32]), n) for n in Ld]
    for i in range(0, len(J), 8):
        p = Prog('hash-len-%d' % i)
        for a, b in J[i:i + 8]: by(p, 'm', rbytes(r, a)); by(p, 'd', rbytes(r, b)); p('sig.fromMsg h %m %d')
        out.append(p)
    # tags and messages with special octets
    p = Prog('hash-octets')
    for d in (b'\0', b'\0\0', b'a\0b', b'\xff' * 8, b'A\0', b'QUUX-V01-CS02-with-BLS12381G2_XMD:SHA-256_SSWU_RO_', bytes(range(256))[:255], b'%s%n', b' ', b'\n'):
        for m in (b'', b'\0', b'abc'): by(p, 'm', m); by(p, 'd', d); p('sig.fromMsg h %m %d')
    out.append(p)
    return out
