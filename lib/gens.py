"""Generators of API programs, one function per property."""
import random
from bls import *
from engine import Prog
M64 = (1 << 64) - 1
PL = [(P >> (64 * i)) & M64 for i in range(6)]

# ---- field element pools: raw (stored) limb patterns, all < P
def edge_raws():
    s = {0, 1, 2, P - 1, P - 2, (P - 1) // 2, (P + 1) // 2, R % P, R * R % P, P >> 1, P >> 2, RINV, 3 * R % P, -R % P, 2 * R % P, (P + 1) // 2 * R % P}
    for k in range(0, 381, 16): s |= {(1 << k) % P, ((1 << k) - 1) % P, (P - (1 << k)) % P}
    for i in range(6):
        for d in (-1, 0, 1):
            l = list(PL); l[i] = (l[i] + d) & M64; s.add(sum(v << (64 * j) for j, v in enumerate(l)))
        l = [0] * 6; l[i] = M64; s.add(sum(v << (64 * j) for j, v in enumerate(l)))
        l = [M64] * 6; l[i] = 0; s.add(sum(v << (64 * j) for j, v in enumerate(l)))
    return sorted(v for v in s if 0 <= v < P)
EDGE = edge_raws()
def limbpat(r):
    while True:
        l = [r.choice([0, 1, M64, M64 - 1, 1 << 63, (1 << 63) - 1, PL[i], PL[i] - 1 & M64, PL[i] + 1 & M64, r.getrandbits(64)]) for i in range(5)]
        t = r.choice([0, 1, PL[5], PL[5] - 1, r.randrange(PL[5] + 1)])
        v = sum(x << (64 * i) for i, x in enumerate(l)) + (t << 320)
        if v < P: return v
def words(r, i):
    """a number whose i-th word is zero: alone, with all below, or with all others"""
    while True:
        c = r.randrange(4); l = [0 if j == i and c < 3 or c == 1 and j < i or c == 2 and j != (i + 1) % 6 or c == 3 and j != i else r.getrandbits(64) for j in range(6)]
        v = sum(x << (64 * j) for j, x in enumerate(l)) & ((1 << 381) - 1)
        if 0 < v < P: return v
def fpraw(r):
    c = r.random()
    return r.choice(EDGE) if c < .3 else limbpat(r) if c < .6 else r.randrange(P)
def partner(r, x):
    """a second operand in a delicate relation to x"""
    c = r.randrange(8)
    return [x, (P - x) % P, (P - x + 1) % P, (P - x - 1) % P, (x + 1) % P, (x - 1) % P, fpraw(r), fpraw(r)][c]

# ---- random field programs -------------------------------------------------------------------
NC = {'fp': 1, 'fp2': 2, 'fp6': 6, 'fp12': 12}
def load(k, reg, r, mode='mix'):
    n = NC[k]
    if mode == 'rand': v = [r.randrange(P) for _ in range(n)]
    else:
        c = r.random()
        if c < .12: v = [0] * n; v[r.randrange(n)] = fpraw(r)            # one coordinate only
        elif c < .2: v = [r.choice([0, R % P, P - R % P]) for _ in range(n)]  # 0, 1, -1
        elif c < .3: v = [fpraw(r)] * n
        elif c < .4: v = [fpraw(r) if r.random() < .5 else 0 for _ in range(n)]                      # any zero pattern
        elif c < .48: x = fpraw(r); v = [r.choice([x, (P - x) % P, 0]) for _ in range(n)]
        else: v = [fpraw(r) for _ in range(n)]
    return '%s.raw %s %s' % (k, reg, ' '.join(h48(x) for x in v))
BIN, UN = ['add', 'sub', 'mul'], ['dbl', 'neg', 'sq', 'inv', 'copy']
PRED1, PRED2 = ['isZero', 'isOne'], ['equal']
EXPS = {'fp': [1, 2, 3, 4, 5, 6, 7, 8], 'fp2': [1, 2, 3, 4, 5, 6], 'fp6': [1, 2, 3, 4], 'fp12': [1, 2, 3, 4]}
def rexp(r, w):
    c = r.random()
    if c < .1: return sch(0, w)
    if c < .2: return sch(1, w)
    if c < .3: return sch(1 << r.randrange(64 * w), w)
    if c < .4: return sch((1 << 64 * w) - 1, w)
    if c < .5: return sch(r.getrandbits(64 * r.randrange(1, w + 1)), w)
    return sch(r.getrandbits(64 * w), w)
def field_program(k, r, n, regs=8, extra_un=(), extra_pred=(), inv=True, special=None):
    """a random straight-line program over one field"""
    p = Prog('%s-%d' % (k, r.getrandbits(32)))
    R_ = ['%s%d' % (k, i) for i in range(regs)]
    for x in R_: p(load(k, x, r))
    un = list(UN) + list(extra_un)
    if not inv: un.remove('inv')
    for _ in range(n):
        d, a, b = (r.choice(R_) for _ in range(3)); c = r.random()
        if c < .34: p('%s.%s %s %%%s %%%s' % (k, r.choice(BIN), d, a, b))
        elif c < .5: p('%s.%sA %s %%%s %%%s' % (k, r.choice(BIN), a, a, r.choice([a, b, b])))
        elif c < .64: p('%s.%s %s %%%s' % (k, r.choice(un), d, a))
        elif c < .7: p('%s.%sA %s %%%s' % (k, r.choice(['dbl', 'sq']), a, a))
        elif c < .76: p('%s.%s - %%%s' % (k, r.choice(PRED1 + list(extra_pred)), a))
        elif c < .8: p('%s.equal - %%%s %%%s' % (k, a, b))
        elif c < .82: p('%s.exp %s %%%s %s' % (k, d, a, rexp(r, r.choice(EXPS[k][:2] if k in ('fp6', 'fp12') else EXPS[k]))))
        elif c < .84: p('%s.%s %s' % (k, r.choice(['zero', 'one', 'ctor']), d))
        elif special and c < .95: special(p, r, R_)
        else: p(load(k, d, r))
    return p

def fp_pairs(r, n):
    """pairs of stored values in a delicate relation (sums and differences at 0, p, limb boundaries)"""
    out = []
    for _ in range(n):
        x = fpraw(r); out.append((x, partner(r, x)))
    return out
def fp_special(p, r, R_):
    d, a, b = (r.choice(R_) for _ in range(3)); o = r.choice(['cmp', 'ord', 'eqop', 'sign', 'toMont', 'fromMont', 'phi', 'isOdd', 'isEven', 'isLL'])
    if o in ('cmp', 'ord', 'eqop'): p('fp.%s - %%%s %%%s' % (o, a, b))
    elif o in ('sign', 'isOdd', 'isEven', 'isLL'): p('fp.%s - %%%s' % (o, a))
    else: p('fp.%s %s %%%s' % (o, d, a))

def low_programs(r, n, per=60):
    out = []
    for _ in range(n):
        p = Prog('low-%d' % r.getrandbits(32))
        for x, y in fp_pairs(r, per):
            o = r.choice(['add', 'sub', 'mul', 'mul', 'ladd', 'lsub', 'dbl', 'neg', 'sq', 'ldbl'])
            if o in ('add', 'sub', 'mul', 'ladd', 'lsub'):
                if o == 'mul' and r.random() < .4: x, y = x + r.choice([0, P]), y + r.choice([0, P])   # lazily reduced operands
                p('low.%s - %s %s %d' % (o, h48(x), h48(y), r.choice([0, 0, 1, 2, 3])))
            else:
                if o == 'sq' and r.random() < .4: x += P
                p('low.%s - %s %d' % (o, h48(x), r.choice([0, 0, 1])))
        out.append(p)
    return out
def word_programs(r, n, per=40):
    W = [0, 1, 2, M64, M64 - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1]
    out = []
    for _ in range(n):
        p = Prog('word-%d' % r.getrandbits(32)); w = lambda: r.choice(W) if r.random() < .6 else r.getrandbits(64)
        for _ in range(per):
            o = r.choice(['add', 'sub', 'mul'])
            p('word.%s - %016x %016x' % (o, w(), w()) + ('' if o == 'mul' else ' %016x' % r.getrandbits(1)))
        out.append(p)
    return out
def modprime_program(r, n):
    p = Prog('modprime-%d' % r.getrandbits(32))
    for _ in range(n):
        w = r.choice([6, 7, 8, 9, 10, 11, 12, 16]); c = r.random(); top = 1 << (64 * w)
        if c < .25: v = r.randrange(top // P + 1) * P + r.choice([-1, 0, 1])
        elif c < .4: v = r.choice([0, 1, P - 1, P, P + 1, 2 * P - 1, 2 * P, top - 1, top - 2, (P << 64) - 1, P << 63])
        elif c < .6: v = sum(r.choice([0, M64, PL[5], PL[0], r.getrandbits(64)]) << (64 * i) for i in range(w))
        else: v = r.getrandbits(64 * w)
        p('fp.modPrime m%d %s' % (_ % 4, sch(min(max(v, 0), top - 1), w)))
    return p

# ---- operands chosen for the value they produce ----------------------------------------------
SMALLRES = sorted({v % P for k in range(0, 382) for v in (1 << k, (1 << k) - 1, -(1 << k))} | set(range(0, 17)))
def target(r):
    """a stored result that is extreme: tiny, just below p, a power of two, limbs of zeros and ones"""
    c = r.random()
    return r.choice(SMALLRES) if c < .35 else r.choice(EDGE) if c < .6 else r.getrandbits(r.randrange(1, 381)) % P if c < .8 else limbpat(r)
def operands_for(o, z, r):
    """stored operands x, y with o(x, y) = z (y is None for unary operations; None when there is none)"""
    x = fpraw(r) if r.random() < .7 else target(r)
    if o in ('add', 'ladd'): return x, (z - x) % P
    if o in ('sub', 'lsub'): return x, (x - z) % P
    if o in ('dbl', 'ldbl'): return (z * ((P + 1) // 2)) % P, None
    if o == 'neg': return (P - z) % P, None
    if o == 'mul': x = x or 1; return x, z * R % P * pow(x, -1, P) % P
    if o == 'sq':
        t = z * R % P; s = pow(t, (P + 1) // 4, P)
        if s * s % P != t: return x, None
        return r.choice([s, (P - s) % P]), None
    if o == 'inv': return (0 if z == 0 else R * R % P * pow(z, -1, P) % P), None
    if o == 'toMont': return z * RINV % P, None
    if o == 'fromMont': return z * R % P, None
def target_programs(r, n, per=60):
    out = []
    for _ in range(n):
        p = Prog('target-%d' % r.getrandbits(32))
        for _ in range(per):
            o = r.choice(['add', 'sub', 'mul', 'mul', 'dbl', 'neg', 'sq', 'inv', 'toMont', 'fromMont']); z = target(r); x, y = operands_for(o, z, r)
            p('fp.raw x ' + h48(x))
            if y is None:
                if o in ('dbl', 'sq') and r.random() < .3: p('fp.%sA x %%x' % o)
                else: p('fp.%s d %%x' % o)
                if o == 'sq' and r.random() < .4: p('fp.mul d %x %x')
            else:
                p('fp.raw y ' + h48(y))
                if o in ('add', 'mul') and r.random() < .3: x, y = y, x; p('fp.%s d %%y %%x' % o)
                elif r.random() < .3: p('fp.%sA x %%x %%y' % o)
                else: p('fp.%s d %%x %%y' % o)
        out.append(p)
    return out
def low_target_programs(r, n, per=60):
    out = []
    for _ in range(n):
        p = Prog('lowtarget-%d' % r.getrandbits(32))
        for _ in range(per):
            o = r.choice(['add', 'sub', 'mul', 'mul', 'dbl', 'neg', 'sq', 'ladd', 'lsub', 'ldbl']); z = target(r); x, y = operands_for(o, z, r)
            if o in ('mul', 'sq') and r.random() < .3: x += P
            if o == 'mul' and r.random() < .3: y += P
            if o == 'lsub' and y > x: x, y = y, x
            if y is None: p('low.%s - %s %d' % (o, h48(x), r.choice([0, 0, 1])))
            else: p('low.%s - %s %s %d' % (o, h48(x), h48(y), r.choice([0, 0, 1, 2])))
        out.append(p)
    return out
def order_programs(r, n, per=40):
    """comparison and equality of values that differ in few limbs, with the lower limbs the other way round"""
    out = []
    for _ in range(n):
        p = Prog('order-%d' % r.getrandbits(32))
        for _ in range(per):
            x = fpraw(r); l = [(x >> (64 * i)) & M64 for i in range(6)]; i = r.randrange(6); m = list(l)
            c = r.randrange(4)
            if c == 0: m[i] ^= 1 << r.randrange(64)
            elif c == 1: m[i] = (m[i] + r.choice([1, -1])) & M64; m[:i] = [r.getrandbits(64) for _ in range(i)]
            elif c == 2: m[i] = (m[i] + 1) & M64; m[:i] = [0] * i; l[:i] = [M64] * i
            else: m[i] ^= 1 << 63; m[:i] = [(v - 1) & M64 for v in m[:i]]
            a, b = (sum(v << (64 * j) for j, v in enumerate(t)) for t in (l, m))
            if a >= P or b >= P: continue
            p('fp.raw x ' + h48(a)); p('fp.raw y ' + h48(b))
            for o in ('cmp', 'ord', 'equal', 'eqop'): p('fp.%s - %%x %%y' % o); p('fp.%s - %%y %%x' % o)
        out.append(p)
    p = Prog('zero-one')
    for i in range(381):
        p('fp.raw x ' + h48(1 << i if (1 << i) < P else 1)); p('fp.isZero - %x'); v = (R % P) ^ (1 << i)
        if v < P: p('fp.raw x ' + h48(v)); p('fp.isOne - %x')
    out.append(p)
    # what counts as reduced: a single limb of p changed
    p = Prog('reduced')
    for i in range(6):
        for d in (-2, -1, 0, 1, 2):
            for low in (None, 0, M64):
                l = list(PL); l[i] = (l[i] + d) & M64
                if low is not None: l[:i] = [low] * i
                p('fp.isValidRaw - ' + h48(sum(v << (64 * j) for j, v in enumerate(l))))
    for i in range(384): p('fp.isValidRaw - ' + h48(P ^ (1 << i))); p('fp.isValidRaw - ' + h48(1 << i)); p('fp.isValidRaw - ' + h48((1 << 384) - 1 - (1 << i)))
    out.append(p)
    return out
def inverse_programs(r, n):
    out = []; v = SMALLRES + [x * R % P for x in SMALLRES] + [x * RINV % P for x in SMALLRES]
    v = v if n is None else r.sample(v, n)
    # inverses that are extreme before the power of two of the algorithm (2^381 ... 2^762 of it) is removed
    for k in range(440, 640):
        for _ in range(4 if n is None else 1): s = r.getrandbits(r.choice([8, 64, 128, 192, 256, 300, 319, 320, 321])) or 1; v.append(r.choice([1, -1]) * pow(2, k, P) * pow(s, -1, P) % P)
    # quotients of p: two numbers meet again after some steps of the greatest common divisor
    for a in range(1, 14):
        for b in range(a + 1, 14): v.append((P * a // b + r.choice([0, 1, -1, r.getrandbits(r.randrange(1, 320)), -r.getrandbits(r.randrange(1, 320))])) % P)
    for i in range(0, len(v), 80):
        p = Prog('inverses-%d' % i)
        for x in v[i:i + 80]: p('fp.raw x ' + h48(x)); p('fp.inv y %x')
        out.append(p)
    return out
def exponents(r, w):
    """every shape of exponent of w words"""
    n = 64 * w
    return [0, 1, 2, 3, (1 << n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1] + [1 << k for k in range(0, n, 21)] + [(1 << k) - 1 for k in range(0, n, 23)] + [((1 << k) - 1) << r.randrange(0, n - k) for k in range(1, n, 29)] + [sum(r.choice([0, 0, M64, 1, 1 << 63, r.getrandbits(64)]) << (64 * i) for i in range(w)) for _ in range(4)]
def exp_programs(kind, r, widths, k=1):
    out = []
    for w in widths:
        es = exponents(r, w)
        if k < 1: es = r.sample(es, max(4, int(len(es) * k)))
        es += [1 << (64 * i) for i in range(1, w)] + [(1 << (64 * i)) + d for i in range(1, w) for d in ((1, -1) if k >= .3 else (r.choice((1, -1)),))]
        p = Prog('%s-exp-%d' % (kind, w), weight=1 + len(es) * {'fp': .3, 'fp2': 1.5 * w, 'fp6': 4 * w, 'fp12': 12 * w}[kind]); p(load(kind, 'a', r, 'rand')); p(load(kind, 'b', r))
        for e in es: p('%s.exp c %%%s %s' % (kind, r.choice('aab'), sch(e, w)))
        out.append(p)
    return out

def c08(tier, r):
    k = 1 if tier == 'quick' else 12
    ps = [field_program('fp', r, 120, special=fp_special) for _ in range(100 * k)]
    ps += low_programs(r, 100 * k) + word_programs(r, 30 * k) + [modprime_program(r, 40) for _ in range(30 * k)]
    ps += target_programs(r, 160 * k) + low_target_programs(r, 160 * k) + order_programs(r, 20 * k) + inverse_programs(r, None) + exp_programs('fp', r, (1, 2, 3, 4, 5, 6, 7, 8))
    # every pair of edge values
    E = EDGE if tier != 'quick' else [EDGE[i] for i in sorted(r.sample(range(len(EDGE)), 32))]
    for x in E:
        p = Prog('edge-%x' % x)
        p('fp.raw x ' + h48(x))
        for o in ('dbl', 'neg', 'sq', 'inv', 'toMont', 'fromMont', 'phi'): p('fp.%s d %%x' % o)
        for o in ('isZero', 'isOne', 'sign', 'isOdd', 'isEven', 'isLL'): p('fp.%s - %%x' % o)
        p('fp.isValidRaw - ' + h48(x)); p('fp.isValidRaw - ' + h48(x + P))
        p('fp.mul2raw - ' + h48(x)); p('fp.mul2raw - ' + h48((1 << 384) - 1 - x)); p('fp.div2raw - %s 0' % h48(x)); p('fp.div2raw - %s 1' % h48(x))
        for y in E:
            p('fp.raw y ' + h48(y))
            for o in ('add', 'sub', 'mul', 'equal', 'cmp'): p('fp.%s %s %%x %%y' % (o, '-' if o in ('equal', 'cmp') else 'd'))
        ps.append(p)
    ps += field_neighbours('fp', r, ('dbl', 'neg', 'sq', 'inv', 'toMont', 'fromMont', 'phi', 'isZero', 'isOne', 'isOdd', 'isEven'), ('add', 'sub', 'mul', 'equal', 'cmp'), count=2 * k)
    pc = Prog('constants')
    for n in ('MODULUS', 'R1', 'R2', 'B', 'twoInv'): pc('const.fp - ' + n)
    for n in ('Q', 'pPlus1Over4', 'pMinus1Over2', 'pMinus3Over4', 'INP'): pc('const.sc - ' + n)
    return ps + [pc]

# ---- neighbours: a call, the same call with one argument of the list replaced, the first call again, for every place in the list
def near(call, base, alts):
    call(base)
    for j, a in alts: call(base[:j] + [a] + base[j + 1:]); call(base)

def field_neighbours(kd, r, one, two=(), exps=True, count=1):
    """one operation at a time: an element, one that shares all but one component (or all but one word), the element again"""
    n = NC[kd]; out = []
    for _ in range(count):
        p = Prog('%s-neighbours-%d' % (kd, r.getrandbits(24))); v = [r.randrange(P) for _ in range(n)]; raw = lambda reg, w: p('%s.raw %s %s' % (kd, reg, ' '.join(h48(x) for x in w)))
        nb = [v[:j] + [(v[j] ^ (1 << r.randrange(380))) % P] + v[j + 1:] for j in range(n)] + [v[:j] + [0] + v[j + 1:] for j in range(n)] + [[P - x for x in v], v[::-1]]
        if n <= 2: nb += [v[:j] + [(v[j] ^ (1 << (64 * i + r.randrange(60)))) % P] + v[j + 1:] for j in range(n) for i in range(6)]
        else: nb += [v[:n // 2] + [P - x for x in v[n // 2:]], [P - x for x in v[:n // 2]] + v[n // 2:], v[n // 2:] + v[:n // 2]]
        raw('a', v); raw('b', [r.randrange(P) for _ in range(n)]); p('%s.sq s %%a' % kd)
        for j, w in enumerate(nb): raw('n%d' % j, w)
        al = [(0, 'n%d' % j) for j in range(len(nb))]
        for o in one:
            k = o.split(); near(lambda l: p('%s.%s %s %%%s%s' % (kd, k[0], '-' if k[0] in ('isZero', 'isOne', 'sign', 'isOdd', 'isEven', 'isLL', 'isQNR', 'isGt') else 'c', l[0], ''.join(' ' + x for x in k[1:]))), ['a'], al)
        if 'sqrt' in one:       # of a square: neighbours are mostly none
            for j in range(len(nb)): p('%s.sqrt c %%s' % kd); p('%s.sqrt c %%n%d' % (kd, j))
        for o in two: near(lambda l: p('%s.%s %s %%%s %%%s' % (kd, o, '-' if o in ('equal', 'cmp') else 'c', l[0], l[1])), ['a', 'a' if o in ('equal', 'cmp') else 'b'], al + [(1, x) for _, x in al])
        if exps:
            e = r.getrandbits(60) | 1 << 63 | r.getrandbits(64) << 64; L = lambda w: p('%s.exp c %%%s %s' % (kd, w[0], sch(w[1], 2))); near(L, ['a', e], al[:3] + [(1, e ^ (1 << i)) for i in (0, 63, 64, 127)])
        out.append(p)
    return out

def byte_neighbours(tag, r, calls, bufs, k=6):
    """calls over byte registers: a buffer that differs in one octet, is one octet shorter or longer, or is cut in two elsewhere; the first again after each.
    bufs: name -> contents; calls: functions of a mapping from names to registers"""
    p = Prog('%s-neighbours-%d' % (tag, r.getrandbits(24))); W = lambda reg, b: p('by.raw %s %s' % (reg, b.hex() or '-')); sets = []
    for x, b in bufs.items():
        W(x, b); n = len(b); at = sorted(r.sample(range(n), min(n, k)) + [0, n - 1]) if n else []
        nb = [b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:] for i in sorted(set(at))] + [b[:-1], b + b'\0', b[1:], b'\0' + b]
        for i, c in enumerate(nb): W('%s%d' % (x, i), c); sets.append({x: '%s%d' % (x, i)})
    ks = list(bufs)
    if len(ks) > 1: a, b = ks[:2]; c = bufs[a] + bufs[b]; j = len(bufs[a]); W('cl', c[:j - 1]); W('cr', c[j - 1:]); sets += [{a: 'cl', b: 'cr'}, {a: b, b: a}]
    for f in calls:
        for s in sets: p(f({x: s.get(x, x) for x in ks})); p(f({x: x for x in ks}))
    return [p]
