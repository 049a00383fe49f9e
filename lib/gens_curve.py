"""Generators for the groups, their encodings and the subgroup tests."""
from gens import *
HEX = lambda b: bytes(b).hex() or '-'

class Pool:
    """points of one curve: classes gen (subgroup, with discrete logarithm), curve, tors, mixed, inf"""
    def __init__(s, E, r, n=14):
        s.E, s.r = E, r
        s.G = E.G
        ks = [1, 2, 3, Q - 1, Q - 2] + [r.randrange(1, Q) for _ in range(4)]
        s.sub = [(k, E.mul(E.G, k)) for k in ks]
        while len(s.sub) < n:
            (a, p), (b, q) = r.choice(s.sub), r.choice(s.sub)
            if (a + b) % Q: s.sub.append(((a + b) % Q, E.add(p, q)))
        s.curve = [E.rand_curve(r) for _ in range(4)]
        for x in range(0, 60):
            p = E.lift(x if E is E1 else (x, 0))
            if p is not None: s.curve += [p, E.neg(p)]
            if len(s.curve) > 12: break
        # coordinates with empty words, as stored and as written
        for i in range(6):
            while True:
                x = words(r, i); x = r.choice([x, x * RINV % P]); p = E.lift(x if E is E1 else (x, r.choice([0, words(r, i) * RINV % P])))
                if p is not None: s.curve.append(p); break
        # points of the twist whose y is real, imaginary, whose x is imaginary
        if E is E2:
            s.axis = [((a, 0xc2b2b8487f8e8d648e4f7905c0943b14474f62dd4726f98e902923c7fa2518eab1519d0cd9eef39aad762206d086ced), y) for a, y in
                      ((0x9f1477ff0430ca4808b4b98f3ce959fcb5be667df6ef1073e182a4f887fa0f0b7fdd6105d99e027bba24c6b4e932032, (3, 0)),
                       (0x100fca6a493cd9f5ca905c1d4f7d1737991b651d141621b82918a8516e31553366ae29ee53ba1fd7fe5cb394b16c8a79, (0, 1)))]
            for x in range(1, 40):
                p = E.lift((0, x))
                if p is not None: s.axis.append(p); break
            assert all(E.on(p) for p in s.axis) if hasattr(E, 'on') else True
            s.curve += s.axis + [E.neg(p) for p in s.axis]
        s.tors = []
        for l in (COF1 if E is E1 else COF2):
            t = E.torsion(l, r)
            if t is not None: s.tors.append((l, t)); s.tors.append((l, E.neg(t)))
        # a point of the full cofactor order
        s.tors.append((0, E.mul(E.rand_curve(r), Q)))
        # eigenvectors of the endomorphism where a torsion group has rank 2, the large prime of the cofactor alone, all but it
        s.eig = eigen(E, r); s.tors += [(l, t) for l, t in s.eig]
        s.mixed = [E.add(r.choice(s.sub)[1], t) for l, t in s.tors]
    def any(s, inf=.1):
        r = s.r; c = r.random()
        if c < inf: return None
        if c < .5: return r.choice(s.sub)[1]
        if c < .65: return r.choice(s.curve)
        if c < .8: return r.choice(s.tors)[1]
        if c < .95: return r.choice(s.mixed)
        return s.E.add(r.choice(s.curve), r.choice(s.sub)[1])
    def zmode(s):
        r, F = s.r, s.E.F; c = r.random()
        if c < .3: return 'affine'
        if c < .7: return 'jac'
        if c < .82: w = lambda: words(r, r.randrange(6)) * r.choice([1, RINV]) % P; return r.choice([(w(), w()), (w(), 0), (0, w())]) if F is F2 else w()
        if c < .87 and F is F2: k = r.choice([1, P - 1, 2, r.randrange(1, P)]); return r.choice([(1, k), (k, 1), (P - 1, k)])
        return r.choice([F.neg(F.one), F.add(F.one, F.one), F.rand(r)] + ([(0, 1), (0, r.randrange(1, P)), (r.randrange(1, P), 0)] if F is F2 else [P - 2]))
    def ld(s, reg, p, zm=None):
        if p is None: return s.E.load(reg, None, s.r, s.r.choice(['zero', 'zzz', 'junk']))
        if zm is None and s.r.random() < .15: zm = relz(s.E, s.r, p)
        return s.E.load(reg, p, s.r, zm or s.zmode())
    def off(s, reg):
        """a triple that is not on the curve"""
        F, r = s.E.F, s.r
        while True:
            p = s.any(0); c = r.randrange(4)
            q = (F.add(p[0], F.one), p[1]) if c == 0 else (p[0], F.add(p[1], F.one)) if c == 1 else (F.rand(r), F.rand(r)) if c == 2 else (p[1], p[0])
            if F.mul(q[1], q[1]) != F.add(F.mul(F.mul(q[0], q[0]), q[0]), F.B if E_is1(s.E) else (4, 4)): return s.E.load(reg, q, r, s.zmode())
def relzs(E, p):
    """all z for which two coordinates of the triple agree up to sign, or one of them is 1 or -1"""
    F = E.F; x, y = p; out = []
    if x == F.zero or y == F.zero: return out
    def pm(v): out.append(v); out.append(F.neg(v))
    pm(F.inv(x)); pm(F.mul(x, F.inv(y)))                        # X = Z, X = Y
    for v in (F.inv(y), F.neg(F.inv(y)), F.inv(x), F.neg(F.inv(x))):        # Y = Z, X = 1
        t = F.sqrt(v)
        if t is not None and F.mul(t, t) == v: pm(t)
    return out
def relz(E, r, p): return r.choice(relzs(E, p) or [None])
def relations(E, r, ops, quick):
    """the triples of a few points in which two coordinates are related, through operations on one point"""
    k, pl = E.name, pool(E, r); out = []
    for pt in [pl.G, r.choice(pl.sub)[1], r.choice(pl.tors)[1], r.choice(pl.mixed), r.choice(pl.curve)] + ([pl.any(0) for _ in range(20)] if not quick else []):
        p = Prog('%s-related-%d' % (k, r.getrandbits(24)))
        for z in relzs(E, pt):
            p(ldz(E, r, 'a', pt, z)); p(ldz(E, r, 'b', pt, r.choice(['affine', 'jac'])))
            for o in ops:
                if o in ('onCurve', 'inSub', 'isZero', 'isAffine'): p('%s.%s - %%a' % (k, o))
                elif o in ('add', 'sub'): p('%s.%s c %%a %%b' % (k, o)); p('%s.%s c %%b %%a' % (k, o)); p('%s.%s c %%a %%a' % (k, o))
                elif o == 'equal': p('%s.equal - %%a %%b' % k); p('%s.neg c %%a' % k); p('%s.equal - %%c %%b' % k)
                elif o == 'scale': p('%s.scale c %%a %s' % (k, sch(r.getrandbits(r.choice([1, 5, 130])), r.choice([3, 4])))); p('sc.raw s ' + sch(r.randrange(Q), 4)); p('%s.scaleS c %%a %%s' % k)
                elif o == 'enc':
                    p('%s.toC c %%a' % k)
                    for enc in ('toABE', 'toALE', 'toJBE', 'toJLE'): p('%s.%s e %%a %s' % (k, enc, r.choice('10')))
                else: o, *m = o.split(); p('%s.%s c %%a%s' % (k, o, ''.join(' ' + x for x in m)))
        out.append(p)
    return out + neighbours(E, r, ops, quick)
def neighbours(E, r, ops, quick):
    """one operation at a time: a point, a triple that shares most of its coordinates, the point again"""
    k, pl, F = E.name, pool(E, r), E.F; out = []; n = 3 if F is F1 else 6
    two = [o for o in ops if o in ('add', 'sub', 'equal')]; one = [o for o in ops if o not in two]
    for pt in [r.choice(pl.sub)[1], r.choice([r.choice(pl.tors)[1], r.choice(pl.mixed), r.choice(pl.curve)])] + ([pl.any(0) for _ in range(12)] if not quick else []):
        p = Prog('%s-neighbours-%d' % (k, r.getrandbits(24))); z = F.rand(r); zz = F.mul(z, z); T = [F.mul(pt[0], zz), F.mul(pt[1], F.mul(zz, z)), z]
        om = pow(2, (P - 1) // 3, P); sm = lambda s, c: (c * s) % P if F is F1 else mul2(c, (s, 0)); x, y, z = T
        raw = lambda reg, t: p('%s.raw %s %s' % (k, reg, ' '.join(sum((F.raw(c) for c in t), []))))
        raw('a', T); p(ldz(E, r, 'b', r.choice(pl.sub)[1], 'jac')); nb = []
        for i in range(n): p('%s.bump n%d %%a %d' % (k, i, i)); nb.append('n%d' % i)
        for t in [(x, F.neg(y), z), (sm(om, x), y, z), (x, y, F.neg(z)), (x, y, sm(om, z)), (x, y, F.zero), (x, y, F.one), (F.zero, y, z), (x, F.zero, z), (y, x, z)] + ([tuple((c[0], -c[1] % P) for c in T)] if F is F2 else []): nb.append('t%d' % len(nb)); raw(nb[-1], t)
        p(ldz(E, r, 'u', pt, 'jac')); p(pl.ld('v', None)); p(pl.ld('w', pl.any(0))); nb += ['u', 'v', 'w']
        for o in one:
            if o == 'enc':
                for e, m in (('toC', ''), ('toABE', ' 1'), ('toALE', ' 0'), ('toJBE', ' 0'), ('toJLE', ' 1')): near(lambda l: p('%s.%s c %%%s%s' % (k, e, l[0], m)), ['a'], [(0, x) for x in nb])
            elif o == 'scale': v = sch(r.getrandbits(130), 3); p('sc.raw s ' + sch(r.randrange(Q), 4)); near(lambda l: p('%s.scale c %%%s %s' % (k, l[0], v)), ['a'], [(0, x) for x in nb]); near(lambda l: p('%s.scaleS c %%%s %%s' % (k, l[0])), ['a'], [(0, x) for x in nb])
            else: f, *m = o.split(); near(lambda l: p('%s.%s %s %%%s%s' % (k, f, '-' if f in ('onCurve', 'inSub', 'isZero', 'isAffine') else 'c', l[0], ''.join(' ' + x for x in m))), ['a'], [(0, x) for x in nb])
        for o in two: near(lambda l: p('%s.%s %s %%%s %%%s' % (k, o, '-' if o == 'equal' else 'c', l[0], l[1])), ['a', 'b'], [(0, x) for x in nb] + [(1, x) for x in nb])
        if 'equal' in two: near(lambda l: p('%s.equal - %%%s %%%s' % (k, l[0], l[1])), ['a', 'u'], [(0, x) for x in nb] + [(1, x) for x in nb])
        out.append(p)
    return out
def E_is1(E): return E is E1
BETA = pow(2, (P - 1) // 3, P)
PSX, PSY = pow2(inv2((1, 1)), (P - 1) // 3), pow2(inv2((1, 1)), (P - 1) // 2)
def endo(E, p):
    if p is None: return None
    if E is E1: return (BETA * p[0] % P, p[1])
    return (mul2((p[0][0], -p[0][1] % P), PSX), mul2((p[1][0], -p[1][1] % P), PSY))
BIGL = H2 // (13 * 13 * 23 * 23 * 2713 * 11953 * 262069)
def eigen(E, r):
    out = []
    for l in (10177, 859267) if E is E1 else (13, 23):
        a, b = (1, 1) if E is E1 else (X - 1, P)         # f^2 + a f + b = 0
        for m in range(l):
            if (m * m + a * m + b) % l == 0:
                for _ in range(9):
                    t = E.torsion(l, r); e = E.add(endo(E, t), E.mul(t, -((-a - m) % l)))         # (f - other root) t
                    if e is not None: assert endo(E, e) == E.mul(e, m); out.append((l, e)); break
    if E is E2: out += [(0, E.mul(E.rand_curve(r), Q * (H2 // BIGL))), (0, E.mul(E.rand_curve(r), Q * BIGL))]
    else: out += [(0, E.mul(E.rand_curve(r), Q * 3)), (0, E.mul(E.rand_curve(r), Q * 11 * 11 * 10177))]
    return out
POOLS = {}
def pool(E, r):
    if E.name not in POOLS: POOLS[E.name] = Pool(E, random.Random(r.getrandbits(64)))
    POOLS[E.name].r = r
    return POOLS[E.name]

def scalar(r, bits=256):
    c = r.random()
    if c < .2: v = r.choice([0, 1, 2, 3, Q - 1, Q, Q + 1, Q - 2, X, X + 1, X * X, X * X - 1, Q >> 1, 2 * Q, 2 * Q - 1, 2 * Q + 1, (1 << 256) - 1, 1 << 255, (1 << 255) - 1, H1, H2])
    elif c < .35: v = 1 << r.randrange(bits)
    elif c < .5: v = r.getrandbits(r.randrange(1, bits + 1))
    elif c < .6: v = sum(r.choice([0, M64, 1, 1 << 63]) << (64 * i) for i in range(bits // 64))
    elif c < .8: v = r.randrange(Q)
    else: v = r.getrandbits(bits)
    return v % (1 << bits)

# ---- group law ------------------------------------------------------------------
def group_program(E, r, n, regs=7):
    k, pl = E.name, pool(E, r)
    p = Prog('%s-%d' % (k, r.getrandbits(32))); R_ = ['%s%d' % (k, i) for i in range(regs)]
    for x in R_: p(pl.ld(x, pl.any()))
    for _ in range(n):
        d, a, b = (r.choice(R_) for _ in range(3)); c = r.random()
        if c < .25: p('%s.%s %s %%%s %%%s' % (k, r.choice(['add', 'sub', 'add']), d, a, b))
        elif c < .4: p('%s.%sA %s %%%s %%%s' % (k, r.choice(['add', 'sub']), a, a, r.choice([a, b, b])))
        elif c < .52: p('%s.dbl %s %%%s' % (k, d, a))
        elif c < .56: p('%s.dblA %s %%%s' % (k, a, a))
        elif c < .66: p('%s.neg %s %%%s' % (k, d, a))
        elif c < .72: p('%s.affine %s %%%s' % (k, d, a))
        elif c < .8: p('%s.%s - %%%s' % (k, r.choice(['isZero', 'isAffine', 'onCurve']), a))
        elif c < .86: p('%s.equal - %%%s %%%s' % (k, a, b))
        elif c < .88: p('%s.%s %s' % (k, r.choice(['zero', 'one', 'base']), d))
        elif c < .9: p('%s.copy %s %%%s' % (k, d, a))
        elif c < .92: p('%s.scale %s %%%s %s' % (k, d, a, sch(r.getrandbits(r.choice([1, 2, 5, 12])), r.choice([1, 2, 4, 5, 6]))))
        elif c < .93: p('%s.ordset - %%%s %%%s %%%s' % (k, a, b, r.choice(R_)))
        else: p(pl.ld(d, pl.any()))
    return p
def group_edges(E, r):
    """the exceptional cases of the addition formulas, in every representation"""
    k, pl, F = E.name, pool(E, r), E.F
    out = []
    def P0(tag): q = Prog('%s-%s-%d' % (k, tag, r.getrandbits(24))); out.append(q); return q
    pts = [r.choice(pl.sub)[1], r.choice(pl.curve), r.choice(pl.tors)[1], r.choice(pl.mixed), pl.G]
    three = [t for l, t in pl.tors if l == 3]
    if three: pts.append(three[0])
    if E is E2: pts += pl.axis
    for a in pts:
        p = P0('exc')
        na = E.neg(a); aa = E.add(a, a); b = pl.any(0)
        forms = lambda reg, q: p(pl.ld(reg, q, r.choice(['affine', 'jac', pl.zmode()])))
        for zi in ('zero', 'zzz', 'junk'):
            p(E.load('o', None, r, zi)); p(E.load('o2', None, r, r.choice(['zero', 'zzz', 'junk'])))
            forms('a', a); forms('a2', a); forms('na', na); forms('d', aa); forms('b', b)
            for x, y in (('a', 'o'), ('o', 'a'), ('o', 'o'), ('o', 'o2'), ('a', 'a2'), ('a', 'na'), ('na', 'a'), ('a', 'a'), ('d', 'a'), ('d', 'na'), ('a', 'b'), ('b', 'a')):
                for o in ('add', 'sub'): p('%s.%s t %%%s %%%s' % (k, o, x, y)); p('%s.isZero - %%t' % k)
                p('%s.equal - %%%s %%%s' % (k, x, y))
                p('%s.copy t %%%s' % (k, x)); p('%s.%s t %%t %%%s' % (k, r.choice(['addA', 'subA']), y))
            for x in ('o', 'a', 'na', 'd'):
                for o in ('dbl', 'neg', 'affine'): p('%s.%s t %%%s' % (k, o, x))
                for o in ('isZero', 'isAffine', 'onCurve'): p('%s.%s - %%%s' % (k, o, x))
        # two triples agreeing in one projective coordinate only
        w = F.rand(r)
        p(E.load('a', a, r, w)); p(E.load('b', b, r, w)); p('%s.add t %%a %%b' % k); p('%s.equal - %%a %%b' % k)
        p(E.load('b', na, r, w)); p('%s.equal - %%a %%b' % k); p('%s.add t %%a %%b' % k)
        # the same x with the other cube root:  (w x, y) is on the curve too
        om = pow(2, (P - 1) // 3, P)
        gx = (a[0] * om % P, a[1]) if F is F1 else (mul2(a[0], (om, 0)), a[1])
        p(pl.ld('g', gx)); p('%s.add t %%a %%g' % k); p('%s.sub t %%a %%g' % k); p('%s.equal - %%a %%g' % k)
    p = P0('off')
    for i in range(12):
        p(pl.off('x')); p('%s.onCurve - %%x' % k); p('%s.isZero - %%x' % k); p('%s.neg t %%x' % k); p('%s.affine t %%x' % k); p('%s.equal - %%x %%x' % k)
        p(pl.off('y')); p('%s.equal - %%x %%y' % k)
    # triples that differ in a single coordinate, in one of its components
    p = P0('near')
    for a in pts[:3] + [r.choice(pl.curve)]:
        for w in (F.one, F.rand(r)):
            p(E.load('a', a, r, w))
            for i in range(2):
                for j in range(2 if F is F2 else 1):
                    for dl in (1, a[i][j] * (P - 2) if F is F2 else a[i] * (P - 2)):
                        b = list(a)
                        if F is F2: v = list(a[i]); v[j] = (v[j] + dl) % P; b[i] = tuple(v)
                        else: b[i] = (a[i] + dl) % P
                        p(E.load('b', tuple(b), r, w)); p('%s.equal - %%a %%b' % k); p('%s.equal - %%b %%a' % k); p('%s.onCurve - %%b' % k)
                        p(E.load('b', tuple(b), r, F.rand(r))); p('%s.equal - %%a %%b' % k); p('%s.isAffine - %%b' % k)
    return out

# ---- subgroup membership
def member_programs(E, r, n, per=6):
    k, pl = E.name, pool(E, r); out = []
    cand = [(t[1]) for t in pl.tors] + pl.mixed + [None, None] + [s[1] for s in pl.sub[:8]] + pl.curve
    # subgroup point plus every torsion class, differences, multiples
    for l, t in pl.tors: cand += [E.add(pl.r.choice(pl.sub)[1], t), E.mul(t, 2), E.add(t, r.choice(pl.tors)[1])]
    cand += [pl.any() for _ in range(n)]
    for i in range(0, len(cand), per):
        p = Prog('%s-member-%d' % (k, i))
        for q in cand[i:i + per]:
            p(pl.ld('a', q)); p('%s.inSub - %%a' % k); p('%s.onCurve - %%a' % k)
        out.append(p)
    p = Prog('%s-clear' % k)
    for q in [r.choice(pl.tors)[1], r.choice(pl.mixed), r.choice(pl.curve), r.choice(pl.sub)[1], None] + [pl.any() for _ in range(3)]:
        p(pl.ld('a', q)); p('%s.clear c %%a' % k); p('%s.inSub - %%c' % k)
    out.append(p)
    p = Prog('%s-off' % k)
    for i in range(20): p(pl.off('a')); p('%s.onCurve - %%a' % k)
    out.append(p)
    return out

def c12(tier, r):
    q = tier == 'quick'
    ps = [group_program(E1, r, 150) for _ in range(60 if q else 700)]
    for _ in range(1 if q else 10): ps += group_edges(E1, r)
    pl = pool(E1, r)
    p = Prog('glv')
    for i in range(30): p(pl.ld('a', pl.any())); p('g1.glv b %a')
    return ps + [p]
def c13(tier, r):
    q = tier == 'quick'
    ps = [group_program(E2, r, 120) for _ in range(40 if q else 500)]
    for _ in range(1 if q else 8): ps += group_edges(E2, r)
    pl = pool(E2, r)
    for _ in range(4 if q else 20):
        p = Prog('psi-%d' % r.getrandbits(24))
        for i in range(12):
            p(pl.ld('a', pl.any())); p('g2.psi b %a'); p('g2.frob c %%a %d' % r.choice([0, 1, 2, 3, 5, 12, 13])); p('g2.psi b %b'); p('g2.equal - %b %c')
        ps.append(p)
    p = Prog('clear2')
    for i in range(16 if q else 120): p(pl.ld('a', pl.any())); p('g2.clear b %a'); p('g2.onCurve - %b')
    return ps + [p]
def c05(tier, r):
    n = 60 if tier == 'quick' else 600
    ps = member_programs(E1, r, n) + member_programs(E2, r, n)
    return ps

# ---- scalar multiplication and multi-scalar multiplication
def wsum_line(p, E, r, npts, nsc, pl, bits=256, small=False, yieldm=None):
    k = E.name
    ps = ['p%d' % i for i in range(npts)]; ss = ['s%d' % i for i in range(nsc)]
    for i, x in enumerate(ps):
        if i < 12 or not small: p(pl.ld(x, pl.any()))
        else: p('%s.copy %s %%%s' % (k, x, r.choice(ps[:12])))
    for x in ss: p('sc.raw %s %s' % (x, sch(scalar(r) if not small or r.random() < .02 else r.getrandbits(r.choice([0, 3, 5, 7, 9])), 4)))
    p('%s.wsum w %s %d %d' % (k, ' '.join('%' + x for x in ps + ss), r.randrange(2) if yieldm is None else yieldm, npts))
def c14(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        k, pl = E.name, pool(E, r)
        for _ in range((10 if E is E1 else 6) * (1 if q else 8)):
            p = Prog('%s-scale-%d' % (k, r.getrandbits(24)))
            for i in range(8):
                p(pl.ld('a', pl.any(.05))); w = r.choice([1, 2, 4, 4, 5, 6]); p('%s.scale b %%a %s' % (k, sch(scalar(r, 64 * w), w)))
                if r.random() < .3: p('sc.raw s ' + sch(scalar(r), 4)); p('%s.scaleS c %%b %%s' % k)
            out.append(p)
        # orders: l*T = 0, q*P = 0, (q+1)*P = P
        p = Prog('%s-orders' % k)
        for l, t in pl.tors[:6]:
            if l: p(pl.ld('a', t)); p('%s.scale b %%a %s' % (k, sch(l, 1))); p('%s.scale b %%a %s' % (k, sch(l + 1, 1))); p('%s.equal - %%a %%b' % k)
        for kk, s in pl.sub[:3]:
            p(pl.ld('a', s))
            for v in (Q, Q + 1, Q - 1, 0, 2 * Q): p('%s.scale b %%a %s' % (k, sch(v, 4)))
        out.append(p)
        sizes = [(0, 0), (1, 0), (0, 2), (1, 1), (2, 2), (3, 5), (5, 3), (7, 7), (31, 31)] + ([] if E is E2 and q else [(32, 32), (33, 32)])
        for a, b in sizes:
            p = Prog('%s-wsum-%d-%d' % (k, a, b)); wsum_line(p, E, r, a, b, pl); out.append(p)
        # window boundaries: one point, scalars with a single window set
        p = Prog('%s-windows' % k)
        for v in [1 << i for i in range(0, 256, 17)] + [7 << 253, 1 << 255, (1 << 256) - 1, 15 << 252]:
            p(pl.ld('a', r.choice(pl.sub)[1])); p('sc.raw s ' + sch(v % (1 << 256), 4)); p('%s.wsum w %%a %%s %d' % (k, r.randrange(2)))
        out.append(p)
        for n in ([32, 64, 256, 300] if q else [32, 63, 64, 65, 127, 128, 255, 256, 257, 500, 1023, 2048, 2100]):
            p = Prog('%s-wsum-sparse-%d' % (k, n)); wsum_line(p, E, r, n, n, pl, small=True); out.append(p)
        # repeated points, opposite points, identity in the sum
        for _ in range(2 if q else 20):
            p = Prog('%s-wsum-rep-%d' % (k, r.getrandbits(24))); n = r.randrange(2, 9); a = pl.any(0)
            for i in range(n): p(pl.ld('p%d' % i, r.choice([a, a, E.neg(a), None, pl.any()])))
            sv = scalar(r)
            for i in range(n): p('sc.raw s%d %s' % (i, sch(r.choice([sv, sv, scalar(r), (Q - sv) % Q]), 4)))
            p('%s.wsum w %s %d' % (k, ' '.join(['%%p%d' % i for i in range(n)] + ['%%s%d' % i for i in range(n)]), r.randrange(2)))
            out.append(p)
    return out

# ---- encodings
def be(v, n=48): return v.to_bytes(n, 'big')
def le(v, n=48): return v.to_bytes(n, 'little')
def by(p, reg, b): p('by.raw %s %s' % (reg, HEX(b)))
def coords(v, E): return [v] if E is E1 else [v[0], v[1]]
def compress(E, pt):
    if pt is None: return bytes([0xc0]) + bytes(47 if E is E1 else 95)
    if E is E1: b = bytearray(be(pt[0])); big = pt[1] > (P - 1) // 2
    else: b = bytearray(be(pt[0][1]) + be(pt[0][0])); big = pt[1][1] > (P - 1) // 2 if pt[1][1] else pt[1][0] > (P - 1) // 2
    b[0] |= 0x80 | (0x20 if big else 0)
    return bytes(b)
def c06(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        k, pl, F = E.name, pool(E, r), E.F; n = 48 if E is E1 else 96
        pr = lambda t: out.append(Prog('%s-%s-%d' % (k, t, r.getrandbits(24)))) or out[-1]
        # round trips in every representation
        for _ in range(10 if q else 80):
            p = pr('roundtrip')
            for i in range(8):
                p(pl.ld('a', pl.any(.15))); p('%s.toC c %%a' % k); p('%s.fromC b %%c' % k); p('%s.equal - %%a %%b' % k); p('%s.toCs - %%b' % k)
                for enc, dec in (('toABE', 'fromABE'), ('toALE', 'fromALE'), ('toJBE', 'fromJBE'), ('toJLE', 'fromJLE')):
                    m = r.choice('11110'); cm = r.choice('01')
                    p('%s.%s%s e %%a %s' % (k, enc, r.choice(['', 's']), m)); p('%s.%s b %%e %s%s' % (k, dec, cm, m)); p('%s.equal - %%a %%b' % k)
                    if m == '1': p('%s.%sd b %%e' % (k, dec))
        # compressed: flags, unreduced x, x without a point, both signs
        for _ in range(10 if q else 80):
            p = pr('compressed')
            for i in range(24):
                c = r.random(); pt = pl.any(0)
                b = bytearray(compress(E, pt))
                if c < .2: b[0] ^= r.choice([0x20, 0x40, 0x80, 0x60, 0xa0, 0xc0, 0xe0])
                elif c < .3: b[0] ^= 0x20
                elif c < .5:     # x + p when it fits below 2^381
                    if E is E1: xs = [pt[0] + P]
                    else: xs = [pt[0][1] + r.choice([0, P]), pt[0][0] + r.choice([0, P, P])]
                    if xs[0] < 1 << 381: b = bytearray(b''.join(map(be, xs))); b[0] |= 0x80 | r.choice([0, 0x20])
                elif c < .6:
                    xs = [r.choice([P, P - 1, P + 1, (1 << 381) - 1, 0, 1, 2, r.randrange(P), r.getrandbits(381)]) for _ in coords(pt[0], E)]
                    if len(xs) == 2 and r.random() < .5: xs[1] = r.choice([(1 << 384) - 1, P << 1, xs[1], P])
                    b = bytearray(b''.join(map(be, xs))); b[0] |= 0x80 | r.choice([0, 0x20])
                elif c < .75:    # the identity and its lookalikes
                    b = bytearray(compress(E, None)); d = r.randrange(6)
                    if d == 0: b[0] |= 0x20
                    if d == 1: b[r.randrange(1, n)] = r.randrange(1, 256)
                    if d == 2: b[0] |= r.randrange(1, 32)
                    if d == 3: b[0] = r.choice([0x40, 0x80, 0xa0, 0, 0xe0])
                    if d == 4: b[n - 1] = 1
                elif c < .85: b = bytearray(r.getrandbits(8) for _ in range(n)); b[0] = b[0] & 0x1f | r.choice([0x80, 0xa0])
                elif c < .9: b[r.randrange(n)] ^= 1 << r.randrange(8)
                by(p, 'c', b); p('%s.fromC b %%c' % k)
        for x in range(6 if q else 40):        # small x, both signs
            p = pr('small-x')
            for s in (0x80, 0xa0):
                for xv in ([x], [P - 1 - x]) if E is E1 else ([0, x], [x, 0], [x, P - 1], [P - 1, x]):
                    b = bytearray(b''.join(map(be, xv))); b[0] |= s; by(p, 'c', b); p('%s.fromC b %%c' % k)
        # uncompressed: validity flags, unreduced coordinates, off-curve points, zeros
        for _ in range(10 if q else 80):
            p = pr('uncompressed')
            for i in range(16):
                pt = pl.any(0); c = r.random(); jac = r.random() < .5; big = r.random() < .6
                z = F.one if r.random() < .4 else F.rand(r)
                if jac:
                    z2 = F.mul(z, z); cs = coords(F.mul(pt[0], z2), E) + coords(F.mul(pt[1], F.mul(z2, z)), E) + coords(z, E)
                else: cs = coords(pt[0], E) + coords(pt[1], E)
                if c < .25: cs[r.randrange(len(cs))] += P
                elif c < .4: cs[r.randrange(len(cs))] = r.choice([P, P + 1, P - 1, 0, 1, (1 << 384) - 1, r.randrange(P)])
                elif c < .5: cs = [0] * len(cs)
                elif c < .6 and jac: cs[-1] = 0; cs[len(cs) * 2 // 3] = 0
                elif c < .65: cs = [0] * len(cs); cs[r.randrange(len(cs))] = 1
                # the big-endian form is the reverse of the little-endian one, coordinate by coordinate
                w = 1 if E is E1 else 2
                parts = [cs[j:j + w] for j in range(0, len(cs), w)]
                b = b''.join(b''.join(map(be, reversed(t))) if big else b''.join(map(le, t)) for t in parts)
                o = 'from%s%sE' % ('J' if jac else 'A', 'B' if big else 'L')
                by(p, 'c', b); fl = r.choice(['01', '11', '11', '10', '00', 'd'])
                if fl == 'd': p('%s.%sd b %%c' % (k, o))
                else: p('%s.%s b %%c %s' % (k, o, fl))
        # encodings of the identity in all representations
        p = pr('identity')
        for zi in ('zero', 'zzz', 'junk', 'junk'):
            p(E.load('a', None, r, zi))
            for o in ('toC', 'toCs'): p('%s.%s - %%a' % (k, o))
            for o in ('toABE', 'toALE', 'toJBE', 'toJLE'): p('%s.%s - %%a 1' % (k, o)); p('%s.%ss - %%a 0' % (k, o))
        for a in (pl.G, r.choice(pl.sub)[1]):
            p(pl.ld('a', a)); p(pl.ld('b', E.neg(a))); p('%s.add c %%a %%b' % k); p('%s.toC - %%c' % k); p('%s.toABE - %%c 1' % k)
            p('%s.scale c %%a %s' % (k, sch(Q, 4))); p('%s.toC - %%c' % k)
    return out

def c07(tier, r):
    q = tier == 'quick'; out = []
    for k, nc in (('fp', 1), ('fp2', 2), ('fp6', 6), ('fp12', 12)):
        for _ in range((12 if nc < 6 else 6) * (1 if q else 10)):
            p = Prog('%s-codec-%d' % (k, r.getrandbits(24)))
            for i in range(20):
                p(load(k, 'a', r)); m = r.choice('110'); o = r.choice(['BE', 'LE'])
                p('%s.to%s%s b %%a %s' % (k, o, r.choice(['', 's']), m)); p('%s.from%s c %%b %s%s' % (k, o, r.choice('01'), m)); p('%s.equal - %%a %%c' % k)
                if m == '1': p('%s.from%sd c %%b' % (k, o))
                cs = [r.choice([P - 1, P, P + 1, 0, 1, (1 << 384) - 1, 2 * P, r.getrandbits(384)]) if r.random() < (.6 if nc == 1 else .8 / nc) else r.randrange(P) for _ in range(nc)]
                for o2, e in (('BE', be), ('LE', le)):
                    b = b''.join(map(e, reversed(cs) if o2 == 'BE' else cs)); by(p, 'b', b)
                    fl = r.choice(['11', '11', '10', '01', '00', 'd'])
                    p('%s.from%s d %%b %s' % (k, o2, fl) if fl != 'd' else '%s.from%sd d %%b' % (k, o2))
                # one coefficient different from zero shows the order of the tower
                b = bytearray(48 * nc); b[48 * r.randrange(nc) + r.randrange(1, 48)] = r.randrange(1, 256); by(p, 'b', b); p('%s.from%s e %%b 11' % (k, r.choice(['BE', 'LE'])))
            out.append(p)
    return out

# ---- structured enumerations over the groups ---------------------------------------------------------------------
def classes_of(E, r):
    """one representative of every kind of point: (name, point)"""
    pl = pool(E, r); F = E.F; out = [('inf', None), ('gen', E.G), ('neg', E.neg(E.G)), ('two', E.add(E.G, E.G)), ('sub', r.choice(pl.sub)[1])]
    out += [('curve%d' % i, p) for i, p in enumerate(pl.curve[:8])] + [('tors%d' % l, t) for l, t in pl.tors[::2]] + [('mixed%d' % i, t) for i, t in enumerate(pl.mixed[::3])]
    out += special_points(E, r)
    return out
SPECIAL = {}
def special_points(E, r):
    """points whose coordinates are extreme: tiny, close to p, in the base field, purely imaginary, y around (p-1)/2"""
    if E.name in SPECIAL: return SPECIAL[E.name]
    out = []; F = E.F
    H = (P - 1) // 2
    def root3(v):
        """a cube root in Fp (p = 1 mod 3: only for cubic residues)"""
        # p - 1 = 3^k m
        m, k = P - 1, 0
        while m % 3 == 0: m //= 3; k += 1
        if pow(v, (P - 1) // 3, P) != 1: return None
        e = pow(3, -1, m); x = pow(v, e, P); g = 2
        while pow(g, (P - 1) // 3, P) == 1: g += 1
        g = pow(g, m, P)
        for _ in range(3 ** k):
            if pow(x, 3, P) == v % P: return x
            x = x * g % P
    if E is E1:
        for v in list(range(0, 40)) + [P - i for i in range(1, 40)] + [RINV * i % P for i in range(1, 30)] + [1 << 64 * i for i in range(1, 6)] + [1 << 380, H, H + 1]:
            p = E.lift(v)
            if p is not None: out += [('x', p), ('x', E.neg(p))]
        n = 0
        for d in list(range(0, 60)):
            for y in (H - d, H + 1 + d, d, P - d):
                y %= P; x = root3((y * y - 4) % P)
                if x is not None: out.append(('y', (x, y)))
        # Montgomery form of y small or close to p, or around (p-1)/2
        for d in range(1, 40):
            for t in (d, P - d, H - d, H + d):
                y = t * RINV % P; x = root3((y * y - 4) % P)
                if x is not None: out.append(('ym', (x, y)))
    else:
        small = [0, 1, 2, 3, P - 1, P - 2, H, H + 1, RINV, 5, 6, 7]
        for a in small:
            for b in small:
                p = E.lift((a, b))
                if p is not None and mul2(p[1], p[1]) == add2(mul2(mul2(p[0], p[0]), p[0]), (4, 4)): out += [('x', p), ('x', E.neg(p))]
        rr = random.Random(5)
        # y in the base field or purely imaginary: y^2 - 4 - 4u is a cube
        def cbrt2(v):
            n = P * P - 1; k = 0; m = n
            while m % 3 == 0: m //= 3; k += 1
            if pow2(v, n // 3) != (1, 0): return None
            e = pow(3, -1, m); x = pow2(v, e); g = (1, 1)
            while pow2(g, n // 3) == (1, 0): g = (rr.randrange(P), rr.randrange(P))
            g = pow2(g, m)
            for _ in range(3 ** k):
                if mul2(mul2(x, x), x) == v: return x
                x = mul2(x, g)
        for y in [(1, 0), (2, 0), (3, 0), (H, 0), (H + 1, 0), (P - 1, 0), (0, 1), (0, 2), (0, H), (0, H + 1), (0, P - 1), (5, 0), (7, 0), (0, 5), (0, 7), (H, H), (1, H), (1, H + 1), (H, H + 1)] + [(d, H) for d in range(2, 10)] + [(H + d, 0) for d in range(2, 10)] + [(0, H + d) for d in range(2, 10)] + [(RINV * d % P, 0) for d in range(1, 8)] + [(0, RINV * d % P) for d in range(1, 8)]:
            x = cbrt2(sub2(mul2(y, y), (4, 4)))
            if x is not None: out += [('y', (x, y)), ('y', (x, neg2(y)))]
    SPECIAL[E.name] = out
    return out
def reps(E, r, pt):
    """the triples a point is given by"""
    F = E.F
    if pt is None: return ['zero', 'zzz', 'junk']
    return ['affine', 'jac', F.neg(F.one), F.add(F.one, F.one)] + ([(0, 1)] if F is F2 else []) + [z for z in (relz(E, r, pt),) if z is not None]
def ldz(E, r, reg, pt, zm): return E.load(reg, pt, r, zm)
SCAL = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, Q - 2, Q - 1, Q, Q + 1, Q + 2, 2 * Q - 1, 2 * Q, 2 * Q + 1, Q >> 1, (Q >> 1) + 1, 1 << 255, (1 << 255) - 1, (1 << 256) - 1, (1 << 256) - 2, X, X - 1, X + 1, X * X, X * X - 1, X * X + 1, (X * X - 1) // 3, X ** 3, H1 % (1 << 256), 1 << 63, 1 << 64, (1 << 64) - 1, (1 << 64) + 1, 1 << 127, 1 << 128, (1 << 128) - 1, 1 << 191, 1 << 192, (1 << 192) - 1, Q - X, Q - X * X, X * X * X * X % (1 << 256)]
def scale_every(E, r, quick):
    """points of every kind by scalars of every shape and width"""
    out = []; k = E.name; cl = classes_of(E, r); base = cl if not quick else cl[:22] + r.sample(cl[22:], 6 if E is E1 else 3)
    for nm, pt in base:
        p = Prog('%s-scale-%s-%d' % (k, nm, r.getrandbits(20))); rp = reps(E, r, pt)
        for v in (SCAL if not quick else r.sample(SCAL, 14 if E is E1 else 8)):
            p(ldz(E, r, 'a', pt, r.choice(rp))); w = r.choice([x for x in (1, 2, 3, 4, 5, 6, 7, 8) if v < 1 << (64 * x)]); p('%s.scale b %%a %s' % (k, sch(v, w)))
            if v < 1 << 256 and r.random() < .6: p('sc.raw s ' + sch(v, 4)); p('%s.scaleS c %%a %%s' % k)
        out.append(p)
    # every single bit, every run of ones, words of all ones
    for w in (1, 2, 3, 4, 5, 6, 7, 8):
        n = 64 * w; bits = list(range(n)) if not quick else sorted(set(r.sample(range(n), min(n, 40 if E is E1 else 14))) | {n - 1, n - 2, 63, 64 % n})
        p = Prog('%s-bits-%d' % (k, w)); pt = r.choice(pool(E, r).sub)[1]; pt2 = pool(E, r).any(0)
        for i in bits:
            p(ldz(E, r, 'a', r.choice([pt, pt2]), r.choice(['affine', 'jac']))); p('%s.scale b %%a %s' % (k, sch(1 << i, w)))
            if r.random() < .4: p('%s.scale b %%a %s' % (k, sch((1 << n) - (1 << i), w)))
            if r.random() < .4: p('%s.scale b %%a %s' % (k, sch((1 << i) - 1, w)))
            if r.random() < .3: p('%s.scale b %%a %s' % (k, sch(sum(r.choice([0, M64, r.getrandbits(64), 1, 1 << 63]) << (64 * j) for j in range(w)), w)))
        out.append(p)
    return out
def law_every(E, r, quick):
    """every ordered pair of kinds of points, in every pair of representations, through all the group operations"""
    out = []; k = E.name; cl = classes_of(E, r); cl = cl[:14] + r.sample(cl[14:], 4 if quick else 24)
    for i, (na, a) in enumerate(cl):
        p = Prog('%s-law-%s-%d' % (k, na, i))
        for nb, b in cl + [('same', a), ('opp', E.neg(a)), ('dbl', E.add(a, a)), ('mdbl', E.neg(E.add(a, a)))]:
            ra, rb = reps(E, r, a), reps(E, r, b)
            for za in ra if not quick else r.sample(ra, 1):
                for zb in rb if not quick else r.sample(rb, 2 if nb in ('same', 'opp', 'dbl') else 1):
                    p(ldz(E, r, 'a', a, za)); p(ldz(E, r, 'b', b, zb))
                    for o in ('add', 'sub'): p('%s.%s t %%a %%b' % (k, o))
                    p('%s.equal - %%a %%b' % k); p('%s.copy t %%a' % k); p('%s.%s t %%t %%b' % (k, r.choice(['addA', 'subA']))); p('%s.isZero - %%t' % k); p('%s.onCurve - %%t' % k)
            if r.random() < .5: p('%s.affine t %%t' % k); p('%s.isAffine - %%t' % k); p('%s.dbl t %%t' % k); p('%s.neg t %%t' % k)
        for za in reps(E, r, a):
            p(ldz(E, r, 'a', a, za)); p('%s.copy t %%a' % k)
            for o in ('dbl', 'neg', 'affine', 'copy'): p('%s.%s b %%a' % (k, o))
            for o in ('addA t %t %t', 'subA t %t %t', 'dblA t %t', 'subA a %a %a', 'addA a %a %a'): p('%s.%s' % (k, o)); p('%s.isZero - %%t' % k)
            for o in ('isZero', 'isAffine', 'onCurve'): p('%s.%s - %%a' % (k, o))
        out.append(p)
    return out
def offcurve_every(E, r, count):
    """triples that are almost a point: a coordinate or an exponent of z off by one"""
    k, F, pl = E.name, E.F, pool(E, r); out = []
    def pw(z, n):
        v = F.one
        for _ in range(n): v = F.mul(v, z)
        return v
    def add1(v, j): return (v + 1) % P if F is F1 else ((v[0] + (j == 0)) % P, (v[1] + (j == 1)) % P)
    for _ in range(count):
        p = Prog('%s-almost-%d' % (k, r.getrandbits(24)))
        for i in range(10):
            a = pl.any(0) if r.random() < .6 else r.choice(special_points(E, r))[1]; z = F.rand(r) if r.random() < .6 else r.choice([F.neg(F.one), F.add(F.one, F.one)])
            for ex, ey in ((2, 3), (0, 0), (1, 1), (1, 2), (2, 2), (3, 2), (2, 1), (4, 6), (3, 3), (2, 0), (0, 3)):
                t = [F.mul(a[0], pw(z, ex)), F.mul(a[1], pw(z, ey)), z]; p('%s.raw a %s' % (k, ' '.join(sum((F.raw(c) for c in t), [])))); p('%s.onCurve - %%a' % k); p('%s.isZero - %%a' % k)
            t = [F.mul(a[0], pw(z, 2)), F.mul(a[1], pw(z, 3)), z]
            for j in range(3):
                for c in range(1 if F is F1 else 2): u = list(t); u[j] = add1(u[j], c); p('%s.raw a %s' % (k, ' '.join(sum((F.raw(c) for c in u), [])))); p('%s.onCurve - %%a' % k)
            u = [t[0], F.neg(t[1]), t[2]]; p('%s.raw b %s' % (k, ' '.join(sum((F.raw(c) for c in u), [])))); p('%s.onCurve - %%b' % k); p('%s.equal - %%a %%b' % k)
            if F is F2:
                for u in ([t[0], (t[1][0], -t[1][1] % P), t[2]], [(t[0][0], -t[0][1] % P), t[1], t[2]], [(t[0][1], t[0][0]), t[1], t[2]], [(t[0][0], -t[0][1] % P), (t[1][0], -t[1][1] % P), (t[2][0], -t[2][1] % P)]): p('%s.raw b %s' % (k, ' '.join(sum((F.raw(c) for c in u), [])))); p('%s.onCurve - %%b' % k)
        out.append(p)
    return out
def triples_every(E, r, ops, quick):
    """every triple of coordinates out of 0, 1, -1, a few others, whether or not it is a point"""
    k, F = E.name, E.F; out = []; w = 48 if E is E1 else 96
    if F is F1: S = [0, 1, P - 1, 2, r.randrange(P)]
    else: S = [(0, 0), (1, 0), (0, 1), (P - 1, 0), (r.randrange(P), 0), (0, r.randrange(P)), (r.randrange(P), r.randrange(P)), (1, 1)]
    T = [(a, b, c) for a in S for b in S for c in S]
    if quick and len(T) > 130: T = [t for t in T if F.one == t[2] and F.zero in t] + r.sample(T, 110)
    for i in range(0, len(T), 20):
        p = Prog('%s-triples-%d' % (k, i))
        for t in T[i:i + 20]:
            p('%s.raw a %s' % (k, ' '.join(sum((F.raw(c) for c in t), []))))
            if 'law' in ops: p('%s.affine b %%a' % k); p('%s.neg c %%a' % k); p('%s.onCurve - %%a' % k); p('%s.isZero - %%a' % k); p('%s.isAffine - %%a' % k); p('%s.equal - %%a %%b' % k); p('%s.equal - %%a %%c' % k); p('%s.equal - %%b %%p' % k if i else '%s.isZero - %%b' % k); p('%s.copy p %%a' % k)
            if 'enc' in ops:
                for enc, dec in (('toABE', 'fromABE'), ('toALE', 'fromALE'), ('toJBE', 'fromJBE'), ('toJLE', 'fromJLE')):
                    m = r.choice('110'); p('%s.%s e %%a %s' % (k, enc, m)); p('%s.%s b %%e 0%s' % (k, dec, m)); r.random() < .5 and p('%s.%s b %%e 1%s' % (k, dec, m))
        if 'law' in ops and i: p.lines.insert(0, '%s.raw p %s' % (k, ' '.join(sum((F.raw(c) for c in r.choice(T)), []))))
        out.append(p)
    return out
def equal_every(E, r, count):
    """equality of triples: equal points, opposite points, equal in one coordinate, identity against everything"""
    k, F, pl = E.name, E.F, pool(E, r); out = []
    om = pow(2, (P - 1) // 3, P)
    for _ in range(count):
        p = Prog('%s-equal-%d' % (k, r.getrandbits(24))); a = pl.any(0); b = pl.any(0)
        sm = lambda s, c: (c * s) % P if F is F1 else mul2(c, (s, 0))
        cand = [None, a, E.neg(a), (sm(om, a[0]), a[1]), (sm(om * om % P, a[0]), E.neg(a)[1]), b, E.add(a, b)]
        for x in cand:
            for y in cand:
                p(ldz(E, r, 'a', x, r.choice(reps(E, r, x)))); p(ldz(E, r, 'b', y, r.choice(reps(E, r, y)))); p('%s.equal - %%a %%b' % k)
        # the same numbers under another z
        for _ in range(4):
            z1, z2 = F.rand(r), F.rand(r); t = [F.mul(a[0], F.mul(z1, z1)), F.mul(a[1], F.mul(F.mul(z1, z1), z1))]
            for z in (z1, F.neg(z1), z2, F.one, sm(om, z1)): p('%s.raw a %s' % (k, ' '.join(sum((F.raw(c) for c in t + [z]), [])))); p(ldz(E, r, 'b', a, r.choice(['affine', 'jac']))); p('%s.equal - %%a %%b' % k); p('%s.equal - %%b %%a' % k)
        out.append(p)
    return out
def multiples(E, r, quick):
    """scalar multiplication as the iterated group law: points of every order, scalars around q and the cofactors"""
    p = Prog(E.name + '-multiples'); k = E.name; cl = classes_of(E, r)
    for nm, pt in cl if not quick else cl[:16] + r.sample(cl[16:], 4):
        for v in r.sample(SCAL, 30) if not quick else [Q, Q + 1] + r.sample(SCAL, 3):
            p(ldz(E, r, 'a', pt, r.choice(reps(E, r, pt)))); p('%s.scale b %%a %s' % (k, sch(v, max(4, (v.bit_length() + 63) // 64))))
    return [p]
def c12_every(tier, r):
    q = tier == 'quick'; out = multiples(E1, r, q) + law_every(E1, r, q) + equal_every(E1, r, 4 if q else 30) + offcurve_every(E1, r, 3 if q else 20) + triples_every(E1, r, ('law',), q) + relations(E1, r, ('add', 'sub', 'dbl', 'neg', 'affine', 'equal', 'isZero', 'isAffine', 'clear', 'glv'), q)
    p = Prog('glv')
    for nm, a in classes_of(E1, r):
        for zm in reps(E1, r, a): p(ldz(E1, r, 'a', a, zm)); p('g1.glv b %a'); p('g1.onCurve - %b')
    return out + [p]
def c13_every(tier, r):
    q = tier == 'quick'; out = multiples(E2, r, q) + law_every(E2, r, q) + equal_every(E2, r, 3 if q else 20) + offcurve_every(E2, r, 2 if q else 15) + triples_every(E2, r, ('law',), q) + relations(E2, r, ('add', 'sub', 'dbl', 'neg', 'affine', 'equal', 'isZero', 'isAffine', 'psi', 'frob 1', 'frob 2', 'frob 3'), q) + (lambda l: l[:4] + l[-1:])(relations(E2, r, ('clear',), q))
    cl = classes_of(E2, r)
    for nm, a in cl if not q else cl[:20] + r.sample(cl[20:], 6):
        p = Prog('psi-' + nm)
        for zm in reps(E2, r, a):
            p(ldz(E2, r, 'a', a, zm)); p('g2.psi b %a'); p('g2.onCurve - %b')
            for e in r.sample(list(range(0, 26)) + [100, 1000, 12345], 5): p('g2.frob c %%a %d' % e); p('g2.onCurve - %c')
        p('g2.clear c %a'); p('g2.inSub - %c')
        out.append(p)
    p = Prog('frob-all'); p(ldz(E2, r, 'a', r.choice(pool(E2, r).mixed), 'jac'))
    for e in range(0, 40): p('g2.frob c %%a %d' % e)
    return out + [p]
def c05_every(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        pl = pool(E, r); k = E.name; out += offcurve_every(E, r, 3 if q else 20) + relations(E, r, ('onCurve', 'inSub'), q)
        # every sum of torsion of two orders and a subgroup point, in every representation
        T = [t for l, t in pl.tors]; cand = []
        for i in range(len(T)):
            for j in range(i, len(T)): cand.append(E.add(T[i], T[j]))
        cand = r.sample(cand, min(len(cand), 30 if q else 200)); cand = cand + [E.add(c, r.choice(pl.sub)[1]) for c in cand]
        for l, t in pl.tors:
            if l:
                for m in range(1, min(l, 14)): cand += [E.mul(t, m), E.add(E.mul(t, m), r.choice(pl.sub)[1])]
        cand += [a for nm, a in classes_of(E, r)] + [s[1] for s in pl.sub] + [E.neg(s[1]) for s in pl.sub[:3]]
        for i in range(0, len(cand), 12):
            p = Prog('%s-sub-%d' % (k, i))
            for c in cand[i:i + 12]:
                rp = reps(E, r, c)
                for zm in (r.sample(rp, 2) if q else rp): p(ldz(E, r, 'a', c, zm)); p('%s.inSub - %%a' % k); p('%s.onCurve - %%a' % k)
            out.append(p)
        p = Prog('%s-clears' % k)
        for c in r.sample(cand, 20 if q and E is E2 else 60): p(ldz(E, r, 'a', c, r.choice(reps(E, r, c)))); p('%s.clear c %%a' % k); p('%s.inSub - %%c' % k)
        out.append(p)
        # results of computations: inside and outside
        p = Prog('%s-computed' % k)
        for _ in range(12):
            s, t = r.choice(pl.sub)[1], r.choice(pl.tors); p(pl.ld('s', s)); p(pl.ld('t', t[1])); p('%s.add a %%s %%t' % k); p('%s.inSub - %%a' % k); p('%s.sub a %%a %%t' % k); p('%s.inSub - %%a' % k); p('%s.dbl a %%s' % k); p('%s.inSub - %%a' % k); p('%s.scale a %%t %s' % (k, sch(t[0] or 3, 1))); p('%s.inSub - %%a' % k)
        out.append(p)
    return out
def near_sums(E, r, q):
    out = []; k, pl = E.name, pool(E, r)
    for n in (1, 2, 3, 6) if q else (1, 2, 3, 4, 5, 6, 9, 17, 33):
        p = Prog('%s-near-%d' % (k, n)); om = endo(E, pl.G)
        for i in range(n):
            a = r.choice(pl.sub)[1]; p(pl.ld('p%d' % i, a)); p(pl.ld('a%d' % i, r.choice([E.neg(a), endo(E, a), r.choice(pl.sub)[1]])))
            v = scalar(r); p('sc.raw s%d %s' % (i, sch(v, 4))); p('sc.raw t%d %s' % (i, sch((v ^ (1 << r.randrange(256))), 4)))
        md = r.randrange(2)
        near(lambda l: p('%s.wsum w %s %d %d' % (k, J_(l), md, n)), ['p%d' % i for i in range(n)] + ['s%d' % i for i in range(n)], [(i, 'a%d' % i) for i in range(n)] + [(n + i, 't%d' % i) for i in range(n)])
        out.append(p)
    return out
def c14_every(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        out += scale_every(E, r, q) + relations(E, r, ('scale',), q); k, pl = E.name, pool(E, r)
        # sums around every change of the window width
        for n in ([6, 12, 33, 63, 65, 128] if q else [4, 6, 8, 9, 12, 15, 16, 17, 31, 33, 63, 65, 90, 96, 128, 200, 250, 257]):
            p = Prog('%s-full-%d' % (k, n), weight=n * (.8 if E is E1 else 3)); pts = ['p%d' % i for i in range(min(n, 16))]
            for x in pts: p(pl.ld(x, pl.any(.05)))
            ss = ['s%d' % i for i in range(min(n, 24))]
            for x in ss: p('sc.raw %s %s' % (x, sch(scalar(r), 4)))
            for m in sorted({n, n - 1, r.randrange(1, n + 1)}): p('%s.wsum w %s %d %d' % (k, J_([r.choice(pts) for _ in range(m)] + [r.choice(ss) for _ in range(m)]), r.randrange(2), m))
            out.append(p)
        # a term only in one window, the others empty; sums that vanish; the same point in many buckets
        for n in (2, 5, 17, 40) if q else (2, 3, 5, 9, 17, 33, 40, 70, 130):
            p = Prog('%s-window-%d' % (k, n)); a = r.choice(pl.sub)[1]
            for i in range(min(n, 6)): p(pl.ld('p%d' % i, r.choice([a, E.neg(a), pl.any(), None, a])))
            for rep in range(3 if q else 8):
                vs = [r.choice([1 << r.randrange(256), ((1 << r.randrange(1, 9)) - 1) << r.randrange(248), 0, (1 << 256) - (1 << r.randrange(256)), (1 << 255) + 1, r.getrandbits(256)]) for _ in range(min(n, 12))]
                for i, v in enumerate(vs): p('sc.raw s%d %s' % (i, sch(v % (1 << 256), 4)))
                p('%s.wsum w %s %d %d' % (k, J_(['p%d' % (i % min(n, 6)) for i in range(n)] + ['s%d' % (i % len(vs)) for i in range(n)]), r.randrange(2), n))
            out.append(p)
        out += near_sums(E, r, q)
        # unequal numbers
        p = Prog('%s-unequal' % k)
        for i in range(6): p(pl.ld('p%d' % i, pl.any())); p('sc.raw s%d %s' % (i, sch(scalar(r), 4)))
        for a in range(0, 7):
            for b in range(0, 7): p('%s.wsum w %s %d %d' % (k, J_(['p%d' % i for i in range(a) if i < 6] + (['p0'] if a == 7 else []) + ['s%d' % i for i in range(b) if i < 6]), r.randrange(2), min(a, 6)))
        out.append(p)
    return out
def J_(v): return ' '.join('%' + x for x in v)
def c06_every(tier, r):
    q = tier == 'quick'; out = []
    for E in (E1, E2):
        k, pl, F = E.name, pool(E, r), E.F; w = 48 if E is E1 else 96
        sp = special_points(E, r); sp = sp if not q else r.sample(sp, min(len(sp), 70))
        for i in range(0, len(sp), 10):          # coordinates where the sign or the reduction changes
            p = Prog('%s-special-%d' % (k, i))
            for nm, a in sp[i:i + 10]:
                p(ldz(E, r, 'a', a, r.choice(reps(E, r, a)))); p('%s.toC c %%a' % k); p('%s.fromC b %%c' % k); p('%s.equal - %%a %%b' % k)
                b = bytearray(compress(E, a)); b[0] ^= 0x20; by(p, 'c', b); p('%s.fromC b %%c' % k); p('%s.toC - %%b' % k)
                for enc, dec in (('toABE', 'fromABE'), ('toALE', 'fromALE'), ('toJBE', 'fromJBE'), ('toJLE', 'fromJLE')): m = r.choice('110'); p('%s.%s e %%a %s' % (k, enc, m)); p('%s.%s b %%e 1%s' % (k, dec, m))
            out.append(p)
        for _ in range(1 if q else 6):
            a = r.choice(pl.sub)[1]; cs = coords(a[0], E) + coords(a[1], E); B = b''.join(be(x) for x in cs); L = b''.join(le(x) for x in cs); one = [1] if E is E1 else [1, 0]; O = [' 11', ' 01', ' 10', ' 00']
            out += decode_neighbours(k, r, [k + '.fromABE'], B, 48, O) + decode_neighbours(k, r, [k + '.fromALE'], L, 48, O) + decode_neighbours(k, r, [k + '.fromJBE'], B + b''.join(be(x) for x in one), 48, O) + decode_neighbours(k, r, [k + '.fromJLE'], L + b''.join(le(x) for x in one), 48, O) + decode_neighbours(k, r, [k + '.fromC'], compress(E, a), 48, [''])
        # the generator, its neighbours and one point of every other kind, in every representation and through every encoding
        nm = [pl.G, E.neg(pl.G), E.add(pl.G, pl.G), E.neg(E.add(pl.G, pl.G)), endo(E, pl.G), None] + getattr(pl, 'axis', []) + [r.choice(pl.tors)[1], r.choice(pl.mixed), r.choice(pl.curve)]
        for i, a in enumerate(nm):
            p = Prog('%s-named-%d' % (k, i))
            for z in reps(E, r, a):
                p(ldz(E, r, 'a', a, z)); p('%s.toC c %%a' % k); p('%s.fromC b %%c' % k); p('%s.equal - %%a %%b' % k); p('%s.toCs - %%a' % k)
                for enc, dec in (('toABE', 'fromABE'), ('toALE', 'fromALE'), ('toJBE', 'fromJBE'), ('toJLE', 'fromJLE')):
                    for m in '10': p('%s.%s e %%a %s' % (k, enc, m)); p('%s.%s b %%e 1%s' % (k, dec, m))
            out.append(p)
        out += triples_every(E, r, ('enc',), q) + relations(E, r, ('enc',), q)
        # every value of the first octet's flags, on every kind of point; every bit of an encoding
        p = Prog('%s-flags' % k)
        for a in [None, pl.G, E.neg(pl.G), r.choice(pl.curve), r.choice(pl.tors)[1]]:
            for f in range(8):
                for low in range(4): b = bytearray(compress(E, a)); b[0] = (b[0] & 0x1f) | f << 5; low and b.__setitem__(0, b[0] ^ (low - 1 and 1 << low)); by(p, 'c', b); p('%s.fromC b %%c' % k)
        out.append(p)
        for a in (None, r.choice(pl.sub)[1]):
            p = Prog('%s-bits-%d' % (k, a is None))
            for i in range(8 * w) if not q else sorted(r.sample(range(8 * w), 120 if E is E1 else 90)): b = bytearray(compress(E, a)); b[i // 8] ^= 0x80 >> (i % 8); by(p, 'c', b); p('%s.fromC b %%c' % k)
            out.append(p)
            for o, n, jac in (('fromABE', 2, 0), ('fromALE', 2, 0), ('fromJBE', 3, 1), ('fromJLE', 3, 1)):
                p = Prog('%s-%s-bits-%d' % (k, o, a is None)); B = n * w * 8; z = F.rand(r)
                t = ([F.zero, F.one, F.zero] if jac else [F.zero, F.zero]) if a is None else [F.mul(a[0], F.mul(z, z)), F.mul(a[1], F.mul(F.mul(z, z), z)), z] if jac else [a[0], a[1]]
                b0 = b''.join(b''.join(map(be, reversed(coords(c, E)))) if o.endswith('BE') else b''.join(map(le, coords(c, E))) for c in t)
                by(p, 'c', b0); p('%s.%s b %%c 11' % (k, o)); p('%s.%sd b %%c' % (k, o))
                for i in sorted(r.sample(range(B), 40 if q else B // 4)): b = bytearray(b0); b[i // 8] ^= 0x80 >> (i % 8); by(p, 'c', b); p('%s.%s b %%c %s' % (k, o, r.choice(['11', '11', '01'])))
                # every coordinate at and above p
                for j in range(len(b0) // 48):
                    for v in (P, P - 1, P + 1, (1 << 384) - 1, 1 << 383, 1 << 381, P ^ (1 << 64), P + (1 << 64), P - (1 << 64), P + (1 << 320), P - (1 << 320), 2 * P):
                        b = bytearray(b0); b[48 * j:48 * j + 48] = be(v) if o.endswith('BE') else le(v); by(p, 'c', b); p('%s.%s b %%c %s' % (k, o, r.choice(['11', '01', '10', '00']))); r.random() < .3 and p('%s.%sd b %%c' % (k, o))
                    c = int.from_bytes(b0[48 * j:48 * j + 48], 'big' if o.endswith('BE') else 'little') + P
                    b = bytearray(b0); b[48 * j:48 * j + 48] = be(c) if o.endswith('BE') else le(c); by(p, 'c', b); p('%s.%s b %%c 11' % (k, o)); p('%s.%s b %%c 01' % (k, o)); p('%s.%sd b %%c' % (k, o))
                out.append(p)
        # compressed: every coordinate at and above p
        p = Prog('%s-compressed-range' % k)
        for j in range(w // 48):
            for v in [P + d for d in range(-4, 12)] + [P ^ (1 << 64 * i) for i in range(6)] + [P + (1 << (64 * i)) for i in range(6)] + [P - (1 << (64 * i)) for i in range(6)] + [(1 << 381) - 1, 1 << 380] + [r.randrange(P, 1 << 381) for _ in range(4)] + ([(1 << 384) - 1, 1 << 383, 2 * P, 1 << 381] if j else []):
                for x2 in ([0] if w == 48 else [0, 1, r.randrange(P)]):
                    cs = [v] if w == 48 else [v, x2] if j == 0 else [x2, v]
                    if cs[0] < 1 << 381: b = bytearray(b''.join(map(be, cs))); b[0] |= r.choice([0x80, 0xa0]); by(p, 'c', b); p('%s.fromC b %%c' % k)
        out.append(p)
        # identity written in almost the right way, by single octets
        p = Prog('%s-identity-octets' % k)
        for i in range(w): b = bytearray(compress(E, None)); b[i] ^= r.choice([1, 0x10, 0x80 if i else 1, 0x1f]); by(p, 'c', b); p('%s.fromC b %%c' % k)
        for n, o in ((2, 'fromABE'), (2, 'fromALE'), (3, 'fromJBE'), (3, 'fromJLE')):
            for i in r.sample(range(n * w), 24 if q else n * w): b = bytearray(n * w); b[i] = r.choice([1, 0x80, 0xff]); by(p, 'c', b); p('%s.%s b %%c %s' % (k, o, r.choice(['11', '01'])))
        out.append(p)
    return out
def decode_neighbours(tag, r, dec, b, w, opts):
    """an encoding, one that differs in a few bits of one place, the first again; the same octets under other options"""
    p = Prog('%s-neighbours-%d' % (tag, r.getrandbits(24))); by(p, 'a', b); nb = []
    at = sorted({0, len(b) - 1, r.randrange(len(b))} | {i for j in range(0, len(b), w) for i in (j, j + w - 1, j + r.randrange(w))})
    for i in at if len(at) <= 20 else r.sample(at, 20): by(p, 'n%d' % i, b[:i] + bytes([b[i] ^ (1 << r.randrange(8 if i % w not in (0, w - 1) else 4))]) + b[i + 1:]); nb.append('n%d' % i)
    by(p, 'rev', b[::-1]); by(p, 'zz', bytes(len(b))); nb += ['rev', 'zz']
    for d in dec: near(lambda l: p('%s c %%%s%s' % (d, l[0], l[1])), ['a', opts[0]], [(0, x) for x in nb] + [(1, o) for o in opts[1:]])
    return [p]
def c07_every(tier, r):
    q = tier == 'quick'; out = []; E384 = (1 << 384) - 1
    edge = [P, P - 1, P + 1, E384, 1 << 383, 1 << 381, (1 << 381) - 1, 2 * P, 0, 1] + [P + (1 << (64 * i)) for i in range(6)] + [P - (1 << (64 * i)) for i in range(6)] + [P ^ (1 << (64 * i + 63)) for i in range(5)]
    for kd in ('fp', 'fp2', 'fp6', 'fp12'): out += field_neighbours(kd, r, ('toBE 1', 'toLE 1', 'toBE 0', 'toLE 0'), exps=False, count=1 if q else 8)
    for kd in ('fp', 'fp2', 'fp6', 'fp12'):
        for _ in range(1 if q else 6):
            v = [r.randrange(P) for _ in range(NC[kd])]; out += decode_neighbours(kd, r, [kd + '.fromBE'], b''.join(be(x) for x in v), 48, [' 11', ' 10', ' 01', ' 00']) + decode_neighbours(kd, r, [kd + '.fromLE'], b''.join(le(x) for x in v), 48, [' 11', ' 10', ' 01', ' 00'])
    for k, nc in (('fp', 1), ('fp2', 2), ('fp6', 6), ('fp12', 12)):
        for j in range(nc):          # one coefficient at the boundary, the others in range
            p = Prog('%s-edge-%d' % (k, j))
            for v in edge if not q or nc < 6 else r.sample(edge, 10):
                for o, e in (('BE', be), ('LE', le)):
                    cs = [r.choice([r.randrange(P), 0, P - 1]) for _ in range(nc)]; cs[j] = v; b = b''.join(map(e, reversed(cs) if o == 'BE' else cs)); by(p, 'b', b)
                    for fl in ('11', '10', '01', '00', 'd') if nc < 6 or not q else (r.choice(['11', '10', 'd']), ): p('%s.from%sd d %%b' % (k, o) if fl == 'd' else '%s.from%s d %%b %s' % (k, o, fl))
            out.append(p)
        # two coefficients out of range; every single octet
        p = Prog('%s-octets' % k)
        for i in range(48 * nc) if nc < 6 or not q else sorted(r.sample(range(48 * nc), 80)):
            b = bytearray(48 * nc); b[i] = r.choice([1, 0x80, 0x1a, 0xff]); by(p, 'b', b); o = r.choice(['BE', 'LE']); p('%s.from%s a %%b 11' % (k, o)); p('%s.from%s a %%b 10' % (k, o))
        out.append(p)
        p = Prog('%s-roundtrip' % k)
        for i in range(12 if q else 100):
            p('%s.raw a %s' % (k, ' '.join(h48(r.choice([fpraw(r), fpraw(r), 0, P - 1, r.getrandbits(r.randrange(1, 381)) % P])) for _ in range(nc))))
            for o in ('BE', 'LE'):
                for s in ('', 's'):
                    for m in '01': p('%s.to%s%s b %%a %s' % (k, o, s, m)); p('%s.from%s c %%b %s%s' % (k, o, r.choice('01'), m)); p('%s.equal - %%a %%c' % k)
        out.append(p)
    return out
