"""Arithmetic used only to *generate* inputs (nothing here judges a result)."""
import random
X = 0xd201000000010000
P = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
Q = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
R = 1 << 384
RINV = pow(R, -1, P)
H1 = (X + 1) ** 2 // 3            # cofactor of G1: (x-1)^2/3 with x negative
H2 = ((-X) ** 8 - 4 * (-X) ** 7 + 5 * (-X) ** 6 - 4 * (-X) ** 4 + 6 * (-X) ** 3 - 4 * (-X) ** 2 - 4 * (-X) + 13) // 9
G1 = (0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb,
      0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1)
G2 = ((0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
       0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e),
      (0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
       0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be))

def mont(v): return v * R % P
def h48(n): return '%096x' % n
def raw(v): return h48(mont(v % P))       # raw limbs holding the residue v
def sch(n, w): return '%0*x' % (16 * w, n)

# Fp2
def add2(a, b): return ((a[0] + b[0]) % P, (a[1] + b[1]) % P)
def sub2(a, b): return ((a[0] - b[0]) % P, (a[1] - b[1]) % P)
def neg2(a): return (-a[0] % P, -a[1] % P)
def mul2(a, b): return ((a[0] * b[0] - a[1] * b[1]) % P, (a[0] * b[1] + a[1] * b[0]) % P)
def inv2(a):
    n = pow(a[0] * a[0] + a[1] * a[1], -1, P)
    return (a[0] * n % P, -a[1] * n % P)
def pow2(a, e):
    r = (1, 0)
    for b in bin(e)[2:]:
        r = mul2(r, r)
        if b == '1': r = mul2(r, a)
    return r
def issq(a): return a % P == 0 or pow(a, (P - 1) // 2, P) == 1
def sqrt1(a):
    r = pow(a, (P + 1) // 4, P)
    return r if r * r % P == a % P else None
def sqrt2(a):
    if a[1] == 0:
        r = sqrt1(a[0])
        return (r, 0) if r is not None else (0, sqrt1(-a[0] % P))
    s = sqrt1((a[0] * a[0] + a[1] * a[1]) % P)
    if s is None: return None
    i2 = (P + 1) // 2
    d = (a[0] + s) * i2 % P
    x = sqrt1(d)
    if x is None: x = sqrt1((a[0] - s) * i2 % P)
    return (x, a[1] * i2 * pow(x, -1, P) % P)

class F1:
    zero, one, B = 0, 1, 4
    add = staticmethod(lambda a, b: (a + b) % P)
    sub = staticmethod(lambda a, b: (a - b) % P)
    neg = staticmethod(lambda a: -a % P)
    mul = staticmethod(lambda a, b: a * b % P)
    inv = staticmethod(lambda a: pow(a, -1, P))
    sqrt = staticmethod(sqrt1)
    rand = staticmethod(lambda r: r.randrange(P))
    raw = staticmethod(lambda a: [raw(a)])
class F2:
    zero, one, B = (0, 0), (1, 0), (4, 4)
    add, sub, neg, mul, inv, sqrt = map(staticmethod, (add2, sub2, neg2, mul2, inv2, sqrt2))
    rand = staticmethod(lambda r: (r.randrange(P), r.randrange(P)))
    raw = staticmethod(lambda a: [raw(a[0]), raw(a[1])])

class Curve:
    """affine points; None is the neutral element"""
    def __init__(s, F, G, h, name): s.F, s.G, s.h, s.name = F, G, h, name
    def neg(s, p): return None if p is None else (p[0], s.F.neg(p[1]))
    def add(s, p, q):
        F = s.F
        if p is None: return q
        if q is None: return p
        if p[0] == q[0]:
            if p[1] != q[1] or p[1] == F.zero: return None
            t = F.mul(p[0], p[0]); l = F.mul(F.add(t, F.add(t, t)), F.inv(F.add(p[1], p[1])))
        else: l = F.mul(F.sub(q[1], p[1]), F.inv(F.sub(q[0], p[0])))
        x = F.sub(F.sub(F.mul(l, l), p[0]), q[0])
        return (x, F.sub(F.mul(l, F.sub(p[0], x)), p[1]))
    def mul(s, p, k):
        if k < 0: p, k = s.neg(p), -k
        r = None
        for b in bin(k)[2:]:
            r = s.add(r, r)
            if b == '1': r = s.add(r, p)
        return r
    def lift(s, x):
        F = s.F
        y = F.sqrt(F.add(F.mul(F.mul(x, x), x), F.B))
        return None if y is None else (x, y)
    def rand_curve(s, rng):
        while True:
            x = s.F.rand(rng); p = s.lift(x)
            if p is not None and p[1] is not None: return p if rng.random() < .5 else s.neg(p)
    def torsion(s, l, rng):
        """a point of order exactly l (a prime dividing the cofactor), or None"""
        n = s.h * Q; e = 1; m = n
        while m % l == 0: m //= l
        for _ in range(40):
            p = s.mul(s.rand_curve(rng), m)
            if p is None: continue
            while True:
                q = s.mul(p, l)
                if q is None: return p
                p = q
        return None
    # register loads -----------------------------------------------------
    def load(s, reg, p, rng=None, zmode='affine'):
        """the program line that loads a Jacobian triple for p"""
        F = s.F
        if p is None:
            if zmode == 'zzz': t = (F.zero, F.zero, F.zero)
            elif zmode == 'junk' and rng: t = (F.rand(rng), F.rand(rng), F.zero)
            else: t = (F.zero, F.one, F.zero)
        elif zmode == 'affine' or rng is None: t = (p[0], p[1], F.one)
        else:
            z = F.rand(rng) if zmode == 'jac' else zmode
            z2 = F.mul(z, z); t = (F.mul(p[0], z2), F.mul(p[1], F.mul(z2, z)), z)
        return '%s.raw %s %s' % (s.name, reg, ' '.join(sum((F.raw(c) for c in t), [])))
E1 = Curve(F1, G1, H1, 'g1')
E2 = Curve(F2, G2, H2, 'g2')
COF1 = [3, 11, 10177, 859267, 52437899]
COF2 = [13, 23, 2713, 11953, 262069]
