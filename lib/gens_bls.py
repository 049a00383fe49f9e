"""Programs from the behaviours of spec/Bls.tla, judged by spec/BlsTrace.tla."""
from gens_sig import *
import json, re
def behaviours(eng, keys, sigs, n=0, seed=1, depth=12, timeout=600):
    """all reachable states, or the ends of n random walks"""
    env = dict(MAXKEYS=str(keys), MAXSIGS=str(sigs), EMIT='1', LAST='1' if n else '0')
    if n:
        import engine
        rc, out = engine.tlc('Bls.tla', 'BlsWalk.cfg', eng.classes, eng.work, env, workers=1, timeout=timeout, extra=('-simulate', 'num=%d' % n, '-depth', str(depth), '-seed', str(seed)))
        m = re.search(r'(\d+) states checked', out) or re.search(r'The number of states generated: (\d+)', out)
        if rc != 0 or not m: raise engine.CheckError('Bls: simulation failed (%d):\n%s' % (rc, out[-3000:]))
        eng.models.append(dict(model='Bls', config='simulation of %d behaviours' % n, states=int(m.group(1)), transitions=int(m.group(1))))
    else: out = eng.model('Bls', 'Bls.cfg', workers=4, env=env, expect_states=400, timeout=timeout)
    return [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"HIST ')]
def refute(eng):
    from concurrent.futures import ThreadPoolExecutor
    run = lambda x: eng.model('Bls', 'Bls.cfg', workers=1, env={x[0]: '1', 'MAXKEYS': '4', 'MAXSIGS': str(x[1])}, refuted=True)
    with ThreadPoolExecutor(4) as ex: list(ex.map(run, (('NOPOP', 1), ('NODUP', 1), ('SAMEDST', 2), ('NOBIND', 2))))

class Life:
    """one behaviour in the life of the library"""
    def __init__(s, r, b, tag):
        s.r, s.b, s.p, s.n = r, b, Prog(tag), 0; p = s.p
        s.sk = ['k1', 'k2', 'k3']
        for i in range(3):
            if r.random() < .3: by(p, 'seed', rbytes(r, r.choice([32, 32, 40, 64]))); p('sig.sk k%d %%seed' % (i + 1))
            elif r.random() < .4: p('sc.raw k%d %s' % (i + 1, sch(r.randrange(1, Q), 4))); p('sig.child%s k%d %%k%d %d' % (r.choice(['', 'U']), i + 1, i + 1, r.choice(IDX)))
            else: p('sc.raw k%d %s' % (i + 1, sch(r.randrange(1, Q), 4)))
            p('sig.pk q%d %%k%d' % (i + 1, i + 1))
        s.q = ['q1', 'q2', 'q3']; s.s = []; s.m = {}
        by(p, 'dp', b'BLS_POP_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_'); p('sig.suite dp pop')
        b1 = msg(r)[:200]; b2 = flip(r, b1)
        by(p, 'm1', b1); by(p, 'm2', b2); s.m[1], s.m[2] = 'm1', 'm2'
        for h in b['h']:
            if h != ['end']: s.act(h)
    def new(s, x): s.n += 1; return '%s%d' % (x, s.n)
    def enc(s, j):
        if 10 + j not in s.m: t = s.new('e'); s.p('g1.toALE %s %%%s 1' % (t, s.q[j - 1])); s.m[10 + j] = t
        return s.m[10 + j]
    def carry(s, g, t):
        """the element goes through octets, or another representation"""
        c = s.r.random(); o = s.new('o')
        if c < .25: s.p('%s.toC %s %%%s' % (g, o, t)); s.p('%s.fromC %s %%%s' % (g, t, o))
        elif c < .35: e = s.r.choice(['ABE', 'ALE']); s.p('%s.to%s %s %%%s 1' % (g, e, o, t)); s.p('%s.from%s %s %%%s %s1' % (g, e, t, o, s.r.choice('01')))
        elif c < .5: s.p('%s.affine %s %%%s' % (g, t, t))
    def key(s, line): t = 'Q%d' % (len(s.q) + 1); s.p(line.replace('@', t)); s.q.append(t); s.carry('g1', t)
    def sig(s, line): t = 'S%d' % (len(s.s) + 1); s.p(line.replace('@', t)); s.s.append(t); s.carry('g2', t)
    def act(s, h):
        o, a = h[0], h[1:]; q = lambda j: '%' + s.q[j - 1]; g = lambda j: '%' + s.s[j - 1]; r = s.r; A = lambda *v: ' '.join(v)
        if o == 'kneg': s.key('g1.neg @ ' + q(a[0]))
        elif o == 'kadd': s.key(r.choice(['g1.add @ ', 'sig.aggPk @ ']) + A(q(a[0]), q(a[1])) if a[0] != a[1] or r.random() < .5 else 'g1.dbl @ ' + q(a[0]))
        elif o == 'ksub': s.key('g1.sub @ ' + A(q(a[0]), q(a[1])))
        elif o == 'sign': s.sig('sig.sign @ ' + '%' + s.sk[a[0] - 1] + ' %' + s.m[a[1]])
        elif o == 'senc': s.sig('sig.sign @ ' + '%' + s.sk[a[0] - 1] + ' %' + s.enc(a[1]))
        elif o == 'pop': s.sig('sig.popProve @ ' + '%' + s.sk[a[0] - 1])
        elif o == 'apop': h = s.new('h'); s.p('sig.fromMsg %s %%%s %%dp' % (h, s.enc(a[0]))); s.sig('g2.scaleS @ ' + '%%%s %%%s' % (h, s.sk[2]))
        elif o == 'sneg': s.sig('g2.neg @ ' + g(a[0]))
        elif o == 'sadd': s.sig(r.choice(['g2.add @ ', 'sig.aggSig @ ']) + A(g(a[0]), g(a[1])) if a[0] != a[1] or r.random() < .5 else 'g2.dbl @ ' + g(a[0]))
        elif o == 'ssub': s.sig('g2.sub @ ' + A(g(a[0]), g(a[1])))
        else: raise ValueError(o)
    def base(s, b): return s.m[b] if b < 10 else s.enc(b - 10)
    # questions
    def verify(s, j, b, t): s.p('sig.verify - %%%s %%%s %%%s' % (s.q[j - 1], s.base(b), s.s[t - 1]))
    def pop(s, j, t): s.p('sig.popVerify - %%%s %%%s' % (s.q[j - 1], s.s[t - 1]))
    def fast(s, js, b, t): s.p('sig.popFast - %%%s %%%s %s' % (s.base(b), s.s[t - 1], ' '.join('%' + s.q[j - 1] for j in js)))
    def agg(s, jb, t, d): s.p('sig.aggVerify - %%%s %s %s %s %d' % (s.s[t - 1], ' '.join('%' + s.q[j - 1] for j, b in jb), ' '.join('%' + s.base(b) for j, b in jb), d, len(jb)))
    def ask(s, what, n):
        r, b = s.r, s.b; K = range(1, len(s.q) + 1); T = range(1, len(s.s) + 1); B = [1, 2] + [10 + j for j in K]
        if not s.s and what != 'group': return
        some = lambda v, k: r.sample(v, min(k, len(v)))
        if what == 'verify':
            for x in some(b['v'], n): s.verify(*x)
            for _ in range(n): s.verify(r.choice(K), r.choice(B), r.choice(T))
            for j, t in some(b['p'], 3): s.verify(j, 10 + j, t)                    # a proof of possession is no signature
        elif what == 'pop':
            for x in some(b['p'], n): s.pop(*x)
            for j in K:
                for t in T: s.pop(j, t)
            for x in some(b['f'], n): s.fast(x[0], x[1], x[2])
            for _ in range(n): s.fast([r.choice(K) for _ in range(r.choice([1, 2, 2, 3]))], r.choice(B), r.choice(T))
        elif what == 'agg':
            for x in some(b['a'], n): s.agg([(x[0], x[1]), (x[2], x[3])], x[4], '0'); s.agg([(x[0], x[1]), (x[2], x[3])], x[4], '1')
            for x in some(b['v'], 2): s.agg([x[:2]], x[2], '1')
            for _ in range(n): s.agg([(r.choice(K), r.choice(B)) for _ in range(r.choice([1, 2, 2, 3]))], r.choice(T), r.choice('01'))
            # lists of signers and messages of any pattern of repetition
            for _ in range(max(1, n // 3)):
                jb = [(r.choice([1, 2, 3]), r.choice(B)) for _ in range(r.choice([2, 3, 3, 4, 5]))]; ss = []
                for j, x in jb: t = s.new('w'); s.p('sig.sign %s %%%s %%%s' % (t, s.sk[j - 1], s.base(x))); ss.append('%' + t)
                s.p('sig.aggSig T%d %s' % (len(s.s) + 1, ' '.join(ss))); s.s.append('T%d' % (len(s.s) + 1)); t = len(s.s)
                r.shuffle(jb); s.agg(jb, t, '0'); s.agg(jb, t, '1'); s.agg(jb[1:], t, '0'); s.agg(jb[:-1] + [(jb[-1][0] % 3 + 1, jb[-1][1])], t, '0')
        elif what == 'group':
            p = s.p; g = lambda v: '%' + r.choice(v)
            for k, v in (('g1', s.q), ('g2', s.s)):
                if not v: continue
                for _ in range(n): a, c = g(v), g(v); p('%s.equal - %s %s' % (k, a, c)); p('%s.toC - %s' % (k, a))
                v = v[:]
                for o, ag in (('add', 'aggPk' if k == 'g1' else 'aggSig'), ('sub', None), ('add', None)):      # the same sum in several ways
                    a, c, d = g(v), g(v), g(v); t, u = s.new('t'), s.new('u')
                    p('%s.%s %s %s %s' % (k, o, t, a, c)); p('%s.%s %s %%%s %s' % (k, o, t, t, d))
                    if ag: p('sig.%s %s %s %s %s' % (ag, u, d, a, c))
                    elif o == 'sub': p('%s.add %s %s %s' % (k, u, c, d)); p('%s.sub %s %s %%%s' % (k, u, a, u))
                    else: p('%s.add %s %s %s' % (k, u, c, d)); p('%s.add %s %s %%%s' % (k, u, a, u))
                    p('%s.equal - %%%s %%%s' % (k, t, u)); p('%s.toC - %%%s' % (k, t)); p('%s.toC - %%%s' % (k, u)); p('%s.isZero - %%%s' % (k, t)); v += [t, u]
            # keys and secrets are added and derived alike
            ks = [r.choice(s.sk) for _ in range(r.choice([1, 2, 3]))]; x = r.choice(IDX)
            p('sig.aggSk K ' + ' '.join('%' + k for k in ks)); p('sig.pk Q %K'); p('sig.aggPk P ' + ' '.join('%q' + k[1:] for k in ks)); p('g1.equal - %P %Q'); p('g1.toC - %P'); p('g1.toC - %Q')
            p('sig.childU L %%K %d' % x); p('sig.pk U %L'); p('sig.childG1 V %%P %d' % x); p('g1.equal - %U %V'); p('g1.equal - %U %P'); p('g1.toC - %U')
            p('sig.sign W %L %m1'); p('sig.verify - %V %m1 %W'); p('sig.verify - %P %m1 %W')
            if s.s: p('sig.childG2 X %%%s %d' % (s.s[0], x)); p('sig.childG2 Y %%%s %d' % (s.s[-1], x)); p('g2.equal - %X %Y'); p('g2.sub Z %%X %%%s' % s.s[0]); p('g2.isZero - %Z')
        s.p.weight = 1
def bls(*what):
    def run(eng, tier, r):
        q = tier == 'quick'
        bs = behaviours(eng, 4, 1 if q else 2) if what[0] in ('pop', 'verify') or not q else []
        sim = [b for k, s in (((4, 3), (5, 4)) if q else ((4, 3), (5, 4), (6, 5))) for b in behaviours(eng, k, s, n=50 if q else 1500, seed=r.getrandbits(30), depth=k + s)]
        if what[0] == 'pop' or not q: refute(eng)
        if q: bs = r.sample(bs, min(len(bs), 150)); sim = r.sample(sim, min(len(sim), 120))
        else: bs = r.sample(bs, min(len(bs), 3000)); sim = r.sample(sim, min(len(sim), 3000))
        ps = []
        for i, b in enumerate(bs + sim):
            l = Life(r, b, 'life-%d' % i)
            for w in what: l.ask(w, 3 if i < len(bs) else 8)
            ps.append(l.p)
        eng.run(ps, module='BlsTrace', configs=eng.configs[:1] if q else None, others=False)
    return run
