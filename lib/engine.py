"""Runs API programs through the library and checks the recorded traces against spec/Trace.tla with TLC."""
import json, os, subprocess, sys, time, shutil, tempfile, hashlib, re
from concurrent.futures import ThreadPoolExecutor
import build
SPEC = build.VERIF + '/spec'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
class CheckError(Exception): pass

# milliseconds of specification time per call (only used to balance the load)
COST = {'pair.calc': 100, 'pair.twostep': 100, 'pair.direct': 100, 'pair.calcW': 30, 'pair.finalA': 95, 'sig.verify': 120, 'sig.popVerify': 120, 'sig.popFast': 120, 'sig.aggVerify': 220,
        'sig.fromMsg': 29, 'sig.sign': 35, 'sig.popProve': 36, 'sig.pk': 3, 'sig.child': 90, 'sig.childU': 2, 'sig.childG1': 3, 'sig.childG2': 8, 'kdf.lamportPk': 90, 'kdf.lamportSk': 24,
        'fp12.isGt': 26, 'fp12.exp': 26, 'fp12.cycExp': 26, 'fp6.exp': 8, 'fp2.exp': 3, 'g1.inSub': 1.2, 'g2.inSub': 5, 'g1.scale': 1.5, 'g2.scale': 5, 'g1.scaleS': 1.5, 'g2.scaleS': 5, 'g1.map': 3, 'g2.map': 24,
        'g1.clear': 1, 'g2.clear': 24, 'fp2.sqrt': 1, 'kdf.xmd': 1, 'kdf.full': 2}
PAIRS = {'sig.verify': 1, 'sig.popVerify': 1, 'sig.popFast': 1, 'sig.aggVerify': 3}
def cost(l):
    t = l.split(); o = t[0]
    if o in ('g1.wsum', 'g2.wsum'): return len(t) * (.4 if o == 'g1.wsum' else 1.5)
    if o[-1] == 'C' and o not in ('g1.fromC', 'g2.fromC', 'g1.toC', 'g2.toC'): return 50
    if o in ('kdf.expand', 'kdf.full', 'kdf.xmd'): return 1 + int(t[-1]) / 300
    if o == 'sha.rep': return 1
    c = COST.get(o)
    if c is None: return 0.15
    if o in PAIRS and len([x for x in t[2:] if not x.startswith('%')]) >= (3 if o == 'sig.aggVerify' else 1): return 20 * (len(t) // 3 if o == 'sig.aggVerify' else 1)   # witness form
    return c
class Prog:
    """one program: calls on a fresh register file.  weight ~ milliseconds of specification time."""
    def __init__(s, tag, lines=None, weight=None): s.tag, s.lines, s.weight, s.once, s.big = tag, lines or [], weight, False, False     # once: long, and independent of the field arithmetic; big: minutes of hashing
    def __call__(s, line): s.lines.append(line); return s
    def w(s): return s.weight if s.weight is not None else 1 + sum(cost(l) for l in s.lines)

def tlc(module, cfg, classes, work, env=None, timeout=800, workers=1, mem='3g', extra=()):
    md = tempfile.mkdtemp(dir=work)
    cmd = ['java', '-Xss128m', '-Xmx' + mem] + (['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4'] if workers == 1 else ['-XX:+UseParallelGC']) + [
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides' + (':tlc2.overrides.VOverrides' if classes else ''),      # classes None: the TLA+ definitions themselves
           '-DTLA-Library=' + SPEC, '-cp', '%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (classes or '/nonexistent', build.TLA, build.TLA),
           'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', md, '-config', cfg, *extra, module]
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out = r.stdout + r.stderr; rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') + '\nTIMEOUT'; rc = -1
    shutil.rmtree(md, ignore_errors=True)
    return rc, out

class Engine:
    def __init__(s, prop, tier, seed, configs=('bmi2', 'nobmi2', 'generic')):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time()
        s.work = tempfile.mkdtemp(prefix='vbls-')
        with ThreadPoolExecutor(2) as ex:
            c = ex.submit(build.classes); d = ex.submit(build.drivers, 'san' in configs)
            s.classes = c.result(); s.cfg, s.missing = d.result()
        s.configs = [c for c in configs if c in s.cfg]; s.others = []
        s.ops = set(subprocess.run([s.cfg[s.configs[0]][0], '--ops'], capture_output=True, text=True).stdout.split())
        s.stats = dict(programs=0, calls=0, distinct_calls=set(), free=0, tlc_states=0, tlc_runs=0, traces=0, ops={}, differing=0, kinds={})
        s.hangs = 0; s.violations = []; s.models = []; s.samples = []; s.inconcl = []
    def left(s, budget): return budget - (time.time() - s.t0)

    # ---- driving the library
    @staticmethod
    def text(p, first=True): return 'reset\n' if p.once and not first else 'reset\n' + '\n'.join(p.lines) + '\nsys.dump -\n'
    def drive(s, progs, config, limit=20, again=False):
        """returns list (one per program) of lists of raw log lines"""
        exe, env = s.cfg[config]
        e = dict(os.environ); e.update(env)
        out = []; todo = list(progs)
        while todo:
            try: r = subprocess.run([exe, str(limit)], input=''.join(s.text(p, config in (s.configs[0], 'san') and not again) for p in todo), env=e, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired: raise CheckError('driver exceeded its time limit')
            if r.returncode not in (0,): raise CheckError('driver failed (%d): %s' % (r.returncode, r.stderr[-1000:]))
            logs = []
            for line in r.stdout.splitlines():
                if '"o":"reset"' in line and '"c":"sys"' in line: logs.append([])
                else: logs[-1].append(line)
            out += logs; todo = todo[len(logs):]
            if logs and logs[-1] and '"k":"hang"' in logs[-1][-1]: s.hangs += 1
            if todo and s.hangs > 3 and time.time() - s.t0 > 150: return out + [None] * len(todo)      # enough has been seen
            if todo and not (logs and logs[-1] and re.search('"k":"(crash|hang)"', logs[-1][-1])): raise CheckError('driver stopped early: ' + r.stderr[-500:])
        return out
    def drive_threads(s, progs, config, threads=16, rep=2, limit=500):
        """all programs at once on several threads, each program several times: one list of distinct logs per program"""
        exe, env = s.cfg[config]
        e = dict(os.environ); e.update(env)
        try: r = subprocess.run([exe, str(limit), str(threads), str(rep)], input=''.join(s.text(p, False) for p in progs), env=e, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired: raise CheckError('driver exceeded its time limit')
        if r.returncode != 0: raise CheckError('driver failed (%d): %s' % (r.returncode, r.stderr[-1000:]))
        logs = [[] for _ in progs]; c = None
        for line in r.stdout.splitlines():
            if line[0] == '#': c = []; logs[int(line[1:])].append(c)
            elif '"o":"reset"' not in line or '"c":"sys"' not in line: c.append(line)
        if not all(logs) and not (c and re.search('"k":"(crash|hang)"', c[-1])): raise CheckError('driver stopped early: ' + r.stderr[-500:])
        return logs
    def run(s, progs, limit=20, tlc_timeout=800, rep=2, module='Trace', configs=None, others=True):
        """configs: where the programs are executed; others: also in another order and concurrently; module: what the logs must be behaviours of"""
        configs = configs or s.configs
        progs = [p for p in progs if p.lines]
        unknown = {l.split()[0] for p in progs for l in p.lines} - s.ops - {'sys.dump'}
        if unknown:
            opt = {u for u in unknown if u.split('.')[0] in ('low', 'word', 'const', 'sha')}
            if unknown - opt: raise CheckError('unknown operations %s' % (unknown - opt))
            s.inconcl.append('optional operations not buildable against this tree: %s' % sorted(opt))
            progs = [Prog(p.tag, [l for l in p.lines if l.split()[0] not in opt], p.weight) for p in progs]
            progs = [p for p in progs if p.lines]
        if not progs: return
        logs = {}; k = max(1, min(NPROC, len(progs)))
        with ThreadPoolExecutor(NPROC) as ex:
            futs = {c: [ex.submit(s.drive, progs[i::k], c, limit) for i in range(k)] for c in configs}
            # the same programs in another order, in processes with another history
            back = others and [ex.submit(s.drive, progs[i * len(progs) // k:(i + 1) * len(progs) // k][::-1], s.configs[0], limit, True) for i in range(k)]
            for c, fs in futs.items():
                logs[c] = [[] for _ in progs]
                for i, f in enumerate(fs):
                    for j, l in enumerate(f.result()): logs[c][i + j * k].append(l)
            if others: logs['reversed'] = [[] for _ in progs]
            for i, f in enumerate(back or []):
                for j, l in enumerate(f.result()): logs['reversed'][(i + 1) * len(progs) // k - 1 - j].append(l)
        # and concurrently in one process
        if others and not s.hangs: logs['threads'] = s.drive_threads(progs, s.configs[0], rep=rep)
        # a program whose log is the same in several configurations is validated once
        tasks = []
        for n, p in enumerate(progs):
            seen = {}
            for c in logs:
                for lg in logs[c][n]:
                    if not lg: continue
                    key = '\n'.join(lg)
                    if key in seen: seen[key][1].append(c)
                    else: seen[key] = (n, [c], lg)
            if len(seen) > 1: s.stats["differing"] += 1
            tasks += [(p,) + v for v in seen.values()]
        if others: s.others = ['reversed order (other call histories)', '16 threads']
        s.stats['programs'] += len(progs)
        s.stats['traces'] += len(tasks)
        w = (lambda t: t[0].w()) if module == 'Trace' else (lambda t: len(t[3]) / 10)
        tasks.sort(key=lambda t: -w(t))
        total = sum(w(t) for t in tasks)
        nb = max(1, min(NPROC, int(total // 150) + 1, len(tasks)))
        # longest-processing-time assignment to bins
        bins = [[0.0, []] for _ in range(nb)]
        for t in tasks:
            b = min(bins, key=lambda b: b[0]); b[0] += w(t); b[1].append(t)
        def check(b):
            f = tempfile.NamedTemporaryFile('w', dir=s.work, suffix='.ndjson', delete=False)
            owner = []
            for t in b[1]:
                f.write('{"c":"sys","o":"reset","d":"-","x":[],"m":[],"k":"u","r":[]}\n'); owner.append((t, -1))
                for j, l in enumerate(t[3]): f.write(l + '\n'); owner.append((t, j))
            f.close()
            t0 = time.time()
            rc, out = tlc(module + '.tla', module + '.cfg', s.classes, s.work, {'TRACE': f.name}, timeout=tlc_timeout)
            if os.environ.get('VERIF_VERBOSE'): print('bin: %d programs, %d calls, predicted %.1f s, took %.1f s' % (len(b[1]), len(owner), b[0] / 1000, time.time() - t0), flush=True)
            m = re.search(r'RESULT (\{.*\})"?', out.replace('\\"', '"'))
            if not m or rc != 0:
                keep = os.path.join(s.work, 'failed.ndjson'); shutil.copy(f.name, keep)
                return CheckError('TLC did not finish the trace (rc %d):\n%s' % (rc, out[-3000:])), owner
            res = json.loads(m.group(1)); os.unlink(f.name)
            if res['n'] != len(owner): raise CheckError('TLC consumed %d of %d calls' % (res['n'], len(owner)))
            return res, owner
        with ThreadPoolExecutor(NPROC) as ex: results = list(ex.map(check, bins))
        errors = [res for res, owner in results if isinstance(res, CheckError)]
        for (res, owner), b in zip(results, bins):
            if isinstance(res, CheckError): continue
            s.stats['tlc_runs'] += 1; s.stats['tlc_states'] += res['n'] + 1; s.stats['free'] += res['free']
            badprogs = set()
            for i in res['bad']:
                t, j = owner[i - 1]; badprogs.add(id(t[3]))
                s.violation_event(t, j)
            for t in b[1]:
                if any('"o":"abort"' in l for l in t[3]) and id(t[3]) not in badprogs:
                    errors.append(CheckError('program %s was abandoned although every call was accepted' % t[0].tag))
        if errors and not s.violations: raise errors[0]
        for p, n, cs, lg in tasks:
            for l in lg:
                if '"c":"sys"' in l: continue
                e = json.loads(l); s.stats['calls'] += 1
                k = e['c'] + '.' + e['o']; s.stats['ops'][k] = s.stats['ops'].get(k, 0) + 1
                s.stats['kinds'][e['k']] = s.stats['kinds'].get(e['k'], 0) + 1
                s.stats['distinct_calls'].add(hashlib.md5((k + str(e['r']) + str(e['m'])).encode()).digest()[:8])
        for t in tasks[:2] + tasks[-1:]:
            if len(s.samples) < 8: s.samples.append({'program': t[0].tag, 'first_calls': t[0].lines[:6], 'trace': [l[:300] for l in t[3][:4]]})

    # ---- verdicts
    def known(s):
        try: txt = open(build.VERIF + '/known-findings.json').read()
        except FileNotFoundError: return []
        return [k for k in json.loads(txt)['findings'] if k['property'] == s.prop]
    def violation_event(s, t, j):
        p, n, cs, lg = t
        e = json.loads(lg[j])
        # registers loads that the call depends on, for the report
        text = {'property': s.prop, 'configs': cs, 'program': p.tag, 'rejected_call': e, 'lines': p.lines}
        s.violations.append(text)
    def model_violation(s, name, out): s.violations.append({'property': s.prop, 'model': name, 'rejected_call': {'c': 'model', 'o': name, 'x': [], 'm': [], 'k': '', 'r': []}, 'lines': [], 'configs': [], 'program': name, 'tlc': out[-6000:]})
    def finish(s, level='model_checking', extra=None):
        ev = build.VERIF + '/evidence'; os.makedirs(ev + '/replay', exist_ok=True)
        known = s.known(); hit = {}; new = []
        for v in s.violations:
            e = v['rejected_call']
            for k in known:
                if e['c'] + '.' + e['o'] == k['op'] and k.get('program', v['program']) == v['program'] and (k.get('m') is None or k['m'] == e['m']) and (k.get('r') is None or k['r'] == e['r']):
                    hit[k['id']] = k; break
            else: new.append(v)
        for k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
        st = dict(s.stats); st['distinct_calls'] = len(st['distinct_calls'])
        states = st['tlc_states'] + sum(m['states'] for m in s.models); trans = st['tlc_states'] - st['tlc_runs'] + sum(m['transitions'] for m in s.models)
        cov = dict(states=states, transitions=max(trans, 0), traces_validated_against_impl=st['traces'],
                   api_calls_checked=st['calls'], distinct_api_calls=st['distinct_calls'], calls_outside_contract=st['free'],
                   programs=st['programs'], programs_with_backend_dependent_representation=st['differing'],
                   calls_per_operation=st['ops'], configurations=s.configs + s.others, models=s.models, not_decided=s.inconcl,
                   samples=s.samples or [m for m in s.models][:3])
        if extra: cov.update(extra)
        json.dump(dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=cov, wall_s=round(time.time() - s.t0, 1)),
                  open('%s/%s.json' % (ev, s.prop), 'w'), indent=1)
        shutil.rmtree(s.work, ignore_errors=True)
        if new:
            shown = 0
            for v in new:
                key = v['rejected_call']['c'] + '.' + v['rejected_call']['o']
                h = hashlib.md5(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8]
                path = '%s/replay/%s-%s.json' % (ev, s.prop, h)
                if shown < 10:
                    json.dump(v, open(path, 'w'), indent=1)
                    print('rejected: %s in program %s (%s): %s' % (key, v['program'], ','.join(v['configs']), json.dumps(v['rejected_call'])[:600]))
                    print('VIOLATION property=%s replay=%s' % (s.prop, path))
                shown += 1
            return 1
        print('%s: held on everything explored: %d calls in %d programs, %d traces, %d model states, %.0f s' % (
            s.prop, st['calls'], st['programs'], st['traces'], states, time.time() - s.t0))
        return 0

    # ---- the specification checked against itself: evaluators against definitions, laws, published vectors
    def selfcheck(s, depth):
        t = time.time()
        with ThreadPoolExecutor(2) as ex:
            a, b = [ex.submit(tlc, 'SpecCheck.tla', 'SpecCheck.cfg', c, s.work) for c in (s.classes, None)]
            s.model('Laws', 'Laws.cfg', workers=6, env={'LAWDEPTH': str(depth)}, expect_states=60)
            (ra, a), (rb, b) = a.result(), b.result()
        def rows(t):
            if 'Model checking completed' not in t: raise CheckError('SpecCheck did not finish:\n' + t[-2000:])
            t = t[re.search(r'<<\s*"ROW"', t).start():t.index('Model checking completed')]
            return re.sub(r'Progress[^\n]*|\s+', '', t)
        if rows(a) != rows(b): raise CheckError('SpecCheck: an evaluation by Java differs from its definition')
        s.models.append(dict(model='SpecCheck', states=701, transitions=700, seconds=round(time.time() - t, 1), compared='Java evaluators against TLA+ definitions'))
    def toys(s, tier):
        """the definitions over a small prime, every element visited, and on a small curve of the family"""
        with ThreadPoolExecutor(2) as ex:
            f = [ex.submit(s.model, 'Small', 'Small.cfg', workers=6, env={'SMALLP': '19'}, expect_states=1805), ex.submit(s.model, 'Toy', 'Toy.cfg', workers=2, expect_states=1304)]
            for x in f: x.result()
        if tier != 'quick': s.model('Small', 'Small.cfg', workers=8, env={'SMALLP': '19'}, expect_states=1805, classes=False)      # without the Java methods
    def words(s, tier, algs):
        """the algorithms on machine words, with short words and every operand; too little room in the modulus must be found to break them"""
        q = tier == 'quick'; W = lambda alg, wb, n, spare, refuted=False, states=1: (dict(ALG=alg, WB=str(wb), LEN=str(n), SPARE=str(spare), PATHS='1' if alg == 'div' else '0'), refuted, states)
        jobs = {'field': [W('carries', 3 if q else 5, 1, 1, states=64), W('mul', 3, 2, 1, states=19104), W('mul', 2, 3, 1, states=23880), W('mul', 2, 2, 0, True), W('mulwide', 2, 3, 1, states=1000), W('square', 3, 3, 2, states=15360), W('square', 3, 3, 1, True),
                          W('inverse', 2, 3, 1, states=1619), W('inverse', 2, 4, 1, states=10000), W('inverse', 3, 2, 0, True)] + ([] if q else [W('mul', 4, 2, 1), W('mul', 3, 3, 3), W('mulwide', 3, 3, 1), W('square', 4, 3, 3), W('square', 4, 3, 2), W('inverse', 3, 3, 1), W('inverse', 4, 3, 3)]),
                'div': [W('div', 2, 4, 1, states=100000), W('div', 3, 2, 1, states=10000)] + ([] if q else [W('div', 3, 3, 1), W('div', 4, 2, 1), W('div', 2, 5, 1)]),
                'window': [W('window', 2, 2, 1, states=1000), W('window', 3, 2, 1, states=1000)] + ([] if q else [W('window', 2, 4, 1)])}
        with ThreadPoolExecutor(3) as ex:
            out = list(ex.map(lambda j: s.model('Words', 'Words.cfg', workers=3, env=j[0], expect_states=j[2], refuted=j[1], classes=False, timeout=800), [j for a in algs for j in jobs[a]]))
        return sorted({tuple(int(v) for v in m.groups()) for o in out for m in re.finditer(r'<<"PATH", (\d+), (\d+), (\d+), (\d+), (\d+)>>', o)})
    # ---- checking a model on its own
    def model(s, module, cfg, workers=4, timeout=600, mem='6g', env=None, extra=(), expect_states=1, refuted=False, classes=True):
        t = time.time()
        rc, out = tlc(module + '.tla', cfg, s.classes if classes else None, s.work, env, timeout=timeout, workers=workers, mem=mem, extra=extra)
        if refuted:
            # a deliberately wrong model: TLC must find that out
            if 'is violated' not in out: raise CheckError('%s: the wrong model was not refuted:\n%s' % (module, out[-2000:]))
            s.models.append(dict(model=module, config=cfg, states=0, transitions=0, refuted_as_expected=env)); return out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
        if rc == 0 and m:
            st = dict(model=module, config=cfg, states=int(m.group(2)), transitions=int(m.group(1)), seconds=round(time.time() - t, 1))
            if st['states'] < expect_states: raise CheckError('%s: only %d states' % (module, st['states']))
            s.models.append(st)
            return out
        if rc == 12 or 'Invariant' in out and 'is violated' in out:
            raise CheckError('model %s violates its own invariant:\n%s' % (module, out[-4000:]))
        raise CheckError('TLC failed on %s (rc %d):\n%s' % (module, rc, out[-4000:]))
