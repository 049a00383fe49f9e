"""What each property's check runs."""
import random
import gens, gens_curve as gc, gens_fields as gf, gens_sig as gs, gens_hist as gh, gens_size as gz, gens_bls as gb
def plan(*fs, law=None, model=None, toy=False, words=()):
    def run(eng, tier, r):
        if law is not None or tier != 'quick': eng.selfcheck(law if tier == 'quick' else 4)
        if toy and hasattr(eng, 'classes'): eng.toys(tier)
        paths = eng.words(tier, words) if words and hasattr(eng, 'classes') else []
        eng.run([p for f in fs for p in f(tier, r)] + (gs.c20_paths(paths, tier, r) if paths else []))
        if model and hasattr(eng, 'classes'): model(eng, tier, r)
    return dict(run=run)
def c22(eng, tier, r):
    if tier != 'quick': eng.selfcheck(4)
    eng.run(gh.c22_schedules(eng, tier, r) + gh.c22_again(tier, r) + gh.c22_yield(tier, r), rep=8)
class Collect:
    """stands in for the engine: only the programs are wanted"""
    def __init__(s): s.progs = []
    def selfcheck(s, d): pass
    def run(s, ps, **k): s.progs += ps
def c23(eng, tier, r):
    ps = []
    for k, v in PLANS.items():
        if k not in ('C22', 'C23', 'C09'):
            c = Collect(); v['run'](c, 'quick', random.Random('%s-%d' % (k, r.getrandbits(30)))); ps += c.progs
    ps += gh.c22_again(tier, r) + gh.c22_yield(tier, r) + gh.c23_inputs(tier, r)
    eng.run([p for p in ps if not p.big], module='TraceSafe', others=False)
    if tier != 'quick':
        for k in ('C06', 'C07', 'C14', 'C17', 'C20', 'C05'):
            c = Collect(); PLANS[k]['run'](c, 'thorough', random.Random('%s-%d' % (k, r.getrandbits(30)))); eng.run([p for p in c.progs if not p.big], module='TraceSafe', others=False)
P = plan
PLANS = {'C01': P(gs.c01, gs.c01_lengths, gz.c01_size, gz.c01_big, law=1, model=gb.bls('verify')), 'C02': P(gs.c02, gs.c02_lists, gz.c02_size, gz.c02_big, gz.c02_many, model=gb.bls('agg')), 'C03': P(gs.c03, gs.c03_lists, gz.c03_size, gz.c03_many, model=gb.bls('group')), 'C04': P(gs.c04, gs.c04_lists, gz.c04_size, gz.c04_big, gz.c04_many, model=gb.bls('pop')), 'C05': P(gc.c05, gc.c05_every), 'C06': P(gc.c06, gc.c06_every), 'C07': P(gc.c07, gc.c07_every),
         'C08': P(gens.c08, words=('field',)), 'C09': P(gs.c09), 'C10': P(gf.c10, gf.c10_every, law=1, toy=True), 'C11': P(gf.c11, gf.c11_every), 'C12': P(gc.c12, gc.c12_every, toy=True), 'C13': P(gc.c13, gc.c13_every), 'C14': P(gc.c14, gc.c14_every, gz.c14_size, gz.c14_many, words=('window',)),
         'C15': P(gf.c15, gf.c15_every, gz.c15_size, gz.c15_many, law=1), 'C16': P(gf.c16, gf.c16_every, gz.c16_size, gz.c16_big), 'C17': P(gs.c17, gs.c17_every, gz.c17_size, gz.c17_big, law=1), 'C18': P(gs.c18, gs.c18_every, gz.c18_size, gz.c18_big), 'C19': P(gs.c19, gs.c19_every), 'C20': P(gs.c20, gs.c20_every, gz.c20_size, words=('div',)), 'C22': dict(run=c22), 'C23': dict(run=c23, configs=('san',)),
         'C24': P(gh.c24)}
