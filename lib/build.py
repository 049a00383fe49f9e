"""Builds the API driver from /repo's working tree, and the TLC overrides."""
import glob, hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
OUT = os.path.join(VERIF, '.build')
TLA = '/opt/veriftools/tla'
CFLAGS = ['-std=c++20', '-I' + REPO + '/include', '-I' + REPO + '/src']
class BuildError(Exception): pass

def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

def classes():
    src = glob.glob(VERIF + '/spec/java/tlc2/overrides/*.java')
    d = os.path.join(OUT, 'classes-' + digest(src))
    if not os.path.exists(d + '/.ok'):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', d] + src, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr)
        open(d + '/.ok', 'w').close()
    return d

def repo_sources():
    return sorted(glob.glob(REPO + '/src/*') + glob.glob(REPO + '/include/**/*.hpp', recursive=True))

def drivers(san=False):
    """returns {config: (binary, extra environment)} and the list of optional parts left out"""
    src = repo_sources(); har = glob.glob(VERIF + '/harness/*')
    d = os.path.join(OUT, 'drv-' + digest(src + har + [os.path.abspath(__file__)], REPO))
    os.makedirs(d, exist_ok=True)
    missing = []
    def cc(out, f, *extra, cxx='g++'):
        o = os.path.join(d, out)
        if os.path.exists(o): return None
        r = subprocess.run([cxx] + CFLAGS + list(extra) + ['-c', f, '-o', o + '.tmp'], capture_output=True, text=True)
        if r.returncode == 0: os.rename(o + '.tmp', o); return None
        return (f, r.stderr[-3000:])
    jobs = []
    lib = [f for f in src if f.endswith('.cpp')]
    asm = [f for f in src if f.endswith('.s') or f.endswith('.S')]
    gen = os.path.join(d, 'generic_arithmetic.cpp')
    with open(gen, 'w') as f:
        # the portable implementation: the same source with the architecture macro hidden
        f.write('#include <bls12-381/bls12-381.hpp>\n#include <tuple>\n#include <array>\n#undef __x86_64__\n#include "arithmetic.cpp"\n')
    opts = sorted(f for f in har if os.path.basename(f).startswith('opt_'))
    mains = sorted(f for f in har if os.path.basename(f).startswith('drv_') and f.endswith('.cpp'))
    opt_flags = ['-O3', '-DNDEBUG']
    san_flags = ['-O2', '-DNDEBUG', '-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero', '-fno-sanitize-recover=all']     # all of the library but the limb arithmetic
    with ThreadPoolExecutor(8) as ex:
        fl = []
        for f in sorted(lib, key=lambda f: -os.path.getsize(f)):
            fl.append((f, False, ex.submit(cc, 'lib_' + os.path.basename(f) + '.o', f, *opt_flags)))
        fl.append((gen, True, ex.submit(cc, 'gen_arithmetic.o', gen, *opt_flags)))
        for f in asm: fl.append((f, False, ex.submit(cc, 'asm_' + os.path.basename(f) + '.o', f)))
        for f in mains: fl.append((f, False, ex.submit(cc, 'h_' + os.path.basename(f) + '.o', f, '-O1')))
        for f in opts: fl.append((f, True, ex.submit(cc, 'h_' + os.path.basename(f) + '.o', f, '-O1')))
        if san:
            for f in lib:
                if not f.endswith('/arithmetic.cpp'): fl.append((f, False, ex.submit(cc, 'sanlib_' + os.path.basename(f) + '.o', f, *san_flags)))
            for f in mains: fl.append((f, False, ex.submit(cc, 'sanh_' + os.path.basename(f) + '.o', f, *san_flags, '-O1')))
            for f in opts: fl.append((f, True, ex.submit(cc, 'sanh_' + os.path.basename(f) + '.o', f, *san_flags, '-O1')))
        for f, optional, fut in fl:
            r = fut.result()
            if r:
                if optional: missing.append(os.path.basename(f))
                else: raise BuildError('%s:\n%s' % r)
    def link(out, objs, *extra):
        o = os.path.join(d, out)
        if os.path.exists(o): return o
        r = subprocess.run(['g++', '-pthread', '-o', o + '.tmp'] + objs + list(extra), capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[-3000:])
        os.rename(o + '.tmp', o); return o
    H = lambda pre: [os.path.join(d, pre + os.path.basename(f) + '.o') for f in mains + [o for o in opts if os.path.basename(o) not in missing]]
    L = lambda pre: [os.path.join(d, pre + os.path.basename(f) + '.o') for f in lib if not f.endswith('/arithmetic.cpp')]
    A = [os.path.join(d, 'lib_arithmetic.cpp.o')] + [os.path.join(d, 'asm_' + os.path.basename(f) + '.o') for f in asm]
    cfg = {}
    cfg['bmi2'] = (link('drv', H('h_') + L('lib_') + A), {})
    cfg['nobmi2'] = (cfg['bmi2'][0], {'BLS_DISABLE_BMI2': '1'})
    try: cfg['generic'] = (link('drvgen', H('h_') + L('lib_') + [os.path.join(d, 'gen_arithmetic.o')]), {})
    except BuildError as e: missing.append('generic backend: ' + str(e)[-300:])
    if san:
        cfg['san'] = (link('drvsan', H('sanh_') + L('sanlib_') + A, *san_flags[2:]), {'ASAN_OPTIONS': 'detect_leaks=0:handle_segv=0:handle_abort=0:abort_on_error=1:detect_stack_use_after_return=0:quarantine_size_mb=1', 'UBSAN_OPTIONS': 'abort_on_error=1'})
    return cfg, missing

def prune(keep=6):
    try:
        ds = sorted((os.path.join(OUT, x) for x in os.listdir(OUT) if x.startswith('drv-')), key=os.path.getmtime)
        for x in ds[:-keep]: shutil.rmtree(x, ignore_errors=True)
    except FileNotFoundError: pass

if __name__ == '__main__':
    import time; t = time.time()
    print(classes()); print(drivers('san' in sys.argv)); prune(); print('%.1fs' % (time.time() - t))
