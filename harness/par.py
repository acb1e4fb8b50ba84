"""Several objects at the same time (spec/BoozPar.tla)."""
import json, os, random, tempfile
import numpy as np
import tlc
from data import *
from scen import options, choose, selection, resolution, write_wout
from sched import tiny

CFG = """SPECIFICATION Spec
CONSTANTS
 PointsOf <- ThePoints
 Shared = "%s"
 MaxSwitch = %d
 Exporting = %s
INVARIANTS TypeOK AsAlone ReturnsComplete OnlyRejectedFail
PROPERTY NoInterference
%s
CHECK_DEADLOCK FALSE
"""
BEFORE = ['init_begin', 'init_modes', 'init_grid', 'init_trig', 'run_begin']
SURFACE = ['begin', 'alloc', 'covariant', 'coords', 'field', 'angles', 'basis', 'mode', 'mode', 'spectra', 'end']
def points(n): return BEFORE + n * SURFACE + ['run_end']

def tlc_run(pts, shared='nothing', switches=1000, exporting=False):
    cfg = CFG % (shared, switches, str(exporting).upper(), 'INVARIANT Export' if exporting else 'VIEW View\nPROPERTY Terminates')
    with tempfile.NamedTemporaryFile('w', dir=tlc.WORK, suffix='.ndjson') as f:
        f.write(json.dumps({'points': pts}) + '\n')
        f.flush()
        return tlc.tlc('BoozPar', cfg, env={'POINTS': f.name}, workers=8)

def model(c):
    """The design, all interleavings; and the mistakes that it must not make."""
    for sizes in ((1, 1), (2, 1, 0), (1, 1, 1), (3, 2)) + (((2, 2, 2), (3, 2, 1), (5, 4)) if c.thorough else ()):
        code, out = tlc_run([points(n) if n else [] for n in sizes])
        if code: raise tlc.TlcError('BoozPar: the specification is inconsistent\n' + out[-3000:])
        c.model('BoozPar, surfaces of the objects: %s (0: rejected)' % (sizes,), *tlc.counts(out))
    for shared in ('tables', 'scratch'):
        code, out = tlc_run([points(1), points(1)], shared=shared)
        if code != 12: raise tlc.TlcError('BoozPar: TLC does not find the mistake %s\n%s' % (shared, out[-3000:]))

def schedules(c, pts, switches):
    code, out = tlc_run(pts, switches=switches, exporting=True)
    if code: return []    # (the points that the code has are not those of the specification)
    h = [json.loads(json.loads(x)[6:])['h'] for x in out.splitlines() if x.startswith('"SCHED ')]
    h = list({json.dumps(x): x for x in h}.values())
    c.model('BoozPar schedules, %s points, at most %d preemptions' % ([len(p) for p in pts], switches), *tlc.counts(out), behaviours=len(h))
    return h

# ------------------------------------------------------------------ replay
NAMES = 'abcdef'
def kinds(rng, k, n):
    """k equilibria that differ in everything."""
    return [equilibrium(rng, ns=n[i] + 1 + int(rng.integers(0, 3)), mpol=int(rng.integers(1, 4)), ntor=int(rng.integers(0, 3)), mnyq=int(rng.integers(1, 4)),
                        nnyq=int(rng.integers(0, 3)), nfp=choose(rng, 1, 2, 3, 5), asym=bool(rng.integers(0, 2))) for i in range(k)]

def s_par_sched(sizes, todo, alike, timeout=60):
    def f(r, rng):
        eqs = [tiny(rng, 4, asym=bool(rng.integers(0, 2)))] * len(sizes) if alike else kinds(rng, len(sizes), [s + 1 for s in sizes])
        names = list(NAMES[:len(sizes)])
        res = [(int(rng.integers(2, 5)), int(rng.integers(1, 3))) for _ in names]
        if alike: res = [res[0]] * len(res)
        base = []
        for o, eq, q, n in zip(names, eqs, res, sizes):
            r.setup(o, eq, verbose=0)
            options(r, o, q[0], q[1], np.arange(eq['ns'] - 1))
            r.pristine(o)
            m = eq['ns'] - 1
            base.append([np.arange(m)[:n], np.arange(m)[::-1][:n].copy(), rng.integers(0, m, n)])
        for i, h in enumerate(todo):
            for k, o in enumerate(names): r.set(o, 'compute_surfs', base[k][(i + k) % 3])
            r.par(names, sched=h, timeout=timeout)
        r.par(names, sched=())
    return f

def s_par(threads=1, large=False):
    """Free runs of several objects at the same time, some of them rejected."""
    def f(r, rng):
        k = int(rng.integers(2, 7))
        ns = [int(rng.integers(1, 5)) for _ in range(k)]
        names = list(NAMES[:k])
        top = 9 if large else 5
        for o, eq in zip(names, kinds(rng, k, ns)):
            r.setup(o, eq, verbose=0)
            options(r, o, int(rng.integers(1, top)), int(rng.integers(0, 4)), np.arange(eq['ns'] - 1))
            r.pristine(o)
        for i in range(4 if large else 10):
            for o in names:
                n = r.objs[o].ns_in
                if rng.random() < 0.7: r.set(o, 'compute_surfs', rng.integers(0, n, int(rng.integers(1, 6))))
                elif rng.random() < 0.15: r.set(o, 'compute_surfs', np.array([n]))
                if rng.random() < 0.2: r.sets(o, mboz=int(rng.integers(1, top)), nboz=int(rng.integers(0, 4))); r.pristine(o)
            r.par([names[j] for j in rng.permutation(k)[:int(rng.integers(2, k + 1))]], threads=threads, sched=() if threads == 1 else None)
        for o in names: r.run(o)
    return f

def s_together(r, rng):
    """Python threads, each with an object and files of its own."""
    k = int(rng.integers(2, 6))
    names = list(NAMES[:k])
    eqs = kinds(rng, k, [int(rng.integers(1, 4)) for _ in names])
    for o, eq in zip(names, eqs):
        write_wout('w_%s.nc' % o, eq)
        r.mkfile('w_%s.nc' % o)
        r.setup(o, eq, verbose=0)
        options(r, o, int(rng.integers(1, 5)), int(rng.integers(0, 3)), np.arange(eq['ns'] - 1))
        r.pristine(o)
    for i in range(3):
        plans = []
        for o, eq in zip(names, eqs):
            n = eq['ns'] - 1
            f = 'b_%s_%d.nc' % (o, i)
            p = []
            if rng.random() < 0.5: p.append(('wout', o, 'w_%s.nc' % o, False))
            p += [('sets', o, dict(compute_surfs=rng.integers(0, n, int(rng.integers(1, 5)))))] + [('run', o)] * int(rng.integers(1, 4))
            p += [('write', o, f), ('readb', o, f), ('wout', o, 'w_%s.nc' % o, bool(rng.integers(0, 2))), ('run', o)]
            if rng.random() < 0.4: p += [('sets', o, dict(compute_surfs=np.array([n]))), ('run', o), ('sets', o, dict(compute_surfs=np.array([0]))), ('run', o)]
            plans.append(p)
        r.together(plans)
    for o in names: r.run(o)

def probe():
    """The observation points of whole runs of 0, 1 and 2 surfaces, from a free run in another process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import booz_xform, rec
            os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
            eq = tiny(np.random.default_rng(1), 3)
            b = booz_xform.Booz_xform()
            for a in ['asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'xm', 'xn', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm_nyq', 'xn_nyq']: setattr(b, a, eq[a])
            b.verbose = 0
            b.init_from_vmec(eq['ns'], eq['iotas'], *[eq.get(m, np.zeros((0, 0))) for m in rec.LOADMATS])
            b.mboz, b.nboz = 2, 1
            rec.set_threads(1)
            rec.par_run()
            lib, hook = rec.scheduler()
            got = []
            for n in (1, 2):
                b.compute_surfs = np.arange(n)
                lib.sched_begin(hook, None, 0, 2, rec.MODES, 0)
                b.run()
                lib.sched_end(hook)
                got.append([lib.sched_name(i).decode() for i in range(lib.sched_count())])
            os.write(w, json.dumps(got).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as h: data = h.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None

def families(c):
    pick = random.Random(c.seed)
    k = 5 if c.thorough else 1
    fam = [('together-%d' % i, s_together) for i in range(24 * k)]
    known = probe()
    if known is None:    # neither the helper nor observation points
        return fam
    fam += [('par-%d' % i, s_par(1)) for i in range(30 * k)] + [('teams-%d' % i, s_par(1 + i % 4)) for i in range(16 * k)]
    fam += [('large-%d' % i, s_par(1 + i % 2, True)) for i in range(8 * k)]
    if any('begin' not in p or 'spectra' not in p for p in known): return fam
    of = lambda n: known[n - 1]
    limit = 4000 if c.thorough else 600
    for sizes, sw in (((1, 1), 2), ((2, 1), 1), ((2, 2), 1), ((1, 1, 1), 2 if c.thorough else 1)) + ((((1, 1), 3),) if c.thorough else ()):
        h = schedules(c, [of(n) for n in sizes], sw)
        if len(h) > limit: h = pick.sample(h, limit)
        parts = max(1, min(40, len(h) // 25))
        fam += [('sched-%s-%d-%d' % (''.join(map(str, sizes)), sw, i), s_par_sched(sizes, h[i::parts], i % 2 == 0)) for i in range(parts)]
    return fam
