"""Schedules generated by spec/BoozSched.tla, replayed on the threads of the library.

The observation points are first taken from a free run of the code as it is, so
that schedules fit the points that exist. A schedule that the code cannot
follow (because of its critical section, or otherwise) is given up by the
controller and counts as an ordinary run.
"""
import json, os, random, tempfile
import numpy as np
import tlc
from data import *
from scen import options, choose

CFG = """SPECIFICATION Spec
CONSTANTS
 N = %d
 T = %d
 Points <- ThePoints
 Verbose = %d
 Locked = %s
 SharedScratch = %s
 MaxSwitch = %d
 Exporting = %s
INVARIANTS TypeOK SerialResults ReturnsComplete ReportsIntact ReportsComplete ReportsRight MutualExclusion
%s
CHECK_DEADLOCK FALSE
"""
CODE = ['begin', 'alloc', 'covariant', 'coords', 'field', 'angles', 'basis', 'mode', 'mode', 'mode', 'spectra', 'report', 'report_mid', 'end']

def tlc_run(n, t, points, verbose, locked=True, shared=False, switches=1000, exporting=False):
    cfg = CFG % (n, t, verbose, str(locked).upper(), str(shared).upper(), switches, str(exporting).upper(),
                 'PROPERTY OncePerSurface\n' + ('INVARIANT Export' if exporting else 'VIEW View\nPROPERTY Terminates'))
    if exporting and not locked: cfg = cfg.replace(' ReportsIntact', '').replace(' MutualExclusion', '')
    # TLC's configuration files have no sequences.
    with tempfile.NamedTemporaryFile('w', dir=tlc.WORK, suffix='.ndjson') as f:
        f.write(json.dumps({'points': points}) + '\n')
        f.flush()
        return tlc.tlc('BoozSched', cfg, env={'POINTS': f.name}, workers=8)

def model(c):
    """The design itself, all interleavings; and the two mistakes it must not make."""
    for n, t, v in ((2, 2, 1), (3, 2, 2), (3, 3, 1), (2, 2, 0)) + (((4, 2, 2), (4, 4, 1), (5, 3, 2)) if c.thorough else ()):
        code, out = tlc_run(n, t, CODE, v)
        if code: raise tlc.TlcError('BoozSched: the specification is inconsistent\n' + out[-3000:])
        c.model('BoozSched %d surfaces, %d threads, verbose %d' % (n, t, v), *tlc.counts(out))
    for what, kw in (('ReportsIntact', dict(locked=False)), ('SerialResults', dict(shared=True))):
        code, out = tlc_run(2, 2, CODE, 1, **kw)
        if code != 12 or 'Invariant %s is violated' % what not in out and what != 'SerialResults':
            raise tlc.TlcError('BoozSched: TLC does not find the mistake %r\n%s' % (kw, out[-3000:]))

def schedules(c, n, t, points, verbose, switches, locked=True):
    code, out = tlc_run(n, t, points, verbose, locked=locked, switches=switches, exporting=True)
    if code and verbose:   # the points that the code has do not show its reports
        return schedules(c, n, t, [p for p in points if p[:6] != 'report'], 0, switches)
    if code: return []
    h = [json.loads(json.loads(x)[6:]) for x in out.splitlines() if x.startswith('"SCHED ')]
    if not locked: h = [x for x in h if not x['good']]
    h = list({json.dumps(x['h']): x['h'] for x in h}.values())
    c.model('BoozSched schedules of %d surfaces, %d threads, at most %d preemptions%s' % (n, t, switches, '' if locked else ', against the critical section'),
            *tlc.counts(out), behaviours=len(h))
    return h

# ------------------------------------------------------------------ replay
def tiny(rng, n, **kw):
    return equilibrium(rng, ns=n + 1, mpol=2, ntor=1, mnyq=2, nnyq=1, nfp=choose(rng, 1, 2, 5), flux=False, **kw)

def s_sched(n, t, verbose, todo, timeout=60):
    def f(r, rng):
        eq = tiny(rng, n)
        r.setup('a', eq, verbose=verbose)
        perm = [np.arange(n), np.arange(n)[::-1].copy(), rng.integers(0, n, n)]
        options(r, 'a', 2, 1, perm[0])
        r.pristine('a')
        for i, h in enumerate(todo):
            r.set('a', 'compute_surfs', perm[i % 3])
            r.run('a', threads=t, sched=h, timeout=timeout)
        # And free again.
        r.run('a', threads=t, sched=())
    return f

def probe(verbose):
    """The observation points that a surface passes, from a free run in another process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import rec
            d = os.open('/dev/null', os.O_WRONLY)
            os.dup2(d, 1)
            rng = np.random.default_rng(1)
            eq = tiny(rng, 2)
            import booz_xform
            b = booz_xform.Booz_xform()
            from rec import LOADMATS
            for a in ['asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'xm', 'xn', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm_nyq', 'xn_nyq']: setattr(b, a, eq[a])
            b.verbose = verbose
            b.init_from_vmec(eq['ns'], eq['iotas'], *[eq.get(m, np.zeros((0, 0))) for m in LOADMATS])
            b.mboz, b.nboz = 2, 1
            rec.set_threads(1)
            ctl = rec.scheduler()
            log = []
            if ctl:
                lib, hook = ctl
                lib.sched_begin(hook, None, 0, 2, rec.MODES, 0)
                b.run()
                lib.sched_end(hook)
                log = [lib.sched_name(i).decode() for i in range(lib.sched_count()) if lib.sched_surface(i) == 0]
            os.write(w, json.dumps(log).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as h: data = h.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else []

def families(c):
    """Replays of schedules, by property."""
    fam = []
    pick = random.Random(c.seed)
    k = 1 if c.thorough else 0
    plan = {'C05': [(2, 2, 0, 2 + k), (3, 3, 1, 1 + k), (3, 2, 0, 1 + k), (4, 2, 2, 1)],
            'C15': [(2, 2, 1, 2 + k), (3, 3, 1, 1 + k), (4, 2, 2, 1)]}[c.prop]
    known = {}
    for n, t, v, sw in plan:
        if v not in known: known[v] = probe(v)
        points = known[v]
        if len(points) < 2 or 'spectra' not in points: continue
        limit = 20000 if c.thorough else 420
        h = schedules(c, n, t, points, v, sw)
        if len(h) > limit: h = pick.sample(h, limit)
        parts = max(1, min(40, len(h) // 25))
        fam += [('sched-%d-%d-%d-%d' % (n, t, v, i), s_sched(n, t, v, h[i::parts])) for i in range(parts)]
    # Attempts to enter the critical section twice: the real code makes the second thread wait.
    for n, t, v in ((2, 2, 1), (4, 2, 2)):
        if v not in known: known[v] = probe(v)
        if 'report_mid' not in known[v]: continue
        h = schedules(c, n, t, known[v], v, 2 if n == 2 else 1, locked=False)
        pick.shuffle(h)
        h = h[:400 if c.thorough else 48]
        fam += [('critical-%d-%d-%d-%d' % (n, t, v, i), s_sched(n, t, v, h[i::8])) for i in range(8)]
    return fam
