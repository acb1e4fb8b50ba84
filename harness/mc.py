"""Behaviours of spec/BoozMC.tla, replayed on the library with real numbers.

generate() runs TLC: exhaustively to a bounded depth (each transition of the
symbolic state graph becomes one behaviour) or by random simulation (long
behaviours). s_replay() performs such behaviours.
"""
import json, os, random, time
import numpy as np
import tlc
from data import *
from rec import LOADMATS, LOADVECS

ALL = 'S N A Z L P'
CALLS = 'new header load setup wout set run write readb bad'
EDITS = 'res1 res2 badres surfs1 surfs2 surfs3 iota asym nfp'
# name: (equilibria, calls, edits, depth, objects, files)
MODELS = {
    'all':      (ALL, CALLS, EDITS, 3, 'a b', 'f'),
    'symmetry': ('S A Z', 'setup set run', 'res1 surfs2 asym', 6, 'a', ''),
    'symmetry2': ('A Z', 'setup set run write readb', 'res1 asym', 5, 'a b', 'f'),
    'runs':     ('S N L', 'setup set run new', 'res1 res2 surfs3', 5, 'a', ''),
    'twoobj':   ('S N', 'setup set run', 'res1 surfs2', 5, 'a b', ''),
    'files':    ('A P', 'setup wout set run write readb', 'res1', 6, 'a', 'f'),
    'files2':   ('A P', 'setup run write readb bad', 'res2', 5, 'a b', 'f'),
    'writes':   ('A P', 'setup set run write bad', 'surfs1 asym', 5, 'a', 'f'),
    'errors':   ('S L', 'header load set run bad', 'surfs3 badres nfp', 5, 'a', ''),
    'wouterrors': ('N A', 'wout run write readb bad', '', 5, 'a', 'f'),
    'new':      ('A', 'new setup run write readb', '', 6, 'a b', 'f'),
}
DEEPER = {'all': 4, 'symmetry': 8, 'symmetry2': 6, 'runs': 7, 'twoobj': 6, 'files': 8, 'files2': 6, 'writes': 6, 'errors': 7, 'wouterrors': 6, 'new': 7}
USES = {'C03': ['runs', 'symmetry'], 'C04': ['runs'], 'C06': ['symmetry', 'symmetry2'], 'C07': ['all', 'twoobj', 'runs'], 'C08': ['errors'],
        'C09': ['errors', 'all'], 'C10': ['wouterrors'], 'C11': ['files', 'writes'], 'C12': ['files', 'files2', 'symmetry2'], 'C13': ['wouterrors', 'files2'], 'C17': ['new']}

CFG = """SPECIFICATION Spec
CONSTANTS
 Objects = %s
 FileNames = %s
 Equilibria = %s
 Calls = %s
 Edits = %s
 Depth = %d
 Exporting = %s
VIEW View
CONSTRAINT Shallow
INVARIANTS TypeOK FunctionOfInputs EqualInputsEqualResults SymmetryConsistent AsymEmpty Independent RoundTrip %s
PROPERTIES NoInterference ReadIsWritten
%s
CHECK_DEADLOCK FALSE
"""
def tla_set(s):
    return '{' + ', '.join('"%s"' % x for x in s.split()) + '}'

def generate(c, name, depth, objs='a b', files='f', eqs=ALL, calls=CALLS, edits=EDITS, simulate=0, seed=1):
    cfg = CFG % (tla_set(objs), tla_set(files), tla_set(eqs), tla_set(calls), tla_set(edits), depth, 'TRUE',
                 'ExportEnd' if simulate else '', '' if simulate else 'ACTION_CONSTRAINT Export')
    args = ('-simulate', 'num=%d' % simulate, '-depth', str(depth + 1), '-seed', str(seed)) if simulate else ()
    t = time.time()
    code, out = tlc.tlc('BoozMC', cfg, args=args, workers=1 if simulate else 8)
    if code:
        raise tlc.TlcError('BoozMC (%s): the specification is inconsistent\n%s' % (name, out[-3000:]))
    h = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            h.append(json.loads(json.loads(line)[5:]))
    gen, distinct = tlc.counts(out)
    if os.environ.get('TIMES'): print('BoozMC %s: %.0f s' % (name, time.time() - t))
    if simulate:
        # TLC prints every successor of the last but one state: keep one.
        h = list({json.dumps(x[:-1]): x for x in h}.values())
        gen = distinct = sum(len(x) for x in h)
    c.model('BoozMC %s, %d calls%s' % (name, depth, ' (simulation)' if simulate else ''), gen, distinct, behaviours=len(h))
    return h

# ------------------------------------------------------------------ replay
def pool(rng):
    """Real equilibria for the names of the model."""
    S = equilibrium(rng, nfp=2, asym=False, mpol=2, ntor=1, ns=3, mnyq=2, nnyq=1, full=True, flux=False)
    psi = lambda ns: {v: rng.standard_normal(ns) for v in LOADVECS}
    N = dict(S, nfp=3, xn=S['xn'] // 2 * 3, xn_nyq=S['xn_nyq'] // 2 * 3, **psi(3))
    A = equilibrium(rng, nfp=2, asym=True, mpol=2, ntor=1, ns=3, mnyq=2, nnyq=1, full=True, flux=True)
    Z = dict(S, asym=True)
    for k in ('rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0'): Z[k] = 0 * A[k]
    L = equilibrium(rng, nfp=1, asym=True, mpol=2, ntor=2, ns=4, mnyq=3, nnyq=2, full=True, flux=False)
    P = equilibrium(rng, nfp=5, asym=False, mpol=1, ntor=0, ns=2, mnyq=1, nnyq=0, full=True, flux=True)
    return dict(S=S, N=N, A=A, Z=Z, L=L, P=P)

# Resolutions for res1 and res2: unrelated, or with as many modes or as many grid points.
PAIRS = [((2, 1), (3, 0)), ((2, 1), (1, 2)), ((4, 1), (2, 2)), ((3, 1), (2, 2)), ((2, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 1), (5, 0))]

def edit(r, o, c, iota, res=PAIRS[0]):
    b = r.objs[o]
    if c in ('res1', 'res2', 'badres'):
        m, n = dict(res1=res[0], res2=res[1], badres=(0, 1))[c]
        r.sets(o, mboz=m, nboz=n)
    elif c[:5] == 'surfs': r.set(o, 'compute_surfs', np.array(dict(surfs1=[0], surfs2=[1, 0], surfs3=[1, 1, 2])[c]))
    elif c == 'iota': r.set(o, 'iota', iota[:b.ns_in].copy())
    elif c == 'nfp': r.set(o, 'nfp', 7)
    elif c == 'asym': r.set(o, 'asym', not b.asym)

def s_replay(hists, pristine=0.0):
    import scen
    def f(r, rng):
        E = pool(rng)
        iota = rng.uniform(0.3, 1.1, 8)
        res = scen.choose(rng, *PAIRS)
        for k, e in E.items(): write_wout('w_%s.nc' % k, e)
        write_wout('w_bad.nc', dict(E['A'], xm=E['A']['xm'] + 1))
        open('w_text.nc', 'w').write('nothing')
        r.mkfile(*['w_%s.nc' % k for k in list(E) + ['bad', 'text']], 'missing.nc')
        for i, h in enumerate(hists):
            mine = {}
            def obj(o):
                if o not in mine:
                    mine[o] = '%s%d' % (o, i); r.new(mine[o]); r.set(mine[o], 'verbose', 0)
                return mine[o]
            for o in ('a', 'b'):
                if any(c['o'] == o for c in h): obj(o)
            fname = lambda f: 'w_%s.nc' % f if f in ('text', 'A') else 'missing.nc' if f == 'missing' else 'f%d_%s.nc' % (i, f)
            for c in h:
                o, op, want = obj(c['o']), c['op'], c.get('want')
                if op == 'new': r.new(o); r.set(o, 'verbose', 0)
                elif op in ('header', 'load', 'setup'):
                    e = E[c['e']]
                    if op != 'load': r.header(o, e)
                    if op != 'header':
                        args = e if c['flux'] else {k: v for k, v in e.items() if k not in LOADVECS}
                        if c.get('bad'):
                            t = [x for x in scen.breakages(rng, e) if not x[1] and (x[0] in LOADMATS or x[0] == 'iotas')]
                            args = dict(args, **scen.choose(rng, *t)[2])
                        r.want = want
                        r.load(o, args)
                elif op == 'set': edit(r, o, c['c'], iota, res)
                elif op == 'run':
                    r.want = want
                    if r.run(o, threads=int(rng.integers(1, 4))) and rng.random() < pristine: r.pristine(o)
                elif op == 'wout':
                    f = c['f']
                    r.want = want; r.wout(o, 'missing.nc' if f == 'missing' else 'w_%s.nc' % f, flux=c['flux'])
                elif op == 'write': r.want = want; r.write(o, fname(c['f']))
                elif op == 'readb': r.want = want; r.readb(o, fname(c['f']))
                else: raise ValueError(op)
            for o in mine.values():
                r.drop(o)
            for c in h:
                if c['op'] == 'write':
                    if os.path.exists(fname(c['f'])): os.remove(fname(c['f']))
    return f

def families(c):
    """Replays for the property of this check."""
    pick = random.Random(c.seed)
    uses = USES.get(c.prop, [])
    hists = []
    for name in uses:
        eqs, calls, edits, depth, objs, files = MODELS[name]
        h = generate(c, name, DEEPER[name] if c.thorough else depth, objs, files, eqs, calls, edits)
        # A behaviour that is the beginning of another one need not be replayed twice.
        n = 20000 if c.thorough else 2000 // len(uses)
        if len(h) > n:
            w = [len(x) for x in h]
            h = pick.choices(h, weights=w, k=n)
        hists += h
    if uses:
        hists += generate(c, 'all', 24, simulate=400 if c.thorough else 40, seed=c.seed)
    pick.shuffle(hists)
    size = 25
    return [('replay-%d' % i, s_replay(hists[i * size:(i + 1) * size], 0.15 if c.prop == 'C07' else 0)) for i in range((len(hists) + size - 1) // size)]
