"""Deviations of load arguments generated by spec/GenLoad.tla, replayed on the library."""
import json, random
import numpy as np
import tlc
from data import *
from rec import LOADMATS, LOADVECS
from scen import options, choose

CFG = """SPECIFICATION Spec
CONSTANTS
 MaxDevs = %d
 Asyms = {TRUE, FALSE}
 Fluxes = {TRUE, FALSE}
INVARIANTS BaseAccepted SinglesBreak NoRepair Export
CHECK_DEADLOCK FALSE
"""

def generate(c, n):
    code, out = tlc.tlc('GenLoad', CFG % n)
    if code: raise tlc.TlcError('GenLoad: the specification is inconsistent\n' + out[-3000:])
    h = [json.loads(json.loads(x)[5:]) for x in out.splitlines() if x.startswith('"LOAD ')]
    h.sort(key=lambda x: json.dumps(x, sort_keys=True))
    c.model('GenLoad, %d deviations' % n, *tlc.counts(out), behaviours=len(h))
    return h

def resize(M, r, c):
    """Another shape, the new entries copied from the last ones."""
    out = np.ones((max(r, 0), max(c, 0)))
    k, l = min(out.shape[0], M.shape[0]), min(out.shape[1], M.shape[1])
    out[:k, :l] = M[:k, :l]
    return out

def apply(eq, d):
    k, n, i, v = d['k'], d['n'], d['i'], d['d']
    if k == 'mat':
        M = eq.get(n, np.zeros((0, 0)))
        eq[n] = np.zeros((0, 0)) if i == -9 else resize(M, M.shape[0] + i, M.shape[1] + v)
    elif k == 'vec':
        x = eq.get(n, np.zeros(0))
        eq[n] = np.zeros(0) if v == -9 else x[:v] if v < 0 else np.append(x, 0.5)
    elif k == 'int': eq[n] = int(eq[n]) + v
    elif k == 'set': eq[n] = v
    elif k == 'len': eq[n] = eq[n][:-1] if v < 0 else np.append(eq[n], 0)
    elif k == 'tab':
        eq[n] = eq[n].copy(); eq[n][i - 1] += v
    elif k == 'less':
        eq['ns'] -= 1
        for a in LOADVECS + ['iotas']:
            if len(eq.get(a, ())): eq[a] = eq[a][:-1]
        for a in LOADMATS:
            if a in eq and eq[a].shape[1]: eq[a] = eq[a][:, :-1]
    elif k == 'asym': eq['asym'] = not eq['asym']

def s_loads(todo):
    def f(r, rng):
        good = {}
        for asym in (True, False):
            for flux in (True, False):
                good[asym, flux] = equilibrium(rng, nfp=2, mpol=2, ntor=1, mnyq=1, nnyq=2, ns=3, full=True, asym=asym, flux=flux)
        r.new('a'); r.set('a', 'verbose', 0)
        for h in todo:
            eq = dict(good[h['b']['asym'], h['b']['flux']])
            for d in h['d']: apply(eq, d)
            r.header('a', eq)
            r.want = 'ok' if h['ok'] else 'error'
            r.load('a', eq)
            if rng.random() < 0.05:
                e = good[bool(rng.integers(2)), bool(rng.integers(2))]
                r.header('a', e); r.load('a', e); options(r, 'a', 1, int(rng.integers(0, 2)))
                r.run('a')
                if rng.random() < 0.3: r.new('a'); r.set('a', 'verbose', 0)
    return f

def families(c):
    pick = random.Random(c.seed)
    todo = generate(c, 1)
    pairs = generate(c, 2)
    ok, bad = [h for h in pairs if h['ok']], [h for h in pairs if not h['ok']]
    f = 16 if c.thorough else 1
    todo += pick.sample(ok, min(len(ok), 500 * f)) + pick.sample(bad, min(len(bad), 2200 * f))
    pick.shuffle(todo)
    n = 32 if not c.thorough else 320
    return [('loads-%d' % i, s_loads(todo[i::n])) for i in range(n)]
