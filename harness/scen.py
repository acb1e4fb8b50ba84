"""Scenarios: sequences of calls on the real library, by property.

families(prop, thorough) gives a list of (name, function(recorder, rng)).
Nothing here says what the calls should do: that is decided by the specification.
"""
import glob, os, shutil
import numpy as np
from data import *
from rec import INPUTS, OUTPUTS, ATTRS, INMAT, LOADMATS, LOADVECS

TESTFILES = os.environ.get('BOOZ_REPO', '/repo') + '/tests/test_files'
ASYM_IN = ['rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns']

def choose(rng, *c):
    return c[int(rng.integers(len(c)))]

def options(r, o, mboz=None, nboz=None, surfs=None):
    if mboz is not None: r.set(o, 'mboz', int(mboz))
    if nboz is not None: r.set(o, 'nboz', int(nboz))
    if surfs is not None: r.set(o, 'compute_surfs', np.asarray(surfs, dtype=int))

def radii(r, rng, o, p=0.25):
    """Sometimes, radii of the caller's choice."""
    if rng.random() < p:
        n = len(r.objs[o].s_in)
        k = rng.integers(5)
        if k == 0: v = np.sort(rng.random(n))
        elif k == 1: v = np.sort(rng.random(n))[::-1]
        elif k == 2: v = rng.uniform(0.01, 3, n)
        elif k == 3: v = np.full(n, rng.random())
        else: v = ((np.arange(n) + 0.5) / n) ** 2
        r.set(o, 's_in', v)

# ------------------------------------------------------------------ transform
def s_transform(res=None, runs=1, threads=None, verbose=0, **kw):
    def f(r, rng):
        eq = equilibrium(rng, **kw)
        if not verbose and rng.random() < 0.08:   # (only its square matters)
            for k in ('bmnc0', 'bmns0'):
                if k in eq: eq[k] = -eq[k]
        r.setup('a', eq, verbose=verbose)
        for _ in range(runs):
            mboz, nboz = res or resolution(rng)
            options(r, 'a', mboz, nboz, selection(rng, eq['ns'] - 1))
            r.run('a', threads=threads or int(rng.integers(1, 5)))
    return f

def s_scaled(r, rng):
    """Very large and very small units."""
    eq = scaled(rng, equilibrium(rng, ns=choose(rng, 2, 3, 4)))
    r.setup('a', eq, verbose=choose(rng, 0, 0, 1))
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')

def s_wide(r, rng):
    """High mode numbers in sparse tables."""
    eq = wide(rng, {})
    r.setup('a', eq)
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')

def s_large_grid(r, rng):
    """One direction with a very fine grid."""
    eq = equilibrium(rng, mpol=choose(rng, 1, 2), ntor=choose(rng, 0, 1), ns=3)
    r.setup('a', eq)
    options(r, 'a', *choose(rng, (int(rng.integers(100, 320)), 0), (int(rng.integers(60, 200)), 1), (1, int(rng.integers(60, 300))), (2, int(rng.integers(40, 100)))),
            [int(rng.integers(0, 2))])
    r.run('a')

def s_huge_grid(r, rng):
    """Many modes on a very fine grid."""
    eq = equilibrium(rng, mpol=choose(rng, 1, 2), ntor=1, ns=choose(rng, 2, 3))
    r.setup('a', eq)
    k = int(rng.integers(34, 46))
    options(r, 'a', k + 8, k, [0])
    r.run('a')

def s_default_resolution(**kw):
    """Run exactly what the load selected."""
    def f(r, rng):
        eq = equilibrium(rng, mpol=choose(rng, 1, 2, 3), ntor=choose(rng, 0, 1, 2), ns=choose(rng, 2, 3, 4), **kw)
        r.setup('a', eq)
        r.run('a')
    return f

def s_edited(r, rng):
    """Change input attributes between load and run."""
    eq = equilibrium(rng)
    r.setup('a', eq)
    n = eq['ns'] - 1
    options(r, 'a', *resolution(rng), selection(rng, n))
    b = r.objs['a']
    for _ in range(int(rng.integers(1, 4))):
        k = rng.integers(5)
        if k == 0:
            r.set('a', 'iota', rng.uniform(-1.5, 1.5, n))
        elif k == 4: radii(r, rng, 'a', 1)
        elif k == 1:
            a = choose(rng, *[m for m in INMAT if getattr(b, m).size])
            M = getattr(b, m_copy(a)).copy()
            M *= rng.uniform(0.5, 1.5, M.shape)
            r.set('a', a, M)
        elif k == 2:   # reorder the modes after the first one
            mx = eq['mnmax']
            if mx > 2:
                p = np.concatenate([[0], 1 + rng.permutation(mx - 1)])
                xm, xn = b.xm[p].copy(), b.xn[p].copy()
                Ms = {a: getattr(b, a)[p].copy() for a in ['rmnc', 'zmns', 'lmns'] + (ASYM_IN[:3] if eq['asym'] else [])}
                r.set('a', 'xm', xm); r.set('a', 'xn', xn)
                for a in Ms: r.set('a', a, Ms[a])
        else:
            mq = eq['mnmax_nyq']
            if mq > 2:
                p = np.concatenate([[0], 1 + rng.permutation(mq - 1)])
                xm, xn = b.xm_nyq[p].copy(), b.xn_nyq[p].copy()
                Ms = {a: getattr(b, a)[p].copy() for a in ['bmnc', 'bsubumnc', 'bsubvmnc'] + (ASYM_IN[3:] if eq['asym'] else [])}
                r.set('a', 'xm_nyq', xm); r.set('a', 'xn_nyq', xn)
                for a in Ms: r.set('a', a, Ms[a])
        r.run('a')
def m_copy(a): return a

def s_manual(r, rng):
    """Input arrays assigned one by one, without any load."""
    eq = equilibrium(rng)
    r.setup('a', eq)
    r.clone('b', 'a')
    options(r, 'b', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('b')

def s_single_mode(r, rng):
    """Each input amplitude alone (with the constant parts), so that no term hides another."""
    asym = bool(rng.random() < 0.7)
    nfp = choose(rng, 1, 2, 5)
    eq = equilibrium(rng, nfp=nfp, asym=asym, mpol=3, ntor=choose(rng, 0, 2), ns=3, full=True, current=0.7)
    keep = [0]
    for k in LOADMATS:
        if k in eq:
            M = eq[k]
            i = rng.integers(M.shape[0])
            N = np.zeros_like(M)
            N[i] = M[i]
            if k in ('rmnc0', 'bmnc0', 'bsubumnc0', 'bsubvmnc0'):
                N[0] = M[0]
            if rng.random() < 0.4 and k not in ('rmnc0', 'bmnc0', 'bsubumnc0', 'bsubvmnc0'):
                N[:] = 0
            eq[k] = N
    r.setup('a', eq)
    options(r, 'a', *resolution(rng), [1, 0])
    r.run('a')

def s_real_file(name, mboz, nboz, nsurf):
    """The equilibria of the repository's tests."""
    def f(r, rng):
        w = 'wout_%s.nc' % name
        shutil.copy(os.path.join(TESTFILES, w), w)
        r.mkfile(w)
        r.new('a'); r.set('a', 'verbose', 0)
        r.wout('a', w, flux=bool(rng.random() < 0.5))
        n = r.objs['a'].ns_in
        options(r, 'a', mboz, nboz, rng.integers(0, n, nsurf))
        r.run('a')
    return f

def real_names():
    return sorted(os.path.basename(f)[5:-3] for f in glob.glob(TESTFILES + '/wout_*.nc'))

# ------------------------------------------------------------------ convergence
def s_converge(steps=3, **kw):
    def f(r, rng):
        eq = equilibrium(rng, smooth=True, mpol=kw.get('mpol', choose(rng, 2, 3)), ntor=kw.get('ntor', choose(rng, 0, 1, 2)), ns=3,
                         mnyq=3, full=True, nfp=kw.get('nfp'), asym=kw.get('asym'))
        mb = 14
        if kw.get('far') == 'nu':       # angles that differ by more than half a turn
            eq['iotas'] = eq['iotas'] / np.abs(eq['iotas']).max() * rng.uniform(0.03, 0.07)
            i = np.where((eq['xm_nyq'] == 1) & (eq['xn_nyq'] == 0))[0][0]
            eq['bsubumnc0'][i] = eq['bsubvmnc0'][0] * rng.uniform(3.3, 5) * choose(rng, 1, -1)
            mb = 44
        elif kw.get('far') == 'lambda':
            i = np.where((eq['xm'] == 0) & (eq['xn'] == eq['nfp']))[0][0]
            eq['lmns0'][i, 1:] = rng.uniform(3.3, 4) * choose(rng, 1, -1); mb = 10
        r.setup('a', eq)
        options(r, 'a', surfs=choose(rng, [1], [0, 1], [1, 0]))
        nb = 0 if eq['ntor_nyq'] == 0 and eq['ntor'] == 0 else 36 if kw.get('far') == 'lambda' else 9
        for k in range(steps):
            options(r, 'a', mb + 3 * k + int(rng.integers(0, 3)), nb + (2 * k + int(rng.integers(0, 2)) if nb else 0))
            r.run('a')
        if kw.get('long'):   # very many modes in one direction
            if nb: options(r, 'a', 14, int(rng.integers(25, 50)), surfs=[1])
            else: options(r, 'a', int(rng.integers(60, 300)), 0, surfs=[1])
            r.run('a')
        if kw.get('huge'):
            options(r, 'a', int(rng.integers(40, 54)), int(rng.integers(32, 46)), surfs=[1])
            r.run('a')
    return f

# ------------------------------------------------------------------ selection
def s_selection(r, rng):
    """The same surfaces in different selections; data of other surfaces changed."""
    eq = equilibrium(rng, ns=choose(rng, 4, 5, 7))
    n = eq['ns'] - 1
    r.setup('a', eq)
    radii(r, rng, 'a')
    mboz, nboz = resolution(rng)
    options(r, 'a', mboz, nboz, np.arange(n))
    for j in rng.choice(n, min(n, 2), replace=False):
        # Alone, in a new process.
        r.pristine('a', compute_surfs=np.array([j]))
    r.run('a', threads=int(rng.integers(1, 5)))
    for _ in range(4):
        options(r, 'a', surfs=selection(rng, n))
        r.run('a', threads=int(rng.integers(1, 5)))
    j = int(rng.integers(n))
    r.clone('b', 'a')
    options(r, 'b', surfs=[j])
    r.run('b')
    # Change everything that belongs to one other surface, then that of all others.
    for others in ([int((j + 1) % n)], [k for k in range(n) if k != j]):
        if not others or others == [j]: continue
        b = r.objs['b']
        iota = b.iota.copy(); iota[others] *= -0.37; r.set('b', 'iota', iota)
        for a in INMAT:
            M = getattr(b, a)
            if M.size:
                M = M.copy(); M[:, others] *= rng.uniform(0.5, 2, (M.shape[0], len(others)))
                r.set('b', a, M)
        r.run('b')
        options(r, 'b', surfs=[others[0], j, j])
        r.run('b')
        options(r, 'b', surfs=[j])

def s_many_surfaces(r, rng):
    eq = equilibrium(rng, ns=26, mpol=2, ntor=1)
    r.setup('a', eq)
    options(r, 'a', int(rng.integers(2, 6)), int(rng.integers(0, 3)), rng.permutation(25))
    r.run('a', threads=8)
    options(r, 'a', surfs=np.arange(25)[rng.integers(0, 25, 3)])
    r.run('a', threads=2)
    # Repetitions, next to each other and at both ends.
    for k in rng.permutation(4)[:2]:
        q = rng.integers(0, 25, int(rng.integers(21, 40)))
        for _ in range(4):
            i, j = rng.integers(0, len(q) - 1, 2); q[j] = q[i]
        if k <= 1: q[-1] = q[0]
        if k == 1: q[1] = q[0]
        if k == 2: q[-2] = q[-1]
        if k == 3: q = np.repeat(q, 2)
        options(r, 'a', surfs=q); r.run('a', threads=choose(rng, 1, 3, 8))

def s_hundreds(r, rng):
    """Hundreds of surfaces."""
    n = int(rng.integers(130, 300))
    eq = thin(rng, equilibrium(rng, ns=n + 1, mpol=2, ntor=choose(rng, 0, 1), mnyq=2), 2)
    r.setup('a', eq, verbose=choose(rng, 0, 1))
    options(r, 'a', choose(rng, 1, 2), choose(rng, 0, 0, 1))
    if rng.random() < 0.5: options(r, 'a', surfs=rng.integers(0, n, int(rng.integers(100, 200))))
    r.run('a', threads=choose(rng, 2, 4, 8))
    r.write('a', 'f.nc'); r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'f.nc')

def s_vast(kind):
    """Sizes far beyond the usual ones: radial grids, selections, numbers of field periods ('long'), modes ('wide'), calls in one process ('often')."""
    def f(r, rng):
        if kind == 'often':
            eq = equilibrium(rng, ns=4, mpol=2, ntor=1, mnyq=2, nnyq=1)
            r.setup('a', eq, verbose=0)
            r.new('c'); r.set('c', 'verbose', 0)
            for k in range(140):
                if k % 7 == 0: options(r, 'a', *choose(rng, (2, 1), (3, 0), (1, 2)), rng.integers(0, 3, 2))
                r.run('a')
                if k % 5 == 0: r.write('a', 'f.nc')
                if k % 5 == 1: r.readb('c', 'f.nc')
            r.pristine('a')
            return
        big = kind == 'long'
        eq = equilibrium(rng, ns=int(rng.integers(260, 1100)) if big else 4, mpol=choose(rng, 1, 2) if big else 2, ntor=choose(rng, 0, 1) if big else 1,
                         mnyq=2, nnyq=1, nfp=choose(rng, 1, 300, 40000) if big else choose(rng, 1, 5), wout=True, full=True, flux=True)
        eq = thin(rng, eq, 1)
        n = eq['ns'] - 1
        write_wout('w.nc', eq, choose(rng, *FORMATS)); r.mkfile('w.nc')
        r.new('a'); r.set('a', 'verbose', 0)
        if rng.random() < 0.5: r.wout('a', 'w.nc', flux=True)
        else: r.header('a', eq); r.load('a', eq)
        def res():
            if big: return (choose(rng, 1, 2), choose(rng, 0, 0, 1))
            return choose(rng, (int(rng.integers(16, 22)), int(rng.integers(19, 24))), (int(rng.integers(130, 300)), choose(rng, 0, 1)), (int(rng.integers(1, 4)), int(rng.integers(130, 200))))
        def sel(): return rng.integers(0, n, int(rng.integers(200, 400)) if big else choose(rng, 1, 2))
        options(r, 'a', *res(), sel()); r.run('a')
        options(r, 'a', surfs=rng.integers(0, n, len(r.objs['a'].compute_surfs))); r.run('a')
        r.write('a', 'f.nc')
        r.new('b'); r.set('b', 'verbose', 0)
        if rng.random() < 0.5: r.header('b', eq); r.load('b', eq); options(r, 'b', 2, 1, [0]); r.run('b')
        r.readb('b', 'f.nc'); r.write('b', 'g.nc')
        if r.objs['a'].asym: r.set('a', 'asym', False)
        r.run('a'); r.write('a', 'g.nc'); r.readb('b', 'g.nc')
    return f

def s_threads(r, rng):
    """The same computation with different numbers of threads."""
    eq = equilibrium(rng, ns=choose(rng, 4, 6, 9), mpol=choose(rng, 2, 3), ntor=choose(rng, 0, 1, 2))
    n = eq['ns'] - 1
    r.setup('a', eq, verbose=choose(rng, 0, 0, 1, 2, 3, 9, -2))
    options(r, 'a', *resolution(rng), selection(rng, n))
    r.pristine('a')
    for t in rng.permutation([1, 2, 3, 5, 8, 16]):
        r.run('a', threads=int(t))

def s_omp(r, rng):
    """Settings of the OpenMP runtime under which a run gets fewer threads than omp_get_max_threads() says."""
    eq = equilibrium(rng, ns=choose(rng, 4, 6, 9), mpol=choose(rng, 2, 3), ntor=choose(rng, 0, 1))
    r.setup('a', eq, verbose=choose(rng, 0, 1))
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.pristine('a')
    for kw in (dict(dynamic=1), dict(dynamic=0, max_active_levels=0), dict(max_active_levels=1, schedule=(1, 1)), dict(schedule=(2, 3)), dict(schedule=(4, 1)), dict(dynamic=1, schedule=(3, 0))):
        r.omp(**kw)
        r.run('a', threads=choose(rng, 1, 2, 3, 7, 24, 64))

def s_environment(i):
    """OpenMP environment variables."""
    envs = [dict(OMP_THREAD_LIMIT='2', OMP_NUM_THREADS='6'), dict(OMP_THREAD_LIMIT='1', OMP_NUM_THREADS='4'), dict(OMP_THREAD_LIMIT='3'),
            dict(OMP_NUM_THREADS='1'), dict(OMP_NUM_THREADS='2,3', OMP_MAX_ACTIVE_LEVELS='2'), dict(OMP_DYNAMIC='true', OMP_NUM_THREADS='40'),
            dict(OMP_SCHEDULE='dynamic,3', OMP_PROC_BIND='true'), dict(OMP_STACKSIZE='256k', OMP_NUM_THREADS='5'), dict(OMP_CANCELLATION='true', OMP_NUM_THREADS='3', OMP_WAIT_POLICY='passive')]
    env = envs[i % len(envs)]
    def f(r, rng):
        eq = equilibrium(rng, ns=choose(rng, 4, 6, 9), mpol=choose(rng, 2, 3), ntor=choose(rng, 0, 1, 2))
        r.setup('a', eq, verbose=choose(rng, 0, 1))
        for k in range(3):
            options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
            r.run('a')             # threads as the environment says
            r.pristine('a')
            r.run('a', threads=int(rng.integers(1, 9)))
    f.env = env
    return f

def s_threads_large(r, rng):
    """Resolutions at which the grids are large."""
    eq = equilibrium(rng, ns=6, mpol=2, ntor=choose(rng, 0, 1), mnyq=2)
    r.setup('a', eq)
    big = int(rng.integers(102, 160))
    res = choose(rng, (big, 0), (big, 1), (int(rng.integers(1, 3)), big // 2), (int(rng.integers(25, 40)), int(rng.integers(12, 20))))
    options(r, 'a', *res, rng.integers(0, 5, int(rng.integers(4, 9))))
    r.pristine('a')
    for t in (6, 3, 8):
        r.run('a', threads=t)

def s_stress(r, rng):
    """Many threads, larger work, twice."""
    eq = equilibrium(rng, ns=17, mpol=3, ntor=2, verb=0) if False else equilibrium(rng, ns=17, mpol=3, ntor=2)
    r.setup('a', eq, verbose=choose(rng, 0, 1))
    options(r, 'a', 8, 5, rng.integers(0, 16, 24))
    r.run('a', threads=1)
    for t in (8, 3, 24):
        r.run('a', threads=t)

# ------------------------------------------------------------------ symmetry
def s_symmetry(r, rng):
    """Symmetric data: declared symmetric, declared asymmetric with zeros, with garbage in ignored arrays."""
    eq = equilibrium(rng, asym=False, ns=choose(rng, 3, 4))
    n = eq['ns'] - 1
    r.setup('a', eq)
    mboz, nboz = resolution(rng)
    options(r, 'a', mboz, nboz, selection(rng, n))
    r.run('a')
    zero = {}
    for a in ASYM_IN:
        like = r.objs['a'].rmnc if a in ASYM_IN[:3] else r.objs['a'].bmnc
        zero[a] = np.zeros(like.shape) * (1 if rng.random() < 0.7 else -1)
    r.clone('b', 'a', asym=True, **zero)
    r.run('b')
    for k in range(2):
        junk = {}
        for a in ASYM_IN:
            like = zero[a]
            junk[a] = choose(rng, rng.standard_normal(like.shape), np.full(like.shape, np.nan), np.full(like.shape, 1e300),
                             rng.standard_normal((2, 2)), np.zeros((0, 0)))
        r.clone('c', 'a', **junk)
        r.run('c')
    # The same object declared one way, then the other, then back.
    r.set('b', 'asym', False); r.run('b')
    r.set('b', 'asym', True); r.run('b')
    for a in ASYM_IN:
        r.set('b', a, rng.standard_normal(zero[a].shape) * 0.05)
    r.run('b')
    r.set('b', 'asym', False); r.run('b')
    if rng.random() < 0.5:   # reload another symmetric equilibrium into the object with asymmetric results
        eq2 = equilibrium(rng, asym=False)
        r.set('b', 'asym', True); r.run('b')
        r.header('b', eq2); r.load('b', eq2)
        options(r, 'b', *resolution(rng))
        r.run('b')

def s_symmetry_vmec(r, rng):
    """The same symmetric equilibrium loaded with and without zero asymmetric arrays."""
    eq = equilibrium(rng, asym=True, zero_asym=True)
    r.setup('a', eq)
    mboz, nboz = resolution(rng)
    s = selection(rng, eq['ns'] - 1)
    options(r, 'a', mboz, nboz, s)
    r.run('a')
    eq2 = dict(eq, asym=False)
    if rng.random() < 0.5:
        for k in LOADMATS:
            if k in ('rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0'):
                eq2[k] = choose(rng, np.zeros((0, 0)), np.full(eq[k].shape, 7.0), np.full((1, 2), np.nan))
    r.setup('b', eq2)
    options(r, 'b', mboz, nboz, s)
    r.run('b')

# ------------------------------------------------------------------ loading
def layout(rng, a):
    """The same numbers in another memory layout or type."""
    if not isinstance(a, np.ndarray) or a.dtype != float: return a
    k = rng.integers(4)
    if k == 0: return np.asfortranarray(a)
    if k == 1: return np.ascontiguousarray(a)
    if k == 2 and a.ndim == 2:
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 3)); b[::2, ::3] = a
        return b[::2, ::3]
    if k == 2 and a.ndim == 1:
        b = np.zeros(len(a) * 2); b[::2] = a
        return b[::2]
    return a

def s_load(**kw):
    def f(r, rng):
        eq = equilibrium(rng, mpol=kw.pop('mpol', None) or choose(rng, 1, 2, 3, 4, 6, 9), ntor=choose(rng, 0, 1, 2, 3, 6, 16),
                         ns=kw.pop('ns', None) or choose(rng, 2, 3, 4, 5, 8, 13), **kw)
        if rng.random() < 0.5:   # unconstrained values, also on the axis and in the unused first column
            for k in LOADMATS:
                if k in eq:
                    eq[k] = rng.standard_normal(eq[k].shape) * 10.0 ** rng.integers(-6, 6)
                    # Amplitudes with m = 3, 5, .. vanish on the axis (s = 0).
                    if k[0] in 'rz':
                        eq[k][(eq['xm'] % 2 == 1) & (eq['xm'] > 1), 0] = 0
            eq['iotas'] = rng.standard_normal(eq['ns'])
        if rng.random() < 0.5:
            eq = {k: layout(rng, v) for k, v in eq.items()}
        r.setup('a', eq, verbose=choose(rng, 0, 0, 1, 2))
        if rng.random() < 0.5:   # again, into the same object
            eq2 = equilibrium(rng, ns=choose(rng, 2, 3, 4, 6))
            r.header('a', eq2); r.load('a', eq2)
    return f

def s_load_wide(r, rng):
    """High mode numbers in sparse tables."""
    eq = wide(rng, dict(ns=choose(rng, 2, 3, 4, 7), mpol=choose(rng, 8, 16, 30, 70)))
    r.setup('a', eq)

def s_load_many(r, rng):
    """Hundreds or thousands of surfaces."""
    eq = equilibrium(rng, mpol=choose(rng, 2, 3, 4), ntor=choose(rng, 0, 1), ns=choose(rng, 101, 130, 258, 300, 513, 800))
    r.setup('a', eq, verbose=choose(rng, 0, 0, 1))

def s_load_flux(r, rng):
    """With flux profiles, then without, then with."""
    eq = equilibrium(rng, flux=True)
    r.setup('a', eq)
    none = {k: v for k, v in eq.items() if k not in LOADVECS}
    if rng.random() < 0.5: r.load('a', none)
    else: r.load('a', dict(none, **{k: np.zeros(0) for k in LOADVECS}))
    r.load('a', eq)

# ------------------------------------------------------------------ rejection
def breakages(rng, eq):
    """All single inconsistencies of the arguments of a load: (name, attributes, arguments)."""
    out = []
    ns = eq['ns']
    def arg(name, v): out.append(('%s' % name, {}, {name: v}))
    def attr(**kw): out.append((','.join(kw), kw, {}))
    mats = [m for m in LOADMATS if m in eq]
    for m in mats:
        M = eq[m]
        for N in (np.vstack([M, M[:1]]), M[:-1], np.hstack([M, M[:, :1]]), M[:, :-1], M.T.copy(), np.zeros((0, 0)),
                  np.vstack([M, M[:1]])[:, :-1]):
            arg(m, N)
    arg('iotas', eq['iotas'][:-1]); arg('iotas', np.append(eq['iotas'], 0.5)); arg('iotas', np.zeros(0))
    flux = {v: eq[v] if v in eq else np.ones(ns) for v in LOADVECS}
    for v in LOADVECS:
        for x in (np.ones(ns - 1), np.ones(ns + 1), np.zeros(0), np.ones(1)):
            out.append(('flux ' + v, {}, dict(flux, **{v: x})))
    for n in (0, 1, -1, ns + 1, ns - 1):
        arg('ns', int(n))
    one = {m: eq[m][:, :1].copy() for m in mats}
    out.append(('one surface', {}, dict(one, ns=1, iotas=eq['iotas'][:1], **({v: flux[v][:1] for v in LOADVECS} if 'phips' in eq else {}))))
    for q in ('', '_nyq'):
        xm, xn, mx = eq['xm' + q], eq['xn' + q], eq['mnmax' + q]
        attr(**{'mnmax' + q: mx + 1}); attr(**{'mnmax' + q: mx - 1}); attr(**{'mnmax' + q: 0})
        attr(**{'xm' + q: np.append(xm, 1)}); attr(**{'xm' + q: xm[:-1]}); attr(**{'xn' + q: np.append(xn, 0)}); attr(**{'xn' + q: xn[:-1]})
        attr(**{'xm' + q: np.zeros(0, int), 'xn' + q: np.zeros(0, int)})
        def edit(v, i, x):
            w = v.copy(); w[i] = x; return w
        attr(**{'xm' + q: edit(xm, 0, 1)}); attr(**{'xn' + q: edit(xn, 0, eq['nfp'])})
        attr(**{'xn' + q: edit(xn, mx - 1, xn[mx - 1] + eq['nfp'])})
        i = int(rng.integers(mx))
        attr(**{'xm' + q: edit(xm, i, -1)}); attr(**{'xm' + q: edit(xm, i, 50)})
        attr(**{'xn' + q: edit(xn, i, xn[i] + eq['nfp'] * 40)}); attr(**{'xn' + q: edit(xn, i, -eq['nfp'] * 40)})
        if eq['nfp'] > 1:
            attr(**{'xn' + q: edit(xn, i, xn[i] + 1)})
        attr(**{'ntor' + q: eq['ntor' + q] + 1}); attr(**{'ntor' + q: eq['ntor' + q] - 1})
        attr(**{'mpol' + q: 0 if q == '' else -1})
    attr(nfp=0); attr(nfp=-1); attr(nfp=-eq['nfp'])
    if eq['ntor'] > 0 or eq['ntor_nyq'] > 0:
        attr(nfp=eq['nfp'] + 1); attr(nfp=eq['nfp'] * 2)
    if not eq['asym']:
        attr(asym=True)
    # Accepted: what does not matter.
    if not eq['asym']:
        out.append(('unused arrays', {}, {'rmns0': np.ones((1, 1)), 'bmns0': np.ones((2, 3))}))
    attr(mpol=eq['mpol'] + 2); attr(mpol_nyq=eq['mpol_nyq'] + 2)
    return out

def s_reject_load(part, parts, pairs=False):
    def f(r, rng):
        eq = equilibrium(rng, asym=None if pairs else bool(part % 2), ns=choose(rng, 3, 4), mpol=choose(rng, 2, 3), ntor=choose(rng, 1, 2), full=True, flux=choose(rng, False, True))
        todo = breakages(rng, eq)
        if pairs:
            cases = [[todo[i] for i in rng.integers(0, len(todo), 2)] for _ in range(8)]
        else:
            cases = [[t] for t in todo[part // 2::parts // 2]]
        for case in cases:
            x, args = dict(eq), dict(eq)
            for name, at, ar in case:
                x.update(at); args.update(ar)
            r.new('a'); r.set('a', 'verbose', 0)
            r.header('a', x)
            if not r.load('a', args):
                # The object still works with consistent data.
                if rng.random() < 0.3:
                    r.header('a', eq); r.load('a', eq)
                    options(r, 'a', 2, 1)
                    r.run('a')
    return f

def s_reject_run(r, rng):
    eq = equilibrium(rng, ns=choose(rng, 2, 4))
    n = eq['ns'] - 1
    r.setup('a', eq)
    options(r, 'a', 3, 2)
    if rng.random() < 0.5:
        r.run('a')
    bad = [[-1], [n], [n + 1], [0, n], [-1, 0], [0, 0, n + 100], [2**31 - 1], [-2**31], [n - 1, -5]]
    for v in (-1, n, -7, n + 3):   # anywhere in a longer list
        q = rng.integers(0, n, int(rng.integers(3, 30))); q[rng.integers(1, len(q) - 1)] = v; bad.append(q)
    for i in rng.permutation(len(bad)):
        options(r, 'a', surfs=bad[i]); r.run('a')
    options(r, 'a', surfs=[n - 1]); r.run('a')
    for mb, nb in ((0, 2), (-1, 2), (3, -1), (0, 0), (-5, -5), (1, 0), (3, -2**31), (-2**31, 1), (1, 3)):
        options(r, 'a', mb, nb); r.run('a')
    options(r, 'a', surfs=[]); r.run('a')

def s_reject_state(r, rng):
    """Run on objects that do not hold complete input data."""
    r.new('z'); r.set('z', 'verbose', 0)
    r.run('z')
    options(r, 'z', surfs=[0]); r.run('z')
    eq = equilibrium(rng, ns=4, mpol=2, ntor=1)
    r.setup('a', eq)
    options(r, 'a', 2, 1)
    r.run('a')
    names = ['rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc'] + (ASYM_IN if eq['asym'] else [])
    for a in names:
        M = getattr(r.objs['a'], a).copy()
        for N in (M[:, :-1], M[:-1], np.zeros((0, 0))):
            r.set('a', a, N.copy()); r.run('a')
        r.set('a', a, M)
    for a in ('iota', 's_in'):
        v = getattr(r.objs['a'], a).copy()
        r.set('a', a, v[:-1].copy()); r.run('a')
        r.set('a', a, v)
    r.run('a')

def s_reject_tables(r, rng):
    """Run after an assignment that makes mode tables, largest mode numbers and nfp disagree
    (or still agree: the specification decides)."""
    eq = equilibrium(rng, ns=3, mpol=choose(rng, 1, 2, 3), ntor=choose(rng, 0, 1, 2))
    r.setup('a', eq)
    options(r, 'a', 2, 1, [0])
    r.run('a')
    nfp, nfp2 = eq['nfp'], max(1, eq['nfp'])
    edits = [('nfp', v) for v in (0, -1, -nfp, 2 * nfp, 7)]
    for q, mx in (('', eq['mpol'] - 1), ('_nyq', eq['mpol_nyq'])):
        mn, nt, size = 'mpol' + q, 'ntor' + q, 'mnmax' + q
        edits += [(mn, eq[mn] + d) for d in (-1, 1, 3, -eq[mn], -eq[mn] - 1)] + [(nt, eq[nt] + d) for d in (-1, 2, -eq[nt], -eq[nt] - 1)]
        edits += [(size, eq[size] + d) for d in (-1, 1, 5, -eq[size], -eq[size] - 1)]
        for v in ('xm', 'xn'):
            x = eq[v + q]
            edits += [(v + q, x[:0]), (v + q, x[:-1]), (v + q, np.append(x, x[-1:]))]
            for d in ((1, -1, mx + 1, -mx - 1, 1000, -1000) if v == 'xm' else (nfp2, -nfp2, 1, -1, (2 * eq[nt] + 1) * nfp2, -(2 * eq[nt] + 1) * nfp2, 100 * nfp2, -100 * nfp2)):
                k = choose(rng, 0, len(x) - 1, int(rng.integers(len(x))))
                y = x.copy(); y[k] += d; edits.append((v + q, y))
    for i in rng.permutation(len(edits))[:30]:
        a, v = edits[i]
        old = eq[a].copy() if isinstance(v, np.ndarray) else eq[a]
        r.set('a', a, v); r.run('a')
        r.set('a', a, old)
    r.run('a')

def s_write_reject(r, rng):
    """Writing without results, or with inputs that no longer fit them."""
    r.new('z'); r.set('z', 'verbose', 0)
    r.write('z', 'z.nc')
    options(r, 'z', surfs=[0]); r.write('z', 'z.nc')
    eq = equilibrium(rng, ns=choose(rng, 3, 4), mpol=2, ntor=1)
    n = eq['ns'] - 1
    r.setup('a', eq)
    r.write('a', 'a.nc')
    if rng.random() < 0.5:   # an existing file
        open('a.nc', 'w').write('something'); r.mkfile('a.nc')
    surfs = rng.integers(0, n, 2)
    options(r, 'a', 2, 1, surfs); r.write('a', 'a.nc')
    r.run('a')
    ok = r.last['out'] == 'ok'
    for i in range(4):
        b = r.objs['a']
        k = int(rng.integers(9))
        if k == 0: a, v = 'compute_surfs', surfs[:1]
        elif k == 1: a, v = 'compute_surfs', surfs[:0]
        elif k == 2: a, v = 'compute_surfs', np.append(surfs, surfs)
        elif k == 3: a, v = 'asym', not eq['asym']
        elif k == 4: a, v = 'ns_in', n + 1
        elif k == 5: a, v = 'iota', np.asarray(b.iota)[:-1].copy()
        elif k == 6: a, v = 'iota', np.zeros(0)
        elif k == 7: a, v = 'ns_in', n + 50
        else: a, v = choose(rng, 'phip', 'chi', 'pres', 'phi'), rng.standard_normal(choose(rng, 1, n))
        old = getattr(b, a)
        old = old.copy() if isinstance(old, np.ndarray) else old
        r.set('a', a, v.copy() if isinstance(v, np.ndarray) else v)
        r.write('a', choose(rng, 'a.nc', 'b%d.nc' % i))
        if rng.random() < 0.3: r.run('a')
        r.set('a', a, old)
    r.run('a'); r.write('a', 'a.nc')

def s_accept_large(r, rng):
    """Consistent data with large sizes are not rejected."""
    eq = thin(rng, equilibrium(rng, mpol=choose(rng, 2, 12, 40), ntor=choose(rng, 0, 2, 12), ns=choose(rng, 3, 90), nfp=choose(rng, 1, 5, 40, 1000), mnyq=choose(rng, 12, 60)), 3)
    r.setup('a', eq)
    options(r, 'a', *choose(rng, (int(rng.integers(65, 300)), 0), (1, int(rng.integers(65, 300))), (int(rng.integers(65, 130)), 1)), rng.integers(0, eq['ns'] - 1, choose(rng, 1, 2)))
    r.run('a')
    options(r, 'a', 1, 0, rng.integers(0, eq['ns'] - 1, 200)); r.run('a')

def s_accept_used(r, rng):
    """Consistent data of any size into an object that held something else."""
    r.new('a'); r.set('a', 'verbose', 0)
    for k in range(5):
        eq = equilibrium(rng, ns=choose(rng, 2, 3, 5, 9))
        r.header('a', eq); r.load('a', eq)
        if rng.random() < 0.7:
            options(r, 'a', int(rng.integers(1, 5)), int(rng.integers(0, 3)))
            if rng.random() < 0.5: options(r, 'a', surfs=selection(rng, eq['ns'] - 1))
            r.run('a')
            if rng.random() < 0.3:
                r.write('a', 'f.nc'); r.readb('a', 'f.nc')

# ------------------------------------------------------------------ wout files
FORMATS = ['classic', 'offset64', 'data64', 'netcdf4', 'netcdf4classic']
def wout_types(rng):
    return dict(s=choose(rng, 'int', 'int', 'double', 'short'), r=choose(rng, 'double', 'double', 'double', 'float'),
                x=choose(rng, 'double', 'int', 'float', 'short'))

def decoys(rng, eq):
    """Other variables of VMEC's files, and unknown ones."""
    ns, q = eq['ns'], eq['mnmax_nyq']
    all_ = [(v, 'double', ['radius'], rng.standard_normal(ns)) for v in ('zzz', 'iotaf', 'presf', 'phipf_', 'phips', 'chipf', 'buco', 'bvco', 'vp', 'mass', 'jcuru')]
    all_ += [(v, 'double', [], float(rng.standard_normal())) for v in ('b0', 'wb', 'Rmajor_p', 'Aminor_p', 'rbtor', 'ctor')]
    all_ += [(v, 'int', [], int(rng.integers(0, 5))) for v in ('lasym', 'signgs', 'niter', 'lfreeb__logical__', 'mnyq', 'nnyq', 'mpol_nyq', 'ntor_nyq')]
    all_ += [(v, 'double', ['radius', 'mn_mode_nyq'], rng.standard_normal((ns, q))) for v in ('gmnc', 'bsupumnc', 'bsupvmnc', 'bsubsmns', 'currumnc')]
    if not eq['asym']:
        all_ += [(v, 'double', ['radius', 'mn_mode_nyq'], rng.standard_normal((ns, q))) for v in ('bmns', 'bsubumns', 'bsubvmns')]
        all_ += [(v, 'double', ['radius', 'mn_mode'], rng.standard_normal((ns, eq['mnmax']))) for v in ('rmns', 'zmnc', 'lmnc')]
    return [all_[i] for i in rng.permutation(len(all_))[:int(rng.integers(1, 20))]]

def s_wout(r, rng):
    eq = equilibrium(rng, wout=True, flux=choose(rng, True, True, False))
    if eq['asym']: eq['lasym'] = choose(rng, 1, 1, -1, 2)
    if rng.random() < 0.2: eq['aspect'] = choose(rng, 0.0, -3.5, 1.0, 1e-12, 1e6)
    flux = 'phips' in eq
    r.new('a'); r.set('a', 'verbose', choose(rng, 0, 0, 1, 2))
    if rng.random() < 0.4:   # an object with another equilibrium
        e0 = equilibrium(rng); r.header('a', e0); r.load('a', e0)
        if rng.random() < 0.5:
            options(r, 'a', 3, 1); r.run('a')
    write_wout('w.nc', eq, choose(rng, *FORMATS), wout_types(rng), order=rng if rng.random() < 0.6 else None,
               extra=decoys(rng, eq) if rng.random() < 0.5 else ())
    r.mkfile('w.nc')
    want = flux and bool(rng.random() < 0.6)
    r.wout('a', 'w.nc', flux=want)
    if rng.random() < 0.5:
        options(r, 'a', *resolution(rng)); r.run('a')
    if rng.random() < 0.5:
        r.wout('a', 'w.nc', flux=flux and not want)
    # The same data loaded directly.
    if rng.random() < 0.3:
        r.new('b'); r.set('b', 'verbose', 0)
        r.header('b', eq); r.load('b', eq)

def s_wout_order(r, rng):
    """Nyquist modes in any order: the resolution comes from the last one."""
    eq = equilibrium(rng, wout=True, flux=False, mpol=choose(rng, 1, 2, 3), ntor=choose(rng, 0, 1, 2), full=True)
    n = eq['mnmax_nyq']
    r.new('a'); r.set('a', 'verbose', 0)
    for k in range(8):
        p = np.concatenate([[0], 1 + rng.permutation(n - 1)])
        if rng.random() < 0.3:
            # The highest m last, or the highest n last.
            key = eq['xm_nyq'] if rng.random() < 0.5 else eq['xn_nyq']
            q = [i for i in p[1:] if key[i] == key[1:].max()] if n > 1 else []
            if q: p = np.concatenate([[i for i in p if i != q[0]], [q[0]]])
        if rng.random() < 0.3:
            p = p[np.sort(np.concatenate([[0], 1 + rng.permutation(n - 1)[:int(rng.integers(0, n))]]))]
        e = dict(eq, mnmax_nyq=len(p), xm_nyq=eq['xm_nyq'][p], xn_nyq=eq['xn_nyq'][p])
        for m in ('bmnc0', 'bsubumnc0', 'bsubvmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0'):
            if m in eq: e[m] = eq[m][p]
        write_wout('w.nc', e, choose(rng, *FORMATS)); r.mkfile('w.nc')
        r.wout('a', 'w.nc')

def s_wout_real(name):
    def f(r, rng):
        w = 'wout_%s.nc' % name
        shutil.copy(os.path.join(TESTFILES, w), w)
        r.mkfile(w)
        r.new('a'); r.set('a', 'verbose', choose(rng, 0, 1, 2))
        r.wout('a', w)
        r.wout('a', w, flux=True)
    return f

WOUT_REQUIRED = ['lasym__logical__', 'ns', 'nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'aspect', 'iotas', 'xm', 'xn', 'xm_nyq', 'xn_nyq',
                 'rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc']
def s_wout_missing(part, parts):
    """Each variable missing; retry with the full file."""
    def f(r, rng):
        eq = equilibrium(rng, wout=True, flux=True, asym=bool(part % 2), ns=3, mpol=2, ntor=1)
        write_wout('good.nc', eq); r.mkfile('good.nc')
        names = WOUT_REQUIRED + ['chi', 'phipf', 'pres', 'phi'] + (ASYM_IN if eq['asym'] else [])
        r.new('a'); r.set('a', 'verbose', choose(rng, 0, 1))
        for v in names[part // 2::parts // 2]:
            write_wout('bad.nc', eq, choose(rng, *FORMATS), drop=[v]); r.mkfile('bad.nc')
            r.wout('a', 'bad.nc', flux=True)
            if v in ('chi', 'phipf', 'pres', 'phi'):
                r.wout('a', 'bad.nc', flux=False)
            else:
                r.wout('a', 'good.nc', flux=True)
                options(r, 'a', 2, 1); r.run('a')
    return f

def s_wout_shape(part, parts):
    """Headers that do not agree with the arrays, and inconsistent mode tables in files."""
    def f(r, rng):
        eq = equilibrium(rng, wout=True, flux=True, ns=4, mpol=2, ntor=1, full=True)
        write_wout('good.nc', eq); r.mkfile('good.nc')
        edits = [{k: eq[k] + d} for k in ('ns', 'mnmax', 'mnmax_nyq') for d in (-1, 1)] + \
                [{'nfp': 0}, {'nfp': -1}, {'ns': 0}, {'ns': -3}, {'mnmax': 0}, {'mnmax_nyq': -2}, {'mpol': 1}, {'ntor': 0}, {'ntor': 4},
                 {'nfp': eq['nfp'] + 1}, {'asym': not eq['asym']}]
        r.new('a'); r.set('a', 'verbose', 0)
        for e in edits[part::parts]:
            dims, v = wout_vars(eq)
            hdr = {'asym': 'lasym__logical__'}
            v = [(n, t, d, int(e[k])) if (k := next((k for k in e if hdr.get(k, k) == n), None)) else (n, t, d, x) for n, t, d, x in v]
            import nc
            nc.write('bad.nc', choose(rng, *FORMATS), dims, v); r.mkfile('bad.nc')
            r.wout('a', 'bad.nc', flux=bool(rng.random() < 0.5))
            r.wout('a', 'good.nc')
            options(r, 'a', 2, 1); r.run('a')
    return f

def bad_files(rng, good):
    """Files that are not readable NetCDF files."""
    data = open(good, 'rb').read()
    open('empty.nc', 'wb').close()
    open('text.nc', 'w').write('not a netcdf file\n' * 20)
    os.mkdir('dir.nc')
    n = ['empty.nc', 'text.nc', 'dir.nc', 'missing.nc', 'nowhere/x.nc', '', good + '/x']
    return n

def s_bad_files(op):
    def f(r, rng):
        eq = equilibrium(rng, wout=True, ns=3, mpol=2, ntor=1)
        write_wout('good.nc', eq)
        r.mkfile('good.nc')
        r.new('a'); r.set('a', 'verbose', choose(rng, 0, 1))
        r.wout('a', 'good.nc'); options(r, 'a', 2, 1); r.run('a'); r.write('a', 'b.nc')
        names = bad_files(rng, 'good.nc')
        r.mkfile(*names)
        for f in names:
            if op == 'wout': r.wout('a', f)
            elif op == 'readb': r.readb('a', f)
            else:
                if f not in ('empty.nc', 'text.nc', 'missing.nc'):
                    r.write('a', f, fault=True)
                continue
            if rng.random() < 0.6:
                if op == 'readb': r.readb('a', 'b.nc')
                r.wout('a', 'good.nc'); options(r, 'a', 2, 1); r.run('a')
        if op == 'readb':
            r.readb('a', 'good.nc')      # a wout file is not a boozmn file
            r.readb('a', 'b.nc')
        if op == 'wout':
            r.wout('a', 'b.nc')          # and the other way round
            r.wout('a', 'good.nc')
        r.run('a')
        r.write('a', 'b2.nc')
    return f

# ------------------------------------------------------------------ boozmn files
def random_results(r, rng, o, flux=None, asym=None, source=None):
    eq = equilibrium(rng, flux=flux, asym=asym)
    r.header(o, eq) if o in r.objs else r.setup(o, eq)
    if o in r.objs: r.load(o, eq)
    options(r, o, *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run(o)
    return eq

def s_write(r, rng):
    eq = equilibrium(rng)
    r.setup('a', eq, verbose=choose(rng, 0, 0, 1, 2))
    radii(r, rng, 'a')
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')
    f = choose(rng, 'b.nc', './b.nc', os.path.abspath('b.nc'), 'name with space.nc', 'no_extension', 'ü.nc')
    r.write('a', f)
    k = rng.integers(5)
    if k == 0:   # overwrite with other results
        options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1)); r.run('a'); r.write('a', f)
    elif k == 1:   # other symmetry and flux in the same object
        eq2 = equilibrium(rng, asym=not eq['asym'], flux='phips' not in eq)
        r.header('a', eq2); r.load('a', eq2); options(r, 'a', *resolution(rng)); r.run('a'); r.write('a', f)
    elif k == 2:
        r.write('a', f); r.write('a', 'second.nc'); r.run('a'); r.write('a', f)
    elif k == 3:
        r.readb('a', f); r.write('a', 'again.nc')

def s_write_flux(r, rng):
    """Flux profiles with special values."""
    eq = equilibrium(rng, flux=True)
    ns = eq['ns']
    k = rng.integers(6)
    if k == 0: eq['phi'] = eq['phi'].copy(); eq['phi'][-1] = 0
    elif k == 1: eq['phi'] = np.zeros(ns)
    elif k == 2: eq['phips'] = np.zeros(ns); eq['chi'] = np.zeros(ns)
    elif k == 3: eq['pres'] = np.zeros(ns)
    elif k == 4: eq['phi'] = eq['phi'] - eq['phi'][-1]; eq['phips'] = -eq['phips']
    else:
        for v in LOADVECS: eq[v] = np.zeros(ns)
    r.setup('a', eq)
    options(r, 'a', *resolution(rng), selection(rng, ns - 1))
    r.run('a')
    r.write('a', 'b.nc')
    r.set('a', 'toroidal_flux', choose(rng, 0.0, 2.5))
    r.write('a', 'c.nc')
    r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'b.nc'); r.write('b', 'd.nc')
    if rng.random() < 0.5:   # without the profiles but with the attribute
        none = {q: v for q, v in eq.items() if q not in LOADVECS}
        r.load('a', none); r.set('a', 'toroidal_flux', 1.5); r.run('a'); r.write('a', 'e.nc')

def s_write_edited(r, rng):
    """Inputs changed after the run; what is written are the results."""
    eq = equilibrium(rng, flux=True)
    r.setup('a', eq)
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')
    for a, v in (('aspect', rng.uniform(1, 9)), ('phi', rng.standard_normal(eq['ns'])), ('chi', rng.standard_normal(eq['ns'])),
                 ('pres', rng.standard_normal(eq['ns'])), ('phip', rng.standard_normal(eq['ns'])), ('iota', rng.standard_normal(eq['ns'] - 1)),
                 ('toroidal_flux', 3.5)):
        if rng.random() < 0.5: r.set('a', a, v)
    r.write('a', 'b.nc')
    r.new('b'); r.set('b', 'verbose', 0)
    r.readb('b', 'b.nc')

def s_roundtrip(r, rng):
    eq = equilibrium(rng)
    r.setup('a', eq)
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')
    r.write('a', 'b.nc')
    k = rng.integers(4)
    if k == 0:
        r.new('b'); r.set('b', 'verbose', choose(rng, 0, 1, 2))
    elif k == 1:   # an object with other results, usually larger
        e2 = equilibrium(rng, asym=True, flux=choose(rng, True, False), ns=choose(rng, 3, 8))
        r.setup('b', e2); options(r, 'b', 7, 4); r.run('b')
    elif k == 2:   # an object that was read from another file
        e2 = equilibrium(rng, asym=not eq['asym'])
        r.setup('c', e2); options(r, 'c', *resolution(rng)); r.run('c'); r.write('c', 'c.nc')
        r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'c.nc')
    else:
        r.setup('b', equilibrium(rng))   # loaded, not run
    r.readb('b', 'b.nc')
    r.write('b', 'b2.nc')
    r.new('d'); r.set('d', 'verbose', 0)
    r.readb('d', 'b2.nc')
    if rng.random() < 0.3:   # itself
        r.readb('a', 'b.nc'); r.write('a', 'b.nc'); r.readb('a', 'b.nc')
    if rng.random() < 0.5:   # the reader can be loaded again
        e3 = equilibrium(rng); r.header('b', e3); r.load('b', e3); options(r, 'b', 3, 1); r.run('b')

def boozmn_vars(rng, asym=None, chi=True):
    """A boozmn file as the Fortran program writes it: (dims, variables)."""
    asym = bool(rng.integers(2)) if asym is None else asym
    ns = int(rng.integers(2, 8)); mb, nb = resolution(rng); nfp = int(rng.integers(1, 6))
    ms = [0] * (nb + 1) + [m for m in range(1, mb) for n in range(-nb, nb + 1)]
    nn = list(range(nb + 1)) + [n for m in range(1, mb) for n in range(-nb, nb + 1)]
    if rng.random() < 0.2:   # only some of the modes
        keep = [0] + sorted(1 + rng.permutation(len(ms) - 1)[:rng.integers(0, len(ms))])
        ms, nn = [ms[i] for i in keep], [nn[i] for i in keep]
    mn = len(ms)
    sel = selection(rng, ns - 1); k = len(sel)
    dims = {'radius': ns, 'comput_surfs': k, 'pack_rad': k, 'mn_mode': mn, 'mn_modes': mn}
    odd = rng.random() < 0.5   # special values
    def R(*s):
        x = rng.standard_normal(s)
        if odd and s and rng.random() < 0.7: x.flat[rng.integers(x.size)] = choose(rng, np.nan, np.inf, -np.inf, 1e300, 5e-324, -0.0)
        return x
    v = [('nfp_b', 'int', [], nfp), ('ns_b', 'int', [], ns), ('aspect_b', 'double', [], R()), ('rmax_b', 'double', [], R()),
         ('rmin_b', 'double', [], R()), ('betaxis_b', 'double', [], R()), ('mboz_b', 'int', [], mb), ('nboz_b', 'int', [], nb),
         ('mnboz_b', 'int', [], mn), ('lasym__logical__', 'int', [], int(asym)),
         ('jlist', 'int', ['comput_surfs'], sel + 2), ('ixm_b', 'int', ['mn_mode'], ms), ('ixn_b', 'int', ['mn_mode'], np.array(nn) * nfp)]
    for q in ['iota_b', 'pres_b', 'beta_b', 'phip_b', 'phi_b', 'bvco_b', 'buco_b'] + (['chi_b'] if chi else []):
        v.append((q, 'double', ['radius'], R(ns)))
    for q in ['bmnc_b', 'rmnc_b', 'zmns_b', 'pmns_b', 'gmn_b'] + (['bmns_b', 'rmns_b', 'zmnc_b', 'pmnc_b', 'gmns_b'] if asym else []):
        v.append((q, 'double', ['pack_rad', 'mn_modes'], R(k, mn)))
    return dims, v

def s_read_foreign(r, rng):
    import nc
    dims, v = boozmn_vars(rng, chi=bool(rng.integers(2)))
    if rng.random() < 0.5: v = [v[i] for i in rng.permutation(len(v))]
    if rng.random() < 0.3:   # other numeric types
        v = [(n, choose(rng, 'double', 'int64' if False else 'short') if t == 'int' and rng.random() < 0.5 else t, d, x) for n, t, d, x in v]
    nc.write('f.nc', choose(rng, 'classic', 'classic', 'offset64', 'netcdf4'), dims, v)
    r.mkfile('f.nc')
    r.new('a'); r.set('a', 'verbose', choose(rng, 0, 1, 2))
    if rng.random() < 0.5:
        e = equilibrium(rng); r.header('a', e); r.load('a', e); options(r, 'a', 4, 2); r.run('a')
    r.readb('a', 'f.nc')
    r.write('a', 'g.nc')
    r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'g.nc')

def s_read_real(name):
    def f(r, rng):
        shutil.copy(os.path.join(TESTFILES, name), name)
        r.mkfile(name)
        r.new('a'); r.set('a', 'verbose', 0)
        r.readb('a', name)
        r.write('a', 'again.nc')
    return f

BOOZMN_REQUIRED = ['lasym__logical__', 'nfp_b', 'aspect_b', 'mboz_b', 'nboz_b', 'mnboz_b', 'ns_b', 'iota_b', 'bvco_b', 'buco_b', 'phi_b',
                   'phip_b', 'pres_b', 'bmnc_b', 'rmnc_b', 'zmns_b', 'pmns_b', 'gmn_b', 'ixm_b', 'ixn_b', 'jlist', 'chi_b', 'beta_b', 'rmax_b',
                   'bmns_b', 'rmns_b', 'zmnc_b', 'pmnc_b', 'gmns_b']
def s_boozmn_missing(part, parts):
    def f(r, rng):
        import nc
        asym = bool(part % 2)
        dims, v = boozmn_vars(rng, asym)
        nc.write('good.nc', 'classic', dims, v); r.mkfile('good.nc')
        r.new('a'); r.set('a', 'verbose', choose(rng, 0, 1))
        for q in BOOZMN_REQUIRED[part // 2::parts // 2]:
            nc.write('bad.nc', 'classic', dims, [x for x in v if x[0] != q]); r.mkfile('bad.nc')
            r.readb('a', 'bad.nc')
            r.readb('a', 'good.nc')
        d2 = dict(dims); 
        for gone in ('radius', 'comput_surfs'):
            d = {('x' + k if k == gone else k): n for k, n in dims.items()}
            w = [(n, t, [('x' + k if k == gone else k) for k in dd], x) for n, t, dd, x in v]
            nc.write('bad.nc', 'classic', d, w); r.mkfile('bad.nc')
            r.readb('a', 'bad.nc')
        r.readb('a', 'good.nc')
        r.write('a', 'out.nc')
    return f

def s_boozmn_shape(part, parts):
    def f(r, rng):
        import nc
        dims, v = boozmn_vars(rng)
        ns, k, mn = dims['radius'], dims['comput_surfs'], dims['mn_mode']
        sel = next(x for n, t, d, x in v if n == 'jlist')
        nc.write('good.nc', 'classic', dims, v); r.mkfile('good.nc')
        edits = [('mnboz_b', mn + 1), ('mnboz_b', mn - 1), ('mnboz_b', 0), ('mnboz_b', -1),
                 ('jlist', np.append(sel[:-1], ns + 1)), ('jlist', np.append(sel[:-1], 1)), ('jlist', np.append(sel[:-1], 0)), ('jlist', np.append(sel[:-1], 10**6)),
                 ('dim mn_modes', mn + 1), ('dim pack_rad', k + 1), ('dim mn_mode', mn + 1), ('dim comput_surfs', k + 1)]
        # One array of another shape or type; arrays that are not used do not matter.
        edits += [(what + n, None) for n, t, dd, x in v if dd for what in ('short ', 'char ', 'turned ')]
        edits = [edits[i] for i in np.random.default_rng(5).permutation(len(edits))]
        r.new('a'); r.set('a', 'verbose', 0)
        for name, x in edits[part::parts]:
            d, w = dict(dims), list(v)
            what, _, n0 = name.partition(' ')
            if what == 'short':
                d['odd'] = ns + k + mn
                w = [(n, t, ['odd'] + dd[1:], np.resize(np.asarray(a), [d['odd']] + [d[q] for q in dd[1:]])) if n == n0 else (n, t, dd, a) for n, t, dd, a in w]
            elif what == 'char':
                w = [(n, 'char', dd, np.full([d[q] for q in dd], b'x')) if n == n0 else (n, t, dd, a) for n, t, dd, a in w]
            elif what == 'turned':
                w = [(n, t, dd[::-1], np.asarray(a).T) if n == n0 else (n, t, dd, a) for n, t, dd, a in w]
            elif what == 'dim':
                dn = name[4:]
                d[dn] = x
                w = [(n, t, dd, (np.resize(np.asarray(a), [d[q] for q in dd]) if dn in dd else a)) for n, t, dd, a in w]
            else:
                w = [(n, t, dd, x if n == name else a) for n, t, dd, a in w]
            nc.write('bad.nc', choose(rng, *FORMATS), d, w); r.mkfile('bad.nc')
            r.readb('a', 'bad.nc')
            r.readb('a', 'good.nc')
    return f

# ------------------------------------------------------------------ attributes
SHAPES = [(0, 0), (1, 1), (2, 3), (4, 1), (1, 5), (3, 0)]
def random_value(rng, a):
    from rec import INT, BOOL, REAL, IVEC, RVEC
    if a in BOOL: return bool(rng.integers(2))
    if a in INT: return int(choose(rng, 0, 1, -1, 7, 2**31 - 1, -2**31, int(rng.integers(-1000, 1000))))
    if a in REAL: return float(choose(rng, 0.0, -1.5, 1e300, 5e-324, float(rng.standard_normal())))
    if a in IVEC: return rng.integers(-2**31, 2**31 - 1, int(rng.integers(0, 7)))
    if a in RVEC: return rng.standard_normal(int(rng.integers(0, 7))) * 10.0 ** rng.integers(-300, 300)
    return rng.standard_normal(choose(rng, *SHAPES)) * 10.0 ** rng.integers(-300, 300)

def s_attributes(r, rng):
    r.new('a')
    r.new('b')
    names = list(rng.permutation(INPUTS))
    for a in names:
        r.set('a', a, random_value(rng, a))
    for a in names[:6]:
        r.set('b', a, random_value(rng, a))
        r.set('a', a, random_value(rng, a))
    r.clone('c', 'a')
    r.new('d')
    r.new('a')

def s_outputs(r, rng):
    from rec import INT, RVEC, IVEC
    r.new('a')
    if rng.random() < 0.6:
        eq = equilibrium(rng); r.setup('a', eq); options(r, 'a', 3, 1); r.run('a')
    for a in rng.permutation(OUTPUTS):
        r.set('a', a, 3 if a in INT else np.array([1, 2]) if a in IVEC else np.array([0.5, 2]) if a in RVEC else np.ones((2, 2)))

def s_new_after(r, rng):
    """New objects after all kinds of activity."""
    r.new('n0')
    for k in range(3):
        eq = equilibrium(rng, ns=choose(rng, 2, 5))
        r.setup('a', eq); options(r, 'a', *resolution(rng)); r.run('a')
        r.new('n%d' % (k + 1))
        if k == 1:
            r.write('a', 'f.nc'); r.readb('n0', 'f.nc'); r.new('n9')
        if k == 2:
            r.readb('n1', 'missing.nc'); options(r, 'a', surfs=[99]); r.run('a'); r.new('n8')
    for k in range(10):
        r.new('x')

def s_new_many(r, rng):
    """Hundreds of objects in one process."""
    for k in range(int(rng.integers(200, 400))): r.new('x%d' % (k % 7))

# ------------------------------------------------------------------ histories
def s_history(steps=14):
    """Random sequences of calls on three objects and three files."""
    def f(r, rng):
        objs = ['a', 'b', 'c']
        for o in objs:
            r.new(o); r.set(o, 'verbose', choose(rng, 0, 0, 0, 1, 2, 3, -1, 100))
        pool = [equilibrium(rng, ns=choose(rng, 2, 3, 4), mpol=choose(rng, 1, 2, 3), ntor=choose(rng, 0, 1, 2), wout=True) for _ in range(3)]
        if rng.random() < 0.6:
            # Equilibria that agree in everything but a few attributes.
            pool[1] = dict(pool[0]); pool[2] = dict(pool[0])
            for e in pool[1:]:
                k = rng.integers(5)
                nfp = int(e['nfp'])
                if k <= 1:
                    e['nfp'] = choose(rng, *[q for q in (1, 2, 3, 4, 7) if q != nfp])
                    for t in ('xn', 'xn_nyq'): e[t] = e[t] // nfp * e['nfp']
                elif k == 2:
                    e.update({q: e[q] * rng.uniform(0.9, 1.1, e[q].shape) for q in ('rmnc0', 'bmnc0', 'lmns0', 'bsubvmnc0')})
                elif k == 3:
                    e['iotas'] = e['iotas'] + rng.uniform(-0.3, 0.3)
                elif e['asym']: e['asym'] = False
                else:
                    for t in ('xn', 'xn_nyq'): e[t] = e[t].copy()
        for i, e in enumerate(pool):
            write_wout('w%d.nc' % i, e); 
        r.mkfile(*['w%d.nc' % i for i in range(3)])
        loaded = {}
        for _ in range(steps):
            o = choose(rng, *objs); b = r.objs[o]
            k = choose(rng, 'load', 'load', 'wout', 'run', 'run', 'run', 'opt', 'opt', 'edit', 'write', 'readb', 'badload', 'badrun', 'badread', 'new', 'verb', 'fresh', 'pristine', 'pristine')
            i = int(rng.integers(3)); e = pool[i]
            if k == 'load': r.header(o, e); r.load(o, e)
            elif k == 'wout': r.wout(o, 'w%d.nc' % i, flux='phips' in e and bool(rng.integers(2)))
            elif k == 'run': r.run(o, threads=int(rng.integers(1, 4)))
            elif k == 'opt':
                q = rng.random()
                if q < 0.3: options(r, o, int(rng.integers(1, 6)), int(rng.integers(0, 4)))
                elif q < 0.7 and 0 < b.mboz < 10 and 0 <= b.nboz < 10: options(r, o, *related_resolution(rng, b.mboz, b.nboz))
                else: options(r, o, surfs=selection(rng, max(1, b.ns_in)))
            elif k == 'edit':
                a = choose(rng, 'iota', *INMAT)
                v = getattr(b, a)
                if v.size: r.set(o, a, v.copy() * rng.uniform(0.8, 1.2, v.shape))
            elif k == 'write' and len(b.bmnc_b): r.write(o, 'f%d.nc' % i)
            elif k == 'readb' and os.path.exists('f%d.nc' % i): r.readb(o, 'f%d.nc' % i)
            elif k == 'badload':
                r.header(o, e); r.load(o, dict(e, iotas=e['iotas'][:-1]))
            elif k == 'badrun':
                s = b.compute_surfs.copy(); options(r, o, surfs=[b.ns_in]); r.run(o); options(r, o, surfs=s)
            elif k == 'badread': choose(rng, r.wout, r.readb)(o, 'missing.nc')
            elif k == 'new': r.new(o); r.set(o, 'verbose', 0)
            elif k == 'verb': r.set(o, 'verbose', choose(rng, 0, 1, 2, 3, -1, 10))
            elif k == 'fresh':
                # The same inputs in a new object.
                r.run(o); r.clone('n', o); r.run('n')
            elif k == 'pristine':
                # The same inputs in a new process.
                if r.run(o): r.pristine(o)
    return f

def s_twins(r, rng):
    """One object runs equilibria that differ in a single respect, back and forth."""
    eq = equilibrium(rng, ns=choose(rng, 3, 4), ntor=choose(rng, 1, 2), nfp=choose(rng, 1, 2, 3), flux=False)
    n = eq['ns'] - 1
    r.setup('a', eq)
    mboz, nboz = resolution(rng)
    options(r, 'a', mboz, nboz, selection(rng, n))
    r.run('a'); r.pristine('a')
    def change():
        k = rng.integers(7); b = r.objs['a']
        if k == 0:     # same mode numbers per period, other number of periods
            f = choose(rng, *[q for q in (1, 2, 3, 5) if q != b.nfp]); old = b.nfp
            xn, xq = b.xn // old * f, b.xn_nyq // old * f
            return [('nfp', int(f)), ('xn', xn), ('xn_nyq', xq)], [('nfp', int(old)), ('xn', b.xn.copy()), ('xn_nyq', b.xn_nyq.copy())]
        if k == 1:
            m2, n2 = related_resolution(rng, mboz, nboz)
            return [('mboz', m2), ('nboz', n2)], [('mboz', mboz), ('nboz', nboz)]
        if k == 2:
            # As many grid points after a change of symmetry.
            if b.asym: return [('asym', False), ('mboz', 2 * mboz)], [('asym', True), ('mboz', mboz)]
            return [('nboz', nboz + 1)], [('nboz', nboz)]
        if k == 3:
            s = b.compute_surfs.copy()
            return [('compute_surfs', selection(rng, n))], [('compute_surfs', s)]
        if k == 4:
            v = b.iota.copy()
            return [('iota', v * 1.3 + 0.1)], [('iota', v)]
        if k == 5:
            a = choose(rng, *[m for m in INMAT if getattr(b, m).size]); v = getattr(b, a).copy()
            return [(a, v * rng.uniform(0.7, 1.3, v.shape))], [(a, v)]
        p = np.concatenate([[0], 1 + rng.permutation(len(b.xm) - 1)])
        return [('xm', b.xm[p].copy()), ('xn', b.xn[p].copy())], [('xm', b.xm.copy()), ('xn', b.xn.copy())]
    for _ in range(3):
        do, undo = change()
        for a, v in do: r.set('a', a, v)
        r.run('a'); r.pristine('a')
        for a, v in undo: r.set('a', a, v)
        r.run('a')

# ------------------------------------------------------------------ report
def s_report_fine(r, rng): report_fine(r, rng, choose(rng, 10, 11, 13))
def s_report_finer(r, rng): report_fine(r, rng, choose(rng, 19, 24))
def report_fine(r, rng, hi):
    """|B| made of single high harmonics; report numbers depend on each of them."""
    nfp = choose(rng, 1, 2, 3, 5)
    m = choose(rng, 0, 1, 2, hi)
    eq = equilibrium(rng, nfp=nfp, ns=3, mpol=1, ntor=0, mnyq=hi, nnyq=hi, full=True, asym=choose(rng, False, True))
    for k in ('bmnc0', 'bmns0'):
        if k in eq: eq[k][(eq['xm_nyq'] != 0) | (eq['xn_nyq'] != 0)] = 0
    for k in ('lmns0', 'lmnc0'):
        if k in eq: eq[k] = eq[k] * 0.02
    for k in ('bsubumnc0', 'bsubvmnc0', 'bsubumns0', 'bsubvmns0'):
        if k in eq: eq[k][(eq['xm_nyq'] != 0) | (eq['xn_nyq'] != 0)] *= 0.001
    for _ in range(3):
        q = (eq['xm_nyq'] == choose(rng, m, hi, 0)) & (np.abs(eq['xn_nyq']) == nfp * choose(rng, hi, hi - 1, 0))
        for k in ('bmnc0', 'bmns0'):
            if k in eq: eq[k][q, 1:] += 0.4 * rng.standard_normal((q.sum(), 2))
    eq['bmnc0'][(eq['xm_nyq'] == 0) & (eq['xn_nyq'] == 0), 1:] = 4
    r.setup('a', eq); r.set('a', 'verbose', 1)
    options(r, 'a', hi + 1 + int(rng.integers(0, 2)), hi + int(rng.integers(0, 2)), selection(rng, 2))
    r.run('a', threads=int(rng.integers(1, 5)))

def s_report_exact(r, rng):
    """Already in Boozer coordinates: the report's errors are 0 to rounding."""
    eq = equilibrium(rng, mpol=choose(rng, 1, 2), ntor=choose(rng, 0, 1), mnyq=2, nnyq=choose(rng, 0, 1), full=True)
    for k in ('lmns0', 'lmnc0', 'bsubumns0', 'bsubvmns0'):
        if k in eq: eq[k] = eq[k] * 0
    for k in ('bsubumnc0', 'bsubvmnc0'): eq[k][(eq['xm_nyq'] != 0) | (eq['xn_nyq'] != 0)] = 0
    if rng.random() < 0.4: eq['bmnc0'][(eq['xm_nyq'] != 0) | (eq['xn_nyq'] != 0)] = 0
    r.setup('a', eq); r.set('a', 'verbose', choose(rng, 1, 2))
    options(r, 'a', 4, 2, selection(rng, eq['ns'] - 1))
    r.run('a', threads=int(rng.integers(1, 5)))

def s_quiet(r, rng):
    """Everything that may be called, with verbose = 0 (or less)."""
    eq = equilibrium(rng, wout=True, flux=choose(rng, True, False), ns=choose(rng, 2, 3, 6))
    flux = 'phips' in eq
    write_wout('w.nc', eq, choose(rng, *FORMATS)); r.mkfile('w.nc')
    dims, v = boozmn_vars(rng, chi=choose(rng, True, False)); import nc; nc.write('fortran.nc', choose(rng, 'classic', 'netcdf4'), dims, v); r.mkfile('fortran.nc')
    for o in 'ab':
        r.new(o); r.set(o, 'verbose', choose(rng, 0, 0, 0, -1))
        r.wout(o, 'w.nc', flux=flux and choose(rng, True, False))
        options(r, o, *resolution(rng), selection(rng, eq['ns'] - 1))
        r.run(o, threads=choose(rng, 1, 3)); r.write(o, 'f.nc')
        r.load(o, eq)
        r.readb(o, choose(rng, 'f.nc', 'fortran.nc')); r.write(o, 'g.nc')
        if rng.random() < 0.5:
            r.set(o, 'verbose', choose(rng, 1, 2)); r.readb(o, 'f.nc'); r.wout(o, 'w.nc', flux=flux); r.set(o, 'verbose', 0)

def s_report_far(r, rng):
    """Surface indices of several digits."""
    ns = choose(rng, 101, 1003, 1100, 10003)
    eq = equilibrium(rng, ns=ns, mpol=1, ntor=0, mnyq=0, nnyq=0)
    r.setup('a', eq); r.set('a', 'verbose', 1)
    options(r, 'a', 1, choose(rng, 0, 1), rng.integers(max(0, ns - 1 - choose(rng, 5, 200)), ns - 1, 12))
    r.run('a', threads=int(rng.integers(1, 5)))
    if rng.random() < 0.5:
        options(r, 'a', surfs=rng.permutation(ns - 1)[:120]); r.run('a', threads=choose(rng, 1, 8, 14))

def s_report(verbose=1, threads=None, **kw):
    def f(r, rng):
        eq = equilibrium(rng, **kw)
        n = eq['ns'] - 1
        r.setup('a', eq)
        r.set('a', 'verbose', verbose)
        options(r, 'a', *resolution(rng), selection(rng, n))
        r.run('a', threads=threads or int(rng.integers(1, 9)))
        options(r, 'a', *resolution(rng), rng.integers(0, n, 12))
        r.run('a', threads=threads or int(rng.integers(1, 9)))
        r.set('a', 'verbose', 0)
        r.run('a', threads=4)
    return f

# ------------------------------------------------------------------ faults
def s_size_limit(r, rng):
    """Writing hits a file size limit at many points, then succeeds."""
    import resource, signal
    eq = equilibrium(rng, ns=choose(rng, 2, 4), mpol=2, ntor=1)
    r.setup('a', eq, verbose=choose(rng, 0, 1))
    options(r, 'a', *resolution(rng), selection(rng, eq['ns'] - 1))
    r.run('a')
    r.write('a', 'full.nc')
    size = os.path.getsize('full.nc')
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    for lim in sorted(set([0, 1, 4, 100, size // 4, size // 2, size - 9, size - 8, size - 4, size - 1] + [int(x) for x in rng.integers(0, size, 4)])):
        def g(lim=lim):
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try: r.objs['a'].write_boozmn('x.nc')
            finally: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        # The limit also applies to the trace file, so no output is captured here.
        r.event('write', 'a', g, files=['x.nc'], f='x.nc', fault=True)
        if rng.random() < 0.3:
            r.write('a', 'x.nc'); r.run('a')
    r.write('a', 'x.nc')
    r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'x.nc')

def s_truncated(op, fmt, cut):
    """Files that end too early. cut: 'data' = after the header, 'head' = in it."""
    def f(r, rng):
        import nc
        eq = equilibrium(rng, wout=True, flux=True, ns=choose(rng, 3, 5), mpol=choose(rng, 1, 3), ntor=choose(rng, 0, 2))
        r.setup('a', eq); options(r, 'a', 2, 1, selection(rng, 2)); r.run('a')
        if op == 'wout': write_wout('full.nc', eq, fmt)
        else: nc.write('full.nc', fmt, *boozmn_vars(rng))
        data = open('full.nc', 'rb').read(); n = len(data)
        # Where the data begin: no variable lies in the first part of the file.
        sizes = sorted(set([0, 1, 3, 4, 8, 100, 200] + [int(v) for v in rng.integers(0, 300, 4)]) if cut == 'head' else
                       set([n // 2, n - 8, n - 16, n - 64] + [int(v) for v in rng.integers(n // 2, n - 8, 6)]))
        r.new('b'); r.set('b', 'verbose', choose(rng, 0, 1))
        go = (lambda o, g: r.wout(o, g, flux=True)) if op == 'wout' else r.readb
        for k in sizes:
            open('x.nc', 'wb').write(data[:k]); r.mkfile('x.nc')
            o = choose(rng, 'a', 'b')
            go(o, 'x.nc')
            if rng.random() < 0.4:
                open('x.nc', 'wb').write(data); r.mkfile('x.nc')
                go(o, 'x.nc')
    return f

def s_faults(op, kind, fmt=None, big=False):
    """Every system call on the file fails in turn (harness/c/fault.c), then the same call without the fault."""
    def f(r, rng):
        import ctypes
        lib = ctypes.CDLL(None)
        lib.fault_hit.restype = ctypes.c_char_p; lib.fault_calls.restype = ctypes.c_long
        lib.fault_arm.argtypes = [ctypes.c_long, ctypes.c_int]
        eq = equilibrium(rng, wout=True, flux=True, ns=12 if big else 3, mpol=choose(rng, 1, 2), ntor=choose(rng, 0, 1))
        r.setup('a', eq)
        if big: options(r, 'a', 7, 3, np.arange(11))
        else: options(r, 'a', int(rng.integers(1, 4)), int(rng.integers(0, 2)), selection(rng, 2))
        r.run('a')
        r.new('b'); r.set('b', 'verbose', choose(rng, 0, 1))
        if op == 'wout':
            write_wout('x.nc', eq, fmt or 'classic'); r.mkfile('x.nc')
            def go(fault): 
                return r.wout('b', 'x.nc', flux=True, fault=fault)
        elif op == 'readb':
            if fmt:
                import nc
                nc.write('x.nc', fmt, *boozmn_vars(rng)); r.mkfile('x.nc')
            else:
                r.write('a', 'x.nc')
            def go(fault): return r.readb('b', 'x.nc', fault=fault)
        else:
            r.clone('b', 'a'); r.run('b')
            def go(fault): return r.write('b', 'x.nc', fault=fault)
        go(False)
        r.arm = lambda: lib.fault_arm(0, 0); r.disarm = lib.fault_off
        go(False)
        n = lib.fault_calls()
        ks = list(range(1, n + 1))
        if n > 60: ks = ks[:30] + sorted(int(k) for k in rng.choice(ks[30:-10], 30, replace=False)) + ks[-10:]
        for k in ks:
            r.arm = lambda: lib.fault_arm(k, kind); r.disarm = lib.fault_off
            ok = go(True)
            r.arm = r.disarm = None
            if not ok or rng.random() < 0.3:
                go(False)
                if op == 'wout' and rng.random() < 0.3: options(r, 'b', 2, 1); r.run('b')
    f.env = dict(LD_PRELOAD=os.path.join(os.path.dirname(os.environ.get('BOOZ_PKG', '/verif/.work/pkg')), 'fault.so'))
    return f

# ------------------------------------------------------------------ command line drivers
def cli_equilibria(r, rng, names, big=False):
    for n in names:
        eq = equilibrium(rng, wout=True, ns=choose(rng, 2, 3, 4, 4), mpol=choose(rng, 1, 1, 2), ntor=choose(rng, 0, 1, 2) if big else choose(rng, 0, 0, 1), nfp=choose(rng, 1, 2, 5))
        f = 'wout_%s.nc' % n
        os.makedirs(os.path.dirname(f) or '.', exist_ok=True)
        write_wout(f, eq)
        r.mkfile(f)

def s_cli_texts(texts, impl):
    """Texts generated by GenCli.tla."""
    def f(r, rng):
        cli_equilibria(r, rng, ['a', 'a1', '1', '-', 'a-0'])
        for t in texts:
            r.cli(impl, t)
    return f

def codes(s): return [ord(c) for c in s]

def s_cli_valid(impl, n):
    """Well formed files in many layouts; surfaces in any order."""
    def f(r, rng):
        names = ['li383_1.4m', 'a', '7', '-3', "x'y+1", 'q_w.e'] + [str(q) for q in rng.permutation(
            ['q.nc', 'wout_q', 'wout_q.nc', 'boozmn_q', 'boozmn_q.nc', 'Q', 'a.', '%s', '%d', '~', '$HOME', 'in.q', '.nc', 'nc', '_', '0', '1e3', '*', '#1', '!', '"q"',
             'a,b', 'q' * 120, 'a;b', '\\n', '-h', '--help', '{x}', 'wout_', 'q=1'])[:7]]
        cli_equilibria(r, rng, names, big=True)
        for _ in range(n):
            sp = lambda: choose(rng, ' ', '\n', '  ', '\t', '\r\n', ' \n\n ', '\v', '\f ')
            num = lambda v: choose(rng, '%d', '%d', '%+d', '%04d') % v
            surfs = [int(v) for v in rng.integers(0, choose(rng, 1, 2, 3, 3, 4), int(rng.integers(0, 5)) if rng.random() < 0.94 else int(rng.integers(30, 600)))]
            if rng.random() < 0.1: surfs.append(choose(rng, -1, 17, 2**31 - 1))
            mb = choose(rng, 1, 3, 7, 12, 13, 15, 0, -5); nb = choose(rng, 0, 1, 2, 4, -3)
            t = choose(rng, '', ' ', '\n') + num(mb) + sp() + num(nb) + sp() + choose(rng, *names)
            for v in surfs: t += sp() + num(v)
            t += choose(rng, '', '\n', ' ', ' x', '\n# 1 2', '.5', ',3', ' 99999999999 1', ' 2147483648', ' -2147483649 0', ' 4294967296', ' 18446744073709551616', '\n+', ' 1 +-2', ' 0 -', ' \0 1', '\n-', ' 0x1', '\n\xe9 1', ' \xff', '\xa0 1', '\n# \u00fc 0'.encode().decode('latin-1'))
            # (The wout file is in the current directory, wherever the input file is.)
            if rng.random() < 0.1:
                os.makedirs('in.d', exist_ok=True); r.cli(impl, codes(t), path='in.d/' + choose(rng, 'in.txt', 'a b', 'wout_a.nc'))
            elif rng.random() < 0.05: r.cli(impl, codes(t), path=os.path.abspath('in_booz.a'))
            else: r.cli(impl, codes(t))
    return f

def s_cli_failures(impl):
    def f(r, rng):
        cli_equilibria(r, rng, ['a', 'nodir/a', 'dir'])
        eq = equilibrium(rng, wout=True, ns=3, mpol=1, ntor=0)
        write_wout('wout_cut.nc', eq, drop=['bmnc'])
        write_wout('wout_iota.nc', eq, drop=['iotas'])
        eq2 = dict(eq, xm=eq['xm'] + 1)
        write_wout('wout_modes.nc', eq2)
        open('wout_text.nc', 'w').write('nothing\n')
        os.mkdir('boozmn_dir.nc')
        r.mkfile('wout_cut.nc', 'wout_iota.nc', 'wout_modes.nc', 'wout_text.nc', 'boozmn_dir.nc', 'boozmn_nodir/a.nc')
        for e in ('a', 'cut', 'iota', 'modes', 'text', 'none', 'dir', 'nodir/a'):
            for rest in ('', '0\n'):
                r.cli(impl, codes('6 0\n%s\n%s' % (e, rest)))
        for s in ('-1', '0 99', '2147483647', '-2147483648', '5 5 5 0'):
            r.cli(impl, codes('6 1\na\n%s\n' % s))
        r.cli(impl, None)                       # no such file
        r.cli(impl, [], [])                     # no argument
        r.cli(impl, codes('6 0\na\n'), ['in.txt', 'in.txt'])
        r.cli(impl, codes('6 0\na\n'), ['in.txt', '0', '1'])
        r.cli(impl, [], ['in.txt'])
        r.cli(impl, codes('\n\n \t'))
        r.cli(impl, codes('6'))
        r.cli(impl, codes('6 1'))
        r.cli(impl, codes('6 1 \n'))
        r.cli(impl, codes('6 1 a'))
        os.mkdir('d')
        r.event('note', '-', lambda: None)
        r.cli(impl, None, ['d'])                # a directory
    return f

def s_cli_real(impl, name, text):
    """An equilibrium of the repository's tests."""
    def f(r, rng):
        w = 'wout_%s.nc' % name
        shutil.copy(os.path.join(TESTFILES, w), w)
        r.mkfile(w)
        r.cli(impl, codes(text % name))
    return f

# ------------------------------------------------------------------ plots
def plot_options(rng, fn, x, file):
    """Random options; also none."""
    n = len(x.compute_surfs)
    def maybe(p, **kw): return kw if rng.random() < p else {}
    if rng.random() < 0.12 and not (fn == 'wireplot' and file): return {}, {}
    if fn == 'surfplot':
        o = dict(maybe(0.7, js=int(rng.integers(n) - (n if rng.random() < 0.25 else 0))), **maybe(0.7, ntheta=int(rng.integers(2, 12))), **maybe(0.7, nphi=int(rng.integers(2, 12))),
                 **maybe(0.5, fill=bool(rng.integers(2))), **maybe(0.4, ncontours=int(rng.integers(2, 9))))
        return o, dict(maybe(0.3, cmap='jet'), **maybe(0.3, alpha=0.5))
    rad = dict(maybe(0.5, sqrts=bool(rng.integers(2))), **maybe(0.6, log=bool(rng.integers(2))), **maybe(0.5, B0=bool(rng.integers(2))),
               **maybe(0.3, ymin=float(10.0 ** rng.uniform(-6, 0))))
    if rng.random() < 0.5:
        rad['remove_helicity'] = choose(rng, (1, 0), (1, x.nfp), (1, -x.nfp), (0, 1), (2, x.nfp), (1, 2 * x.nfp), (0, x.nfp))
    ex = dict(maybe(0.3, marker='.'), **maybe(0.3, legend_args={'loc': 1, 'framealpha': choose(rng, 1, 0.25)}), **maybe(0.2, linewidth=2))
    if fn == 'symplot':
        return dict(rad, **maybe(0.5, max_m=int(rng.integers(0, x.mboz + 1))), **maybe(0.5, max_n=int(rng.integers(0, x.nboz + 2))),
                    **maybe(0.6, helical_detail=bool(rng.integers(2)))), ex
    if fn == 'modeplot':
        return dict(rad, **maybe(0.7, nmodes=int(rng.integers(0, 15)))), ex
    o = dict(maybe(0.7, js=int(rng.integers(n) - (n if rng.random() < 0.25 else 0))), ntheta=int(rng.integers(1, 6)), nphi=int(rng.integers(1, 7)), **maybe(0.8, refine=int(rng.integers(1, 5))),
             **maybe(0.5, surf=bool(rng.integers(2))))
    if file: o['orig'] = False
    else: o.update(maybe(0.5, orig=bool(rng.integers(2))))
    return o, {}

PLOTS = ['surfplot', 'symplot', 'modeplot', 'wireplot']
def s_plots(fns=PLOTS, n=6, res=None, **kw):
    def f(r, rng):
        eq = equilibrium(rng, **dict(dict(ntor=choose(rng, 0, 1, 2), ns=choose(rng, 2, 3, 5, 6)), **kw))
        r.setup('a', eq)
        radii(r, rng, 'a')
        N = eq['ns'] - 1
        surfs = selection(rng, N) if rng.random() < 0.4 else np.arange(N) if rng.random() < 0.6 else np.sort(rng.permutation(N)[:max(1, N - 1)])
        options(r, 'a', *(res or (int(rng.integers(1, 7)), int(rng.integers(0, 4)))), surfs)
        r.run('a'); r.write('a', 'boozmn_p.nc')
        r.new('b'); r.set('b', 'verbose', 0); r.readb('b', 'boozmn_p.nc')
        for _ in range(n):
            fn = choose(rng, *fns)
            how = choose(rng, 'a', 'a', 'b', 'f')
            opts, extra = plot_options(rng, fn, r.objs['a'], how != 'a')
            if how == 'f': r.plot(fn, 'b', f='boozmn_p.nc', opts=opts, extra=extra)
            else: r.plot(fn, how, opts=opts, extra=extra)
            if rng.random() < 0.4:   # the same figure from the other source
                other = 'b' if how == 'f' else 'f'
                if fn == 'wireplot': opts = dict(opts, orig=False)
                r.plot(fn, 'b', f='boozmn_p.nc' if other == 'f' else '', opts=opts, extra=extra)
            if rng.random() < 0.2:   # other results in the same object
                options(r, 'a', int(rng.integers(1, 7)), int(rng.integers(0, 4)), selection(rng, N))
                r.run('a'); r.write('a', 'boozmn_p.nc'); r.readb('b', 'boozmn_p.nc')
    return f

def s_plot_bad(r, rng):
    eq = equilibrium(rng, ns=3, mpol=2, ntor=1)
    r.setup('a', eq); options(r, 'a', 3, 1); r.run('a'); r.write('a', 'b.nc')
    open('text.nc', 'w').write('nothing')
    r.mkfile('text.nc', 'none.nc', 'b.nc')
    for fn in PLOTS:
        for arg in (7, [1], {'b': 1}, 2.5, b'b.nc'):
            r.plot(fn, 'a', arg=arg)
        for f in ('text.nc', 'none.nc'):
            r.plot(fn, 'a', f=f)
        if fn in ('surfplot', 'wireplot'):   # no such surface
            for js in (2, 7, -3, -9): r.plot(fn, 'a', opts=dict(js=js, ntheta=2, nphi=2))
        r.plot(fn, 'a', f='b.nc', opts=dict(orig=False, ntheta=2, nphi=2) if fn == 'wireplot' else {})
        r.plot(fn, 'a', opts=dict(ntheta=2, nphi=2) if fn == 'wireplot' else {})

# ------------------------------------------------------------------ families
def many(name, n, fn):
    return [('%s-%d' % (name, i), fn() if isinstance(fn, type(lambda: 0)) and fn.__name__ == '<lambda>' else fn) for i in range(n)]

def families(prop, thorough=False):
    k = int(os.environ.get('K', 12 if thorough else 2))
    S = []
    def add(name, n, fn): S.extend(('%s-%d' % (name, i), fn) for i in range(n))
    def parts(name, n, make):
        for rep in range(k): S.extend(('%s-%d.%d' % (name, i, rep), make(i, n)) for i in range(n))
    if prop == 'C01':
        add('transform', 60 * k, s_transform())
        add('large', 4 * k, s_transform(res=(24, 12), mpol=4, ntor=3, ns=3))
        add('huge', 2 * k, s_huge_grid); add('grid', 12 * k, s_large_grid); add('edges', 10 * k, s_transform(res=(1, 0))); add('edges2', 6 * k, s_transform(res=(1, 4))); add('edges3', 6 * k, s_transform(res=(9, 0)))
        add('scaled', 12 * k, s_scaled); add('wide', 8 * k, s_wide)
        add('onemode', 4 * k, s_transform(mpol=1, ntor=0, mnyq=0, nnyq=0))
        add('nyqsmall', 6 * k, s_transform(mpol=4, ntor=3, mnyq=1, nnyq=1))
        add('nyqlow', 6 * k, s_transform(res=(3, 1), mpol=2, ntor=1, mnyq=5, nnyq=6)); add('nyqlarge', 4 * k, s_transform(mpol=2, ntor=1, mnyq=12, nnyq=9))
        add('nfp', 6 * k, s_transform(nfp=19, ntor=2)); add('nfphigh', k, s_transform(nfp=1009, ntor=2, mpol=2, ns=2, res=(3, 18)))
        add('default', 8 * k, s_default_resolution())
        add('edited', 12 * k, s_edited); add('manual', 6 * k, s_manual); add('single', 40 * k, s_single_mode)
        for i in range(k):
            for n in real_names(): S.append(('real-%s-%d' % (n, i), s_real_file(n, 9 + i, 5 + i if 'tokamak' not in n else 0, 2)))
    elif prop == 'C02':
        add('converge', 14 * k, s_converge()); add('axi', 4 * k, s_converge(ntor=0)); add('asym', 6 * k, s_converge(asym=True))
        add('far', 2 * k, s_converge(steps=1, far='nu', nfp=1)); add('far2', k, s_converge(steps=1, far='lambda', nfp=1, ntor=1))
        add('huge', k, s_converge(steps=1, ntor=1, huge=True)); add('long', 2 * k, s_converge(steps=1, long=True)); add('long0', 2 * k, s_converge(steps=1, ntor=0, long=True)); add('smalltransform', 10 * k, s_transform(runs=2))
    elif prop == 'C03':
        add('shape', 60 * k, s_transform(runs=3)); add('edges', 10, s_transform(res=(1, 0))); add('default', 8, s_default_resolution())
        add('edited', 6 * k, s_edited); add('history', 10 * k, s_history())
        for n in real_names(): S.append(('real-' + n, s_real_file(n, 4, 2, 3)))
    elif prop == 'C04':
        add('surfaces', 4 * k, s_many_surfaces); add('selection', 30 * k, s_selection)
        for n in real_names(): S.append(('real-' + n, s_real_file(n, 4, 2, 3)))
    elif prop == 'C05':
        add('threads', 24 * k, s_threads); add('stress', 6 * k, s_stress); add('surfaces', 4 * k, s_many_surfaces)
        add('hundreds', 3 * k, s_hundreds); add('omp', 9 * k, s_omp); add('large', 14 * k, s_threads_large)
        S.extend(('environment-%d' % i, s_environment(i)) for i in range(9 * k))
    elif prop == 'C06':
        add('symmetry', 40 * k, s_symmetry); add('vmec', 24 * k, s_symmetry_vmec)
    elif prop == 'C07':
        add('history', 60 * k, s_history(16)); add('twins', 20 * k, s_twins); add('verbosity', 10 * k, s_threads); add('selection', 6 * k, s_selection); add('used', 8 * k, s_accept_used)
        add('symmetry', 8 * k, s_symmetry)
    elif prop == 'C08':
        add('load', 80 * k, s_load()); add('flux', 12 * k, s_load_flux); add('ns2', 8 * k, s_load(ns=2)); add('ns3', 8 * k, s_load(ns=3))
        add('asym', 16 * k, s_load(asym=True)); add('used', 10 * k, s_accept_used)
        add('large', 2 * k, s_load(ns=40, mpol=5)); add('surfaces', 2 * k, s_load_many); add('wide', 20 * k, s_load_wide)
    elif prop == 'C09':
        parts('load', 24, s_reject_load)
        add('pairs', 16 * k, s_reject_load(0, 1, pairs=True)); add('run', 16 * k, s_reject_run); add('state', 8 * k, s_reject_state); add('tables', 16 * k, s_reject_tables); add('unwritable', 4 * k, s_write_reject)
        add('used', 20 * k, s_accept_used); parts('wout', 6, s_wout_shape); add('history', 10 * k, s_history())
        add('valid', 16 * k, s_load()); add('acceptlarge', 8 * k, s_accept_large); add('acceptwide', 6 * k, s_load_wide)
    elif prop == 'C10':
        add('wout', 60 * k, s_wout)
        for n in real_names(): S.append(('real-' + n, s_wout_real(n)))
        parts('missing', 4, s_wout_missing); add('order', 12 * k, s_wout_order)
    elif prop == 'C11':
        add('write', 60 * k, s_write); add('fluxes', 12 * k, s_write_flux); add('edited', 12 * k, s_write_edited); add('history', 10 * k, s_history())
        add('foreign', 14 * k, s_read_foreign); add('hundreds', 2 * k, s_hundreds); add('unwritable', 12 * k, s_write_reject)
    elif prop == 'C12':
        add('roundtrip', 50 * k, s_roundtrip); add('fluxes', 6 * k, s_write_flux); add('foreign', 30 * k, s_read_foreign); add('edited', 8 * k, s_write_edited)
        for n in sorted(os.path.basename(f) for f in glob.glob(TESTFILES + '/boozmn_*.nc')):
            if thorough or os.path.getsize(TESTFILES + '/' + n) < 1e6: S.append(('real-' + n, s_read_real(n)))
        add('history', 8 * k, s_history())
    elif prop == 'C13':
        parts('wout-missing', 6, s_wout_missing); parts('boozmn-missing', 6, s_boozmn_missing)
        parts('wout-shape', 4, s_wout_shape); parts('boozmn-shape', 8, s_boozmn_shape)
        for op in ('wout', 'readb', 'write'): add('bad-' + op, 4 * k, s_bad_files(op))
        add('limit', 10 * k, s_size_limit); add('unwritable', 8 * k, s_write_reject)
        for op in ('wout', 'readb'):
            for fmt in ('classic', 'offset64', 'netcdf4', 'netcdf4classic'):
                if fmt[0] == 'n': add('short-%s-%s' % (op, fmt), k, s_truncated(op, fmt, 'data'))
                else: S.append(('truncated-%s-%s' % (op, fmt), s_truncated(op, fmt, 'data')))   # known finding
                add('cut-%s-%s' % (op, fmt), k, s_truncated(op, fmt, 'head'))
        for kind in range(4):
            add('fault-write-%d' % kind, 2 * k, s_faults('write', kind)); add('fault-large-%d' % kind, k, s_faults('write', kind, big=True)); add('fault-readb-%d' % kind, k, s_faults('readb', kind)); add('fault-wout-%d' % kind, k, s_faults('wout', kind))
            add('fault-wout64-%d' % kind, k, s_faults('wout', kind, 'offset64')); add('fault-readb5-%d' % kind, k, s_faults('readb', kind, 'data64'))
    elif prop == 'C14':
        for impl, n in (('cpp', 8), ('py', 8), ('pysub', 1)):
            add('valid-' + impl, n * k, s_cli_valid(impl, 30 if impl != 'pysub' else 4))
            add('failures-' + impl, 1, s_cli_failures(impl))
    elif prop == 'C15':
        add('report', 40 * k, s_report()); add('report2', 10 * k, s_report(verbose=2, threads=6)); add('axi', 8 * k, s_report(ntor=0, nnyq=0))
        add('fine', 10 * k, s_report_fine); add('finer', 2 * k, s_report_finer); add('exact', 8 * k, s_report_exact); add('far', 4 * k, s_report_far)
        add('stress', 4 * k, s_stress); add('quiet', 8 * k, s_quiet)
        for v in (-1, 3): add('verbose%d' % v, 3, s_report(verbose=v))
    elif prop == 'C16':
        for fn in PLOTS: add(fn, 24 * k, s_plots([fn]))
        add('mixed', 16 * k, s_plots(n=10)); add('axi', 4 * k, s_plots(ntor=0, nnyq=0)); add('asym', 12 * k, s_plots(asym=True))
        add('nfp', 3 * k, s_plots(nfp=137)); add('modes', 4 * k, s_plots(res=(11, 8), ntor=2))
        add('bad', 2 * k, s_plot_bad)
    elif prop == 'C17':
        add('attributes', 20 * k, s_attributes); add('outputs', 8 * k, s_outputs); add('new', 12 * k, s_new_after); add('many', k, s_new_many)
    if prop in ('C03', 'C08', 'C10', 'C11', 'C12'): add('long', 5 * k, s_vast('long'))
    if prop in ('C03', 'C04', 'C06', 'C07', 'C11', 'C12'): add('wide_', 5 * k, s_vast('wide'))
    if prop in ('C07', 'C13', 'C17'): add('often', k, s_vast('often'))
    return S
