"""Synthetic equilibria: the arguments of init_from_vmec and the mode tables set before it.

Amplitudes are arbitrary (the transform is defined for any data); only
nonzero |B| and G + iota I are needed. "smooth" gives data whose Boozer series
converges quickly.
"""
import numpy as np

def mode_table(rng, mpol, ntor, nfp, full=True, m_extra=0):
    """VMEC order: m = 0, n = 0..ntor; then m = 1.., n = -ntor..ntor.
    Not full: any subset in any order, also with m = 0, n < 0."""
    t = [(0, n) for n in range(ntor + 1)]
    for m in range(1, mpol + m_extra):
        t += [(m, n) for n in range(-ntor, ntor + 1)]
    if not full:
        # Any subset and order that keeps (0,0) first and n = ntor last.
        mid = t[1:]
        if rng.random() < 0.5:
            mid += [(0, -n) for n in range(1, ntor + 1)]
        last = [q for q in t if q[1] == ntor and (q != (0, 0))] or [(0, 0)]
        end = last[rng.integers(len(last))]
        mid = [q for q in mid if q != end]
        keep = rng.integers(0, len(mid) + 1)
        mid = [mid[i] for i in rng.permutation(len(mid))[:keep]]
        t = [(0, 0)] + mid + ([end] if end != (0, 0) else [])
    m = np.array([q[0] for q in t], dtype=int)
    n = np.array([q[1] * nfp for q in t], dtype=int)
    return m, n

def equilibrium(rng, nfp=None, asym=None, mpol=None, ntor=None, ns=None, smooth=False, flux=None,
                full=None, zero_asym=False, wout=False, sign_G=None, current=None, mnyq=None, nnyq=None):
    pick = lambda v, *c: v if v is not None else c[rng.integers(len(c))]
    nfp = pick(nfp, 1, 2, 3, 5, 10)
    asym = bool(pick(asym, False, True))
    mpol = pick(mpol, 1, 2, 3, 4)
    ntor = pick(ntor, 0, 1, 2, 3)
    ns = pick(ns, 2, 3, 4, 6)
    full = pick(full, True, True, False)
    flux = pick(flux, False, True)
    # Nyquist table: at least one mode; may be smaller or larger than the other one.
    mpol_nyq = mnyq if mnyq is not None else int(rng.integers(max(0, mpol - 1), mpol + 4))
    ntor_nyq = nnyq if nnyq is not None else (0 if ntor == 0 and rng.random() < 0.7 else int(rng.integers(ntor, ntor + 3)))
    xm, xn = mode_table(rng, mpol, ntor, nfp, full)
    xm_nyq, xn_nyq = mode_table(rng, mpol_nyq + 1, ntor_nyq, nfp, full)
    if wout:
        # read_wout takes the resolution from the last entry.
        xm_nyq = np.append(xm_nyq, mpol_nyq) if xm_nyq[-1] != mpol_nyq else xm_nyq
        if len(xn_nyq) != len(xm_nyq):
            xn_nyq = np.append(xn_nyq, ntor_nyq * nfp)
            # no duplicate
            dup = [i for i in range(len(xm_nyq) - 1) if (xm_nyq[i], xn_nyq[i]) == (xm_nyq[-1], xn_nyq[-1])]
            xm_nyq, xn_nyq = np.delete(xm_nyq, dup), np.delete(xn_nyq, dup)
    mnmax, mnmax_nyq = len(xm), len(xm_nyq)
    s_full = np.linspace(0, 1, ns)

    def decay(m, n):
        k = np.abs(m) + np.abs(n) / nfp
        return 0.3 ** k if smooth else 0.6 ** k
    def amp(m, n, size):
        a = rng.standard_normal((len(m), ns)) * decay(m, n)[:, None] * size
        if smooth:   # smooth in radius too
            a = (rng.standard_normal(len(m)) * decay(m, n) * size)[:, None] * (0.5 + 0.5 * s_full[None, :])
        return a
    d1 = 0.03 if smooth else 0.3
    eq = dict(nfp=nfp, asym=asym, mpol=mpol, ntor=ntor, mnmax=mnmax, xm=xm, xn=xn, mpol_nyq=mpol_nyq, ntor_nyq=ntor_nyq,
              mnmax_nyq=mnmax_nyq, xm_nyq=xm_nyq, xn_nyq=xn_nyq, ns=ns, aspect=float(rng.uniform(2, 12)))
    iota = rng.uniform(0.2, 1.6, ns) * (1 if rng.random() < 0.5 else -1)
    if rng.random() < 0.1:
        iota[rng.integers(ns)] = 0.0
    if not smooth and rng.random() < 0.1:   # any size
        iota = iota * 10.0 ** rng.uniform(-3, 2)
    iota[0] = 0
    eq['iotas'] = iota
    zero_m = (xm == 0) & (xn == 0)
    zero_q = (xm_nyq == 0) & (xn_nyq == 0)
    R = amp(xm, xn, 0.3); R[zero_m] = rng.uniform(3, 9) + 0.2 * s_full
    Z = amp(xm, xn, 0.3)
    # Odd m vanish on axis like sqrt(s); m > 0 vanish there.
    Z[zero_m] = 0 if rng.random() < 0.5 else Z[zero_m]
    odd = (xm % 2 == 1)
    R[odd] *= np.sqrt(s_full); Z[odd] *= np.sqrt(s_full)
    L = amp(xm, xn, d1)
    B = amp(xm_nyq, xn_nyq, 0.05 if smooth else 0.2); B[zero_q] = rng.uniform(2, 6) + 0.1 * np.arange(ns)
    sG = sign_G if sign_G is not None else (1 if rng.random() < 0.6 else -1)
    G0 = sG * rng.uniform(4, 12)
    cur = current if current is not None else (0.0 if rng.random() < 0.2 else rng.uniform(-0.8, 0.8) * (10.0 ** rng.uniform(-8, 0) if rng.random() < 0.15 else 1))
    bu = amp(xm_nyq, xn_nyq, d1 * abs(G0) * 0.3); bu[zero_q] = cur * (0.3 + s_full)
    bv = amp(xm_nyq, xn_nyq, d1 * abs(G0) * 0.3); bv[zero_q] = G0 * (1 + 0.05 * s_full)
    for M in (L, B, bu, bv):
        M[:, 0] = 0
    eq.update(rmnc0=R, zmns0=Z, lmns0=L, bmnc0=B, bsubumnc0=bu, bsubvmnc0=bv)
    if asym or zero_asym:
        A = [amp(xm, xn, 0.2), amp(xm, xn, 0.2), amp(xm, xn, d1), amp(xm_nyq, xn_nyq, 0.03 if smooth else 0.1),
             amp(xm_nyq, xn_nyq, d1 * abs(G0) * 0.2), amp(xm_nyq, xn_nyq, d1 * abs(G0) * 0.2)]
        A[0][odd] *= np.sqrt(s_full); A[1][odd] *= np.sqrt(s_full)
        for M in A[2:]:
            M[:, 0] = 0
        if zero_asym:
            A = [0 * M for M in A]
        for k, M in zip(['rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0'], A):
            eq[k] = M
    if not smooth and np.abs(iota).max() < 2 and rng.random() < 0.12:
        # Boozer angles far from the original ones.
        far = 10.0 ** rng.uniform(0, 1)
        for k in eq:
            if k in ('lmns0', 'lmnc0') or k[:4] == 'bsub':
                c = (zero_q if k[0] == 'b' else zero_m)[:, None]
                eq[k] = np.where(c, eq[k], eq[k] * far)
    if ns > 2 and rng.random() < 0.35:
        # Surfaces that share some of their data.
        half = [k for k in eq if k in ('lmns0', 'lmnc0', 'iotas') or k[0] == 'b' and k[-1] == '0']
        for k in choose_some(rng, half):
            i, j = 1 + rng.permutation(ns - 1)[:2]
            if rng.random() < 0.5: eq[k][..., j] = eq[k][..., i]
            else: eq[k][..., 1:] = eq[k][..., i:i + 1]
    if flux:
        psi = rng.uniform(0.5, 3) * (1 if rng.random() < 0.5 else -1)
        eq.update(phips=psi * (1 + 0.1 * rng.standard_normal(ns)), chi=psi * s_full * 0.4 + 0.1 * rng.standard_normal(ns),
                  pres=1e4 * rng.random(ns), phi=psi * s_full * (1 + 0.01 * rng.standard_normal(ns)))
        if rng.random() < 0.15:   # zeros, also at the boundary
            k = ('phips', 'chi', 'pres', 'phi')[rng.integers(4)]
            if rng.random() < 0.3: eq[k] = 0 * eq[k]
            else: eq[k][-1 if rng.random() < 0.6 else rng.integers(ns)] = 0
    return eq

def choose_some(rng, l):
    """One, all but one, or any of them."""
    l = [l[i] for i in rng.permutation(len(l))]
    return l[:int([1, len(l) - 1, rng.integers(1, len(l) + 1)][rng.integers(3)])]

def scaled(rng, eq, top=30):
    """The same equilibrium in other units: lengths and fields times powers of ten."""
    L = 10.0 ** rng.integers(-top, top + 1); B = 10.0 ** rng.integers(-top, top + 1)
    for k in eq:
        if k[:4] in ('rmnc', 'rmns', 'zmnc', 'zmns'): eq[k] = eq[k] * L
        elif k[:2] == 'bm': eq[k] = eq[k] * B
        elif k[:4] == 'bsub': eq[k] = eq[k] * (B * L)
    return eq

def wide(rng, eq_kw):
    """A sparse mode table with high mode numbers, in any order."""
    e = dict(mpol=int(rng.integers(5, 16)), ntor=int(rng.integers(5, 14)), full=False, mnyq=int(rng.integers(5, 20)), nnyq=int(rng.integers(5, 18)))
    e.update(eq_kw)
    return thin(rng, equilibrium(rng, **e))

def thin(rng, eq, keep=7):
    """Keep the first, the last and a few other modes of both tables."""
    for q, mats in (('', ('rmnc0', 'zmns0', 'lmns0', 'rmns0', 'zmnc0', 'lmnc0')), ('_nyq', ('bmnc0', 'bsubumnc0', 'bsubvmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0'))):
        n = eq['mnmax' + q]
        i = np.array([0] + list(1 + rng.permutation(max(0, n - 2))[:keep]) + ([n - 1] if n > 1 else []))
        eq['xm' + q], eq['xn' + q], eq['mnmax' + q] = eq['xm' + q][i], eq['xn' + q][i], len(i)
        for k in mats:
            if k in eq: eq[k] = eq[k][i] * 1.0
    return eq

def selection(rng, n_in):
    """Any list of surfaces: order, subset, repetition."""
    k = rng.integers(6)
    if k == 0: return np.arange(n_in)
    if k == 1: return np.arange(n_in)[::-1].copy()
    if k == 2: return np.array([rng.integers(n_in)])
    if k == 3: return rng.permutation(n_in)[:max(1, n_in - 1)].copy()
    if k == 4: return rng.integers(0, n_in, size=rng.integers(1, n_in + 3))
    return np.sort(rng.integers(0, n_in, size=rng.integers(1, n_in + 2)))

def resolution(rng, big=False):
    mboz = int(rng.integers(1, 9 if not big else 14))
    nboz = int(rng.integers(0, 6 if not big else 9)) if rng.random() < 0.8 else 0
    return mboz, nboz

def related_resolution(rng, mboz, nboz, top=9):
    """Another resolution: swapped, with as many grid points, or with as many modes, if there is one."""
    mn = lambda m, n: (2 * n + 1) * (m - 1) + n + 1
    nz = lambda n: 2 * (2 * n + 1) if n else 1
    pts = lambda m, n, asym: ((4 * m + 2) if asym else (2 * m + 2)) * nz(n)
    all_ = [(m, n) for m in range(1, 2 * top) for n in range(top) if (m, n) != (mboz, nboz) and m * (n + 1) <= 4 * top]
    good = [[(nboz, mboz)] if nboz >= 1 and nboz != mboz else []]
    for a in (False, True):
        for b in (False, True): good.append([q for q in all_ if pts(*q, b) == pts(mboz, nboz, a)])
    good.append([q for q in all_ if mn(*q) == mn(mboz, nboz)])
    good.append([(mboz + 1, nboz), (mboz, nboz + 1)])
    good = [g for g in good if g]
    g = good[rng.integers(len(good))]
    return g[rng.integers(len(g))]

def wout_vars(eq, types=None, flux=True):
    """Variables of a wout file with the data of eq: (dims, list of variables)."""
    t = {'s': 'int', 'r': 'double', 'x': 'double'}
    if types: t.update(types)
    ns = eq['ns']
    dims = {'radius': ns, 'mn_mode': eq['mnmax'], 'mn_mode_nyq': eq['mnmax_nyq']}
    v = [('lasym__logical__', t['s'], [], int(eq.get('lasym', eq['asym']))), ('ns', t['s'], [], ns)]
    for k in ['nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq']:
        v.append((k, t['s'], [], eq[k]))
    v.append(('aspect', t['r'], [], eq['aspect']))
    v.append(('iotas', t['r'], ['radius'], eq['iotas']))
    if flux and 'phips' in eq:
        for k, a in (('phipf', 'phips'), ('chi', 'chi'), ('pres', 'pres'), ('phi', 'phi')):
            v.append((k, t['r'], ['radius'], eq[a]))
    for k in ['xm', 'xn']:
        v.append((k, t['x'], ['mn_mode'], eq[k]))
    for k in ['xm_nyq', 'xn_nyq']:
        v.append((k, t['x'], ['mn_mode_nyq'], eq[k]))
    names = ['rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc']
    if eq['asym']:
        names += ['rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns']
    for k in names:
        v.append((k, t['r'], ['radius', 'mn_mode_nyq' if k[0] == 'b' else 'mn_mode'], eq[k + '0'].T))
    return dims, v

def write_wout(f, eq, fmt='classic', types=None, flux=True, order=None, drop=(), extra=()):
    import nc
    dims, v = wout_vars(eq, types, flux)
    v = [q for q in v if q[0] not in drop] + list(extra)
    if order is not None:
        v = [v[i] for i in order.permutation(len(v))]
    nc.write(f, fmt, dims, v)
