"""Is the specification bound to what is recorded? Corrupts one recorded observation at a time and lets
TLC judge: prints, for each kind of call and observation, how many corruptions are rejected, those accepted,
and evaluation errors. Not part of the checks: run by hand (bin/bindtest.sh)."""
import copy, json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('MPLBACKEND', 'Agg')
import build
build.build(); sys.path.insert(0, build.WORK + '/pkg')
import run, scen, tlc
from rec import *
from data import *

def small(r, rng):
    eq = equilibrium(rng, nfp=2, asym=True, mpol=2, ntor=1, ns=4, mnyq=2, nnyq=1, full=True, flux=True)
    sy = equilibrium(rng, nfp=3, asym=False, mpol=2, ntor=1, ns=3, mnyq=2, nnyq=1, full=True, flux=True)
    write_wout('w.nc', eq); write_wout('s.nc', sy)
    r.mkfile('w.nc', 's.nc')
    r.new('a'); r.set('a', 'verbose', 1)
    r.wout('a', 'w.nc', flux=True)
    r.set('a', 'mboz', 2); r.set('a', 'nboz', 1); r.set('a', 'compute_surfs', np.array([2, 0])); r.set('a', 'bmnc_b', np.zeros((1, 1)))
    r.set('a', 'aspect', 3.5)
    r.run('a', threads=2, sched=())
    r.write('a', 'f.nc')
    r.new('b'); r.set('b', 'verbose', 0); r.header('b', sy); r.load('b', sy)
    r.set('b', 'mboz', 2); r.set('b', 'nboz', 0); r.run('b')
    r.clone('c', 'a', verbose=0); r.run('c')
    r.readb('b', 'f.nc')
    r.write('b', 'g.nc')
    r.set('c', 'compute_surfs', np.array([9])); r.run('c')
    r.set('c', 'compute_surfs', np.array([1])); r.write('c', 'f.nc')
    r.wout('c', 'missing.nc')
    r.new('d'); r.readb('d', 's.nc')
def plots(r, rng):
    eq = equilibrium(rng, nfp=2, asym=True, mpol=2, ntor=1, ns=4, mnyq=2, nnyq=1, full=True, flux=True)
    r.setup('a', eq)
    r.set('a', 'mboz', 2); r.set('a', 'nboz', 1); r.run('a')
    r.plot('surfplot', 'a', opts=dict(ntheta=4, nphi=5), extra=dict(levels=3))
    r.plot('symplot', 'a'); r.plot('symplot', 'a', opts=dict(log=False, B0=True), extra=dict(marker='x'))
    r.plot('modeplot', 'a'); r.plot('modeplot', 'a', opts=dict(nmodes=3, sqrts=True))
    r.plot('wireplot', 'a', opts=dict(ntheta=4, nphi=4, refine=2, orig=True))
def cli(r, rng):
    eq = equilibrium(rng, nfp=2, asym=True, mpol=1, ntor=1, ns=4, mnyq=1, nnyq=1, full=True, flux=False)
    write_wout('wout_t.nc', eq); r.mkfile('wout_t.nc')
    r.cli('cpp', [ord(c) for c in '4 2\nt\n2 0\n']); r.cli('py', [ord(c) for c in '4 2\nt\n']); r.cli('cpp', [ord(c) for c in '4 x'])
    r.cli('cpp', None); r.cli('cpp', None, [])

def corrupt(v, rng):
    """Other values of a JSON value: (kind, value)."""
    out = []
    if isinstance(v, bool): out.append(('flipped', not v))
    elif isinstance(v, int): out += [('+1', v + 1), ('-1', v - 1)]
    elif isinstance(v, str): out.append(('other', v + '_'))
    elif isinstance(v, dict) and set(v) == {'r', 'c', 'd'}:
        if v['d']:
            i = rng.randrange(len(v['d']) // 2)
            d = list(v['d']); d[2 * i] ^= 1; out.append(('value', dict(v, d=d)))
            d = list(v['d']); d[2 * i] ^= -2**31; out.append(('sign', dict(v, d=d)))
            out.append(('no column', dict(v, c=v['c'] - 1, d=v['d'][:-2 * v['r']])))
            out.append(('transposed', dict(v, c=v['r'], r=v['c'])))
            out.append(('empty', {'r': 0, 'c': 0, 'd': []}))
            out.append(('nan', dict(v, d=[0x7ff80000, 0] + v['d'][2:])))
        else: out.append(('1x1', {'r': 1, 'c': 1, 'd': [0x3ff00000, 0]}))
    elif isinstance(v, list):
        if v:
            i = rng.randrange(len(v))
            w = list(v)
            if isinstance(w[0], int): w[i - (i % 2)] ^= 1; out.append(('value', w))
            out.append(('shorter', v[:-2] if len(v) % 2 == 0 else v[:-1])); out.append(('empty', []))
            if len(v) > 1 and v[::-1] != v: out.append(('reversed', v[::-1]))
            if not isinstance(v[0], int):
                for k, w in corrupt(v[i], rng): out.append(('[].' + k, v[:i] + [w] + v[i + 1:]))
        else: out.append(('two', [0x3ff00000, 0]))
    elif isinstance(v, dict):
        for k in v:
            for n, w in corrupt(v[k], rng): out.append(('%s.%s' % (k, n), dict(v, **{k: w})))
            if len(v) > 1 and k not in ('t', 'dims', 'v', 'format', 'vars', 'k', 'r', 'c', 'd'): out.append((k + ' missing', {q: v[q] for q in v if q != k}))
    return out

def variants(events, rng):
    state = {}
    for i, e in enumerate(events):
        for o, d in e['chg'].items(): state.setdefault(o, {}).update(d)
        def var(what, **kw): yield_.append((i, e['op'], what, dict(copy.deepcopy(e), **kw)))
        yield_ = []
        if e['op'] == 'mkfile': continue
        for out in {'ok', 'error', 'crash'} - {e['out']}: var('out ' + out, out=out)
        if 'fds' in e: var('fds', fds=1)
        for k in ('nout', 'rep', 'log', 'fig', 'exit', 'usage', 'bye', 'made', 'fchg'):
            if k in e:
                for n, w in corrupt(e[k], rng): var('%s %s' % (k, n), **{k: w})
        if e['out'] in ('ok', 'error') and e['op'] not in ('mkfile', 'cli'):
            for o in state:
                for a in ATTRS:
                    for n, w in corrupt(state[o][a], rng):
                        if e['op'] in ('new', 'clone') and o == e['o'] or a in e['chg'].get(o, {}) or n in ('value', 'flipped', '+1', '1x1', 'two'):
                            var('%s.%s %s' % ('self' if o == e['o'] else 'other', a, n), chg=dict(e['chg'], **{o: dict(e['chg'].get(o, {}), **{a: w})}))
        yield from yield_

def main():
    W = build.WORK + '/bindtest%d' % os.getpid()
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    only = os.environ.get('CALLS')
    tot = {}
    fams = dict(small=small, plots=plots, cli=cli)
    for name in sys.argv[1:] or fams:
        n, broken = run.run_all([(name, fams[name])], W, W + '.ndjson', seed=1)
        if broken: raise SystemExit(broken)
        events = [json.loads(x) for x in open(W + '.ndjson')]
        base = tlc.validate(W + '.ndjson', {'C%02d' % i for i in range(1, 18)})[0]
        print(name, len(events), 'events, rejected as recorded:', base)
        v = list(variants(events, rng))
        # One of each kind of fig and file corruption.
        seen, todo = {}, []
        for x in v:
            k = (x[0], re.sub(r'\[\]\.|\d+', '', x[2]))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1 and (not only or x[0] >= int(only)): todo.append(x)
        print(len(todo), 'corruptions')
        for c in range(0, len(todo), 400): batch(events, todo[c:c + 400], W)

def batch(events, todo, W):
    with open(W + '.ndjson', 'w') as h:
        for k, (i, op, what, ev) in enumerate(todo):
            for e in events[:i] + [ev]:
                h.write(json.dumps(dict(e, scn='x%d' % k)) + '\n')
    try:
        rej = tlc.validate(W + '.ndjson', {'C%02d' % i for i in range(1, 18)})[0]
    except tlc.TlcError as e:
        if len(todo) == 1:
            i, op, what, ev = todo[0]
            print('ERROR   ', i, op, what, '::', ' '.join(re.findall(r'(?:Error|exception)[^\n]*\n[^\n]*\n[^\n]*', str(e))[:2])[:300].replace('\n', ' '))
        else:
            h = len(todo) // 2
            batch(events, todo[:h], W); batch(events, todo[h:], W)
        return
    hit = {r['scn'] for r in rej}
    for k, (i, op, what, ev) in enumerate(todo):
        if 'x%d' % k not in hit: print('ACCEPTED', i, op, what)
    sys.stdout.flush()
main()
