"""Runs calls on the real library and records them as trace events (see spec/BoozTrace.tla).

A Recorder is used inside a forked child process. Every public call becomes one
event: its arguments, its outcome, and every attribute of every object that
changed. The event is written before the call as an intent, so that the parent
can tell which call crashed.
"""
import ctypes, json, os, pickle, re, socket, sys
import numpy as np

PKG = os.environ.get('BOOZ_PKG', '/verif/.work/pkg')
if PKG not in sys.path:
    sys.path.insert(0, PKG)

INT = ['verbose', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz', 'ns_b', 'mnboz']
BOOL = ['asym']
REAL = ['aspect', 'toroidal_flux']
IVEC = ['xm', 'xn', 'xm_nyq', 'xn_nyq', 'compute_surfs', 'xm_b', 'xn_b']
RVEC = ['s_in', 'iota', 'phi', 'chi', 'phip', 'pres', 's_b', 'Boozer_G', 'Boozer_I', 'Boozer_G_all', 'Boozer_I_all']
INMAT = ['rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns']
OUTMAT = ['bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b', 'gmnc_b', 'gmns_b']
ATTRS = BOOL + INT + REAL + IVEC + RVEC + INMAT + OUTMAT
OUTPUTS = OUTMAT + ['ns_b', 's_b', 'mnboz', 'xm_b', 'xn_b', 'Boozer_G', 'Boozer_I', 'Boozer_G_all', 'Boozer_I_all']
INPUTS = [a for a in ATTRS if a not in OUTPUTS]
LOADMATS = ['rmnc0', 'rmns0', 'zmnc0', 'zmns0', 'lmnc0', 'lmns0', 'bmnc0', 'bmns0', 'bsubumnc0', 'bsubumns0', 'bsubvmnc0', 'bsubvmns0']
LOADVECS = ['phips', 'chi', 'pres', 'phi']

# ---------------------------------------------------------------- encoding
def rvec(v):
    return np.ascontiguousarray(np.asarray(v, dtype='>f8')).ravel().view('>i4').astype(int).tolist()
def mat(v):
    v = np.asarray(v, dtype=float)
    if v.ndim == 1:
        v = v.reshape(-1, 1)
    return {'r': v.shape[0], 'c': v.shape[1], 'd': rvec(np.asarray(v, dtype='>f8').T.copy().ravel()) if v.size else []}
def ivec(v):
    return [int(x) for x in np.asarray(v).ravel()]

def encode(attr, v):
    if attr in BOOL: return bool(v)
    if attr in INT: return int(v)
    if attr in REAL: return rvec([float(v)])
    if attr in IVEC: return ivec(v)
    if attr in RVEC: return rvec(v)
    return mat(v)

def snap(obj):
    """Every attribute, as copies."""
    r = {}
    for a in ATTRS:
        v = getattr(obj, a)
        r[a] = v.copy() if isinstance(v, np.ndarray) else v
    return r

def raw(v):
    return (v.shape, v.tobytes()) if isinstance(v, np.ndarray) else repr(v)

# ---------------------------------------------------------------- report
NUM = r'\s*(-?(?:\d\.\d{3}e[+-]\d+|nan|inf))'
LINE0 = re.compile(r'^\s*(\d+)\s+(\d+)\s+(\d+)\s+0' + NUM * 6 + r'\s*$')
LINEPI = re.compile(r'^\s*pi' + NUM * 6 + r'\s*$')
def parse_report(text):
    """The report lines among what a run printed: everything after the table
    heading, which ends with a line of dashes."""
    lines = text.split('\n')
    start = 0
    for i, s in enumerate(lines):
        if re.match(r'^-{20,}\s*$', s):
            start = i + 1
            break
    rep = []
    for s in lines[start:]:
        inside = bool(rep) and rep[-1]['k'] == '0'
        if not inside and (not s.strip() or s.startswith('Solving for js_b')):
            continue
        m = LINE0.match(s)
        if m:
            rep.append({'k': '0', 'thread': int(m[1]), 'jsb': int(m[2]), 'js': int(m[3]), 'v': rvec([float(m[i]) for i in range(4, 10)])})
            continue
        m = LINEPI.match(s)
        if m:
            rep.append({'k': 'pi', 'v': rvec([float(m[i]) for i in range(1, 7)])})
            continue
        rep.append({'k': 'bad', 'text': s})
    return rep

_libc = ctypes.CDLL(None)
class Capture:
    """Collects what is written to file descriptor 1."""
    def __enter__(self):
        sys.stdout.flush(); _libc.fflush(None)
        self.saved = os.dup(1)
        self.fd = os.open('.stdout', os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
        os.dup2(self.fd, 1)
        return self
    def __exit__(self, *exc):
        sys.stdout.flush(); _libc.fflush(None)
        os.dup2(self.saved, 1)
        os.close(self.saved)
        size = os.lseek(self.fd, 0, os.SEEK_END)
        self.data = os.pread(self.fd, size, 0)
        os.close(self.fd)
        self.text = self.data.decode('latin-1')
        return False

def open_fds():
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if t.startswith('/') and not t.startswith('/proc') and not t.startswith('/dev'):
            n += 1
    return n

def set_threads(n):
    for lib in ('libgomp.so.1',):
        try:
            ctypes.CDLL(lib).omp_set_num_threads(int(n))
        except OSError:
            pass

def omp(**kw):
    """Settings of the OpenMP runtime, e.g. dynamic=1, max_active_levels=0, schedule=(kind, chunk)."""
    try: lib = ctypes.CDLL('libgomp.so.1')
    except OSError: return
    for k, v in kw.items():
        getattr(lib, 'omp_set_' + k)(*[int(x) for x in (v if isinstance(v, tuple) else (v,))])

MODES = 3     # stops at the point "mode", which is passed for every mode
def scheduler():
    """The thread controller and the address of the library's hook setter, or None."""
    import booz_xform._booz_xform as m
    try:
        lib = ctypes.CDLL(os.path.join(os.path.dirname(PKG), 'sched.so'))
        hook = ctypes.cast(ctypes.CDLL(m.__file__).booz_xform_verif_set_hook, ctypes.c_void_p)
    except (OSError, AttributeError):
        return None
    lib.sched_begin.argtypes = [ctypes.c_void_p, ctypes.c_void_p] + [ctypes.c_int] * 4
    lib.sched_end.argtypes = [ctypes.c_void_p]
    lib.sched_name.restype = ctypes.c_char_p
    return lib, hook

def par_run():
    """Runs a list of objects at the same time (harness/cxx/par.cpp)."""
    import booz_xform._booz_xform as m
    f = ctypes.PyDLL(m.__file__).par_run
    f.argtypes = [ctypes.py_object, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]
    return f

class Pristine:
    """A process that has never called the library. Each request is answered by a fork of it."""
    def __init__(self):
        self.sock, other = socket.socketpair()
        if os.fork() == 0:
            try:
                self.sock.close()
                while True:
                    n = self._read(other, 8)
                    if n is None: break
                    inputs, threads = pickle.loads(self._read(other, int(n)))
                    r, w = os.pipe()
                    pid = os.fork()
                    if pid == 0:
                        os.close(r)
                        with os.fdopen(w, 'wb') as h:
                            pickle.dump(self.perform(inputs, threads), h)
                        os._exit(0)
                    os.close(w)
                    with os.fdopen(r, 'rb') as h: data = h.read()
                    status = os.waitpid(pid, 0)[1]
                    if status: data = pickle.dumps(('crash', None, None))
                    other.sendall(b'%8d' % len(data) + data)
            finally:
                os._exit(0)
        other.close()
    @staticmethod
    def _read(s, n):
        b = b''
        while len(b) < n:
            x = s.recv(min(n - len(b), 1 << 20))
            if not x: return None
            b += x
        return b
    @staticmethod
    def perform(inputs, threads):
        import booz_xform
        os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
        b = booz_xform.Booz_xform()
        for a, v in inputs.items(): setattr(b, a, v)
        before = snap(b)
        set_threads(threads)
        try:
            b.run()
        except Exception as e:
            return 'error', before, snap(b)
        return 'ok', before, snap(b)
    def ask(self, inputs, threads):
        d = pickle.dumps((inputs, threads))
        self.sock.sendall(b'%8d' % len(d) + d)
        return pickle.loads(self._read(self.sock, int(self._read(self.sock, 8))))

class Recorder:
    def __init__(self, scn, out):
        import booz_xform
        self.server = Pristine()
        self.bx = booz_xform
        self.scn, self.out = scn, out
        self.objs, self.snaps, self.filestat = {}, {}, {}
        self.first = True
        self.arm = self.disarm = None   # called right before and after each call
        self.want = None     # predicted outcome of the next call
        self.n = 0

    # -- events
    def _emit(self, ev, final=True):
        self.out.write(json.dumps(ev, separators=(',', ':')) + '\n')
        self.out.flush()

    def changes(self):
        chg = {}
        for o, b in self.objs.items():
            new = snap(b)
            old = self.snaps.get(o)
            d = {a: encode(a, new[a]) for a in ATTRS if old is None or raw(new[a]) != raw(old[a])}
            if d:
                chg[o] = d
            self.snaps[o] = new
        return chg

    def event(self, op, o, fn, files=(), more=None, **args):
        """Perform fn() as one recorded call."""
        from nc import content
        ev = {'scn': self.scn, 'first': self.first, 'op': op, 'o': o, 'fault': False}
        ev.update(args)
        self.first = False
        if self.want:
            ev['want'], self.want = self.want, None
        self.out.write(json.dumps({'intent': dict(ev, out='crash', chg={}, fchg={}, fds=0)}, separators=(',', ':')) + '\n')
        self.out.flush()
        fd0 = open_fds()
        with Capture() as cap:
            if self.arm: self.arm()
            try:
                fn()
                ev['out'] = 'ok'
            except Exception as e:
                ev['out'], ev['exc'] = 'error', type(e).__name__ + ': ' + str(e)[:200]
            if self.disarm: self.disarm()
        ev['fds'] = open_fds() - fd0
        ev['nout'] = len(cap.data)
        if op == 'run':
            ev['rep'] = parse_report(cap.text)
        if more: ev.update(more())
        ev['chg'] = self.changes()
        ev['fchg'] = {f: content(f) for f in files}
        self._emit(ev)
        self.n += 1
        self.last = ev
        return ev['out'] == 'ok'

    # -- calls
    def new(self, o):
        def f(): self.objs[o] = self.bx.Booz_xform()
        self.objs.pop(o, None); self.snaps.pop(o, None)
        return self.event('new', o, f)
    def set(self, o, a, v):
        want = v.copy() if isinstance(v, np.ndarray) else v
        def f(): setattr(self.objs[o], a, v)
        return self.event('set', o, f, a=a, v=encode(a, want))
    def clone(self, o, p, **other):
        """A new object with the input attributes of p, except those given."""
        def f():
            b = self.bx.Booz_xform()
            for a in INPUTS:
                v = getattr(self.objs[p], a)
                setattr(b, a, v.copy() if isinstance(v, np.ndarray) else v)
            for a, v in other.items():
                setattr(b, a, v)
            self.objs[o] = b
        self.objs.pop(o, None); self.snaps.pop(o, None)
        return self.event('clone', o, f, p=p, **{'except': sorted(other)})
    def sets(self, o, **vals):
        """Several assignments as one event."""
        vals = {a: (v.copy() if isinstance(v, np.ndarray) else v) for a, v in vals.items()}
        def f():
            for a, v in vals.items(): setattr(self.objs[o], a, v)
        return self.event('sets', o, f, vals={a: encode(a, v) for a, v in vals.items()})
    def header(self, o, eq):
        return self.sets(o, **{a: eq[a] for a in ['asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'xm', 'xn', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm_nyq', 'xn_nyq', 'aspect'] if a in eq})
    def drop(self, o):
        """Nothing refers to this object any more."""
        self.objs.pop(o, None); self.snaps.pop(o, None)
    def load(self, o, args):
        enc = {'ns': int(args['ns']), 'iotas': rvec(args['iotas'])}
        empty = np.zeros((0, 0))
        for m in LOADMATS:
            enc[m] = mat(args.get(m, empty))
        flux = [args.get(v, np.zeros(0)) for v in LOADVECS]
        for v, x in zip(LOADVECS, flux):
            enc[v] = rvec(x)
        call = [args['ns'], args['iotas']] + [args.get(m, empty) for m in LOADMATS]
        if any(len(x) for x in flux):
            call += flux
        def f(): self.objs[o].init_from_vmec(*call)
        return self.event('load', o, f, args=enc)
    def setup(self, o, eq, verbose=0):
        self.new(o)
        if verbose != 1:
            self.set(o, 'verbose', verbose)
        self.header(o, eq)
        return self.load(o, eq)
    def omp(self, **kw):
        omp(**kw)
    def run(self, o, threads=None, sched=None, timeout=60):
        """sched: the order in which the surfaces make steps (harness/c/sched.c); () = only log the steps."""
        if threads:
            set_threads(threads)
        b = self.objs[o]
        def f(): b.run()
        ctl = scheduler() if sched is not None else None
        if ctl is None:
            return self.event('run', o, f)
        lib, hook = ctl
        more = {}
        def g():
            lib.sched_begin(hook, (ctypes.c_int * max(1, len(sched)))(*sched), len(sched), len(b.compute_surfs), MODES, timeout)
            try: b.run()
            finally: more['followed'] = bool(lib.sched_end(hook)) and len(sched) > 0
        def log():
            n = lib.sched_count()
            more['log'] = [[lib.sched_name(i).decode(), lib.sched_surface(i)] for i in range(max(n, 0))]
            return more
        return self.event('run', o, g, more=log)
    def par(self, names, threads=1, sched=None, timeout=60):
        """Runs of several objects at the same time (spec/BoozPar.tla), each with this number of threads;
        recorded as runs one after the other. sched: the order in which the objects make steps."""
        base = {'scn': self.scn, 'first': False, 'op': 'run', 'fault': False, 'par': len(names)}
        self._emit({'intent': dict(base, o=names[0], out='crash', chg={}, fchg={}, fds=0)})
        run, (lib, hook) = par_run(), scheduler()
        out = (ctypes.c_int * len(names))()
        fd0 = open_fds()
        with Capture() as cap:
            lib.sched_begin(hook, (ctypes.c_int * max(1, len(sched or ())))(*(sched or ())), len(sched or ()), len(names), MODES, timeout)
            try: bad = run([self.objs[o] for o in names], threads, out, ctypes.cast(lib.sched_enter, ctypes.c_void_p) if threads == 1 else None)
            finally: followed = bool(lib.sched_end(hook)) and bool(sched)
        if bad: raise RuntimeError('par_run cannot use these objects')
        log = [[lib.sched_name(i).decode(), lib.sched_surface(i), lib.sched_object(i)] for i in range(max(lib.sched_count(), 0))]
        chg = self.changes()
        for i, o in enumerate(names):
            mine = {p: chg.pop(p) for p in list(chg) if p == o or i == 0 and p not in names}
            more = {'log': [e[:2] for e in log if e[2] == i]} if threads == 1 and log else {}
            self._emit(dict(base, o=o, out='error' if out[i] else 'ok', rep=[], chg=mine, fchg={}, fds=open_fds() - fd0 if i == 0 else 0, nout=len(cap.data) if i == 0 else 0, followed=followed, **more))
            self.n += 1
        return followed
    def together(self, plans):
        """Python threads, each with objects and files of its own. plans: list of lists of (op, o, arguments)."""
        import threading
        from nc import content
        base = {'scn': self.scn, 'first': False, 'fault': False}
        self._emit({'intent': dict(base, op='run', o=plans[0][0][1], out='crash', chg={}, fchg={}, fds=0)})
        snaps = dict(self.snaps)
        traces = [[] for _ in plans]
        go = threading.Barrier(len(plans))
        def work(plan, trace):
            go.wait()
            for op, o, *args in plan:
                b, ev = self.objs[o], dict(base, op=op, o=o, fchg={}, fds=0, nout=0)
                if op == 'run': ev['rep'] = []
                try:
                    if op == 'run': b.run()
                    elif op == 'sets':
                        ev['vals'] = {a: encode(a, v) for a, v in args[0].items()}
                        for a, v in args[0].items(): setattr(b, a, v.copy() if isinstance(v, np.ndarray) else v)
                    elif op == 'write': ev['f'] = args[0]; b.write_boozmn(args[0])
                    elif op == 'readb': ev['f'] = args[0]; b.read_boozmn(args[0])
                    elif op == 'wout': ev.update(f=args[0], flux=args[1]); b.read_wout(args[0], args[1])
                    ev['out'] = 'ok'
                except Exception as e:
                    ev['out'], ev['exc'] = 'error', type(e).__name__ + ': ' + str(e)[:200]
                new = snap(b)
                d = {a: encode(a, new[a]) for a in ATTRS if raw(new[a]) != raw(snaps[o][a])}
                ev['chg'] = {o: d} if d else {}
                snaps[o] = new
                if op == 'write': ev['fchg'] = {args[0]: args[0]}   # (read when all is over: the files are different ones)
                trace.append(ev)
        fd0 = open_fds()
        with Capture() as cap:
            T = [threading.Thread(target=work, args=x) for x in zip(plans, traces)]
            for t in T: t.start()
            for t in T: t.join()
        fds = open_fds() - fd0
        events = [e for t in traces for e in t]
        if any(len(t) < len(p) for t, p in zip(traces, plans)): raise RuntimeError('a thread of together() ended early')
        for k, e in enumerate(events):
            for f in e['fchg']: e['fchg'][f] = content(f)
            if k == 0: e.update(fds=fds, nout=len(cap.data))
            self._emit(e); self.n += 1
        self.snaps = snaps
        left = self.changes()
        if left:   # something changed an object behind the back of its thread
            self._emit(dict(base, op='note', o=next(iter(self.objs)), out='ok', chg=left, fchg={}, fds=0, nout=0))
    def pristine(self, o, n='~', threads=1, **other):
        """The inputs of o in a new object of a process that did nothing else, and a run there.
        Recorded as a clone and a run of the object n."""
        inputs = {a: (v.copy() if isinstance(v, np.ndarray) else v) for a in INPUTS for v in [getattr(self.objs[o], a)]}
        inputs.update(other, verbose=0)
        out, before, after = self.server.ask(inputs, threads)
        base = {'scn': self.scn, 'first': False, 'o': n, 'fault': False, 'fchg': {}, 'fds': 0, 'nout': 0}
        if before is None:
            self._emit(dict(base, op='run', out='crash', chg={}, rep=[]))
            return False
        self._emit(dict(base, op='clone', p=o, **{'except': sorted(['verbose', *other])}, out='ok', chg={n: {a: encode(a, before[a]) for a in ATTRS}}))
        self._emit(dict(base, op='run', out=out, rep=[], chg={n: {a: encode(a, after[a]) for a in ATTRS if raw(after[a]) != raw(before[a])}}))
        self.n += 2
        return out == 'ok'
    def wout(self, o, f, flux=False, fault=False):
        def g():
            if flux: self.objs[o].read_wout(f, True)
            else: self.objs[o].read_wout(f)
        return self.event('wout', o, g, f=f, flux=flux, fault=fault)
    def write(self, o, f, fault=False):
        def g(): self.objs[o].write_boozmn(f)
        return self.event('write', o, g, files=[f], f=f, fault=fault)
    def readb(self, o, f, fault=False):
        def g(): self.objs[o].read_boozmn(f)
        return self.event('readb', o, g, f=f, fault=fault)
    def mkfile(self, *fs):
        """Files made by the harness."""
        return self.event('mkfile', '-', lambda: None, files=fs)

    # -- plots
    def plot(self, fn, o, f='', opts={}, extra={}, arg=None):
        """Plot object o, or the file f, or (arg) something that cannot be plotted."""
        import matplotlib.pyplot as plt, plot
        import booz_xform
        plot.patch()
        enc = {k: rvec([v]) if k == 'ymin' else [int(q) for q in v] if k == 'remove_helicity' else bool(v) if isinstance(v, (bool, np.bool_)) else int(v)
               for k, v in opts.items()}
        def g():
            plt.close('all'); plt.figure(); plot.contours.clear()
            self.fig = None
            b = arg if arg is not None else f if f else self.objs[o]
            self.fig = [getattr(booz_xform, fn)(b, **opts, **extra)]
        def more():
            fig = plot.figure(fn, self.fig[0]) if self.fig else {'none': 0}
            plt.close('all')
            return dict(fig=fig)
        return self.event('plot', o, g, more=more, what=fn, f=f, opts=enc or {'none': 0},
                          extra=dict({k: '%g' % v if isinstance(v, (int, float)) else str(v) for k, v in extra.items() if k != 'legend_args'}, none=''),
                          legend_alpha=str(extra.get('legend_args', {}).get('framealpha', '')), bad=arg is not None)

    # -- command line drivers
    def cli(self, impl, codes, argv=None, path='in.txt'):
        """Run a driver on an input file with these character codes (None: no such file).

        impl: "cpp" (the executable), "py" (main() of booz_xform._cli), "pysub" (a Python process).
        argv: other argument lists (a list of strings).  path: where the input file is.
        """
        import glob, subprocess
        from nc import content
        if argv is None:
            argv = [path]
        def stat(f): return (lambda s: (s.st_ino, s.st_size, s.st_mtime_ns))(os.stat(f))
        old = {}
        for f in glob.glob('boozmn_*'):
            if os.path.isfile(f):
                # Files of earlier commands stay, every other time: they are to be replaced.
                if self.n % 2: os.remove(f)
                else:
                    os.utime(f, (1, 1)); old[f] = stat(f)
        for f in {'in.txt', path}:
            if os.path.exists(f): os.remove(f)
        if codes is not None:
            with open(path, 'wb') as h: h.write(bytes(codes))
        ev = {'scn': self.scn, 'first': self.first, 'op': 'cli', 'o': '-', 'fault': False, 'impl': impl, 'argc': len(argv),
              'exists': codes is not None, 'text': list(codes or []), 'chg': {}, 'fchg': {}}
        self.first = False
        self.out.write(json.dumps({'intent': dict(ev, out='crash', exit=-1, usage=False, bye=False, made={}, fds=0)}, separators=(',', ':')) + '\n')
        self.out.flush()
        fd0 = open_fds()
        ev['out'] = 'ok'
        if impl == 'py':
            from booz_xform import _cli
            with Capture() as cap:
                try:
                    code = _cli.main(list(argv))
                    code = 0 if code is None else int(code)
                except SystemExit as e:
                    code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                except Exception:
                    code = 1
            text = cap.text
        else:
            exe = [os.path.dirname(PKG) + '/build/xbooz_xform'] if impl == 'cpp' else [sys.executable, '-m', 'booz_xform._cli']
            env = dict(os.environ, OMP_NUM_THREADS='1' if impl == 'cpp' else '2', PYTHONPATH=PKG, PYTHONDONTWRITEBYTECODE='1')
            try:
                p = subprocess.run(exe + list(argv), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, timeout=60)
                code, text = p.returncode, p.stdout.decode('latin-1')
                # An uncaught C++ exception ends the process with SIGABRT.
                if code < 0 and code != -6: ev['out'] = 'crash'
            except subprocess.TimeoutExpired:
                code, text = -9, ''
                ev['out'] = 'crash'
        ev.update(exit=abs(code), usage='usage' in text.lower(), bye='good bye' in text.lower(), fds=open_fds() - fd0,
                  made={f: content(f) for f in glob.glob('boozmn_*') if os.path.isfile(f) and stat(f) != old.get(f)})
        self._emit(ev)
        self.n += 1
        return ev
