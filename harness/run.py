"""Runs scenarios, each in its own forked process, and writes one trace file.

run_all(scenarios, workdir, trace): scenarios is a list of (name, function);
function(rec, rng) performs calls on a Recorder. Returns statistics.
"""
import json, os, shutil, signal, sys, time, zlib
import numpy as np

def _child(name, fn, seed, d):
    os.chdir(d)
    os.environ['OMP_NUM_THREADS'] = os.environ.get('OMP_NUM_THREADS', '2')
    from rec import Recorder
    out = open('trace.part', 'w')
    err = os.open('stderr', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(err, 2); os.close(err)
    import warnings; warnings.simplefilter('ignore')
    r = Recorder(name, out)
    rng = np.random.default_rng(seed)
    # Uninitialized memory must not look like zeros.
    import ctypes
    ctypes.CDLL(None).mallopt(-6, int([0x80, 0x01, 0xa5][rng.integers(3)]))
    fn(r, rng)
    out.write(json.dumps({'done': True}) + '\n')
    out.flush()

def child(prop, name, seed, d):
    """The process image of a scenario with an environment of its own."""
    import scen
    code = 1
    try:
        import plot; plot.install()
        fn = dict(scen.families(prop, os.environ.get('VERIF_TIER') == 'thorough'))[name]
        _child(name, fn, [int(seed), zlib.crc32(name.encode())], d)
        code = 0
    except BaseException:
        import traceback
        with open(os.path.join(d, 'harness_error'), 'w') as h:
            h.write(traceback.format_exc())
    finally:
        os._exit(code)

def run_all(scenarios, workdir, trace, seed=1, jobs=8, timeout=120):
    """Returns (number of events, list of (scenario, problem of the harness))."""
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(workdir)
    import plot; plot.install()
    import booz_xform, scipy.io, ctypes   # imported once, before forking
    todo = list(enumerate(scenarios))[::-1]
    running, broken, parts, extra = {}, [], {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            i, (name, fn) = todo.pop()
            d = os.path.join(workdir, 's%d' % i)
            os.mkdir(d)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setsid()
                    if getattr(fn, 'env', None):
                        # A new process image, with its own environment.
                        env = dict(os.environ, **fn.env)
                        os.execve(sys.executable, [sys.executable, os.path.abspath(sys.argv[0]), '--child', *sys.argv[1:2], name, str(seed), d], env)
                    _child(name, fn, [seed, zlib.crc32(name.encode())], d)
                    code = 0
                except BaseException:
                    import traceback
                    with open(os.path.join(d, 'harness_error'), 'w') as h:
                        h.write(traceback.format_exc())
                finally:
                    os._exit(code)
            running[pid] = (i, name, d, time.time())
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (i, name, d, t0) in list(running.items()):
                if now - t0 > timeout:
                    os.killpg(p, signal.SIGKILL)
            time.sleep(0.005)
            continue
        if pid not in running:
            continue
        i, name, d, t0 = running.pop(pid)
        parts[i] = (name, d, status)
    n = 0
    with open(trace, 'w') as out:
        for i in sorted(parts):
            name, d, status = parts[i]
            events, intent, done = [], None, False
            p = os.path.join(d, 'trace.part')
            for line in open(p) if os.path.exists(p) else []:
                if not line.endswith('\n'):
                    break
                if line.startswith('{"intent"'):
                    intent = line
                elif line.startswith('{"done"'):
                    done = True
                else:
                    events.append(line); intent = None
            if not done:
                if os.path.exists(os.path.join(d, 'harness_error')):
                    broken.append((name, open(os.path.join(d, 'harness_error')).read()))
                elif intent is not None:
                    ev = json.loads(intent)['intent']
                    ev['status'] = status
                    for k in ('rep',):
                        ev.setdefault(k, [])
                    events.append(json.dumps(ev) + '\n')
                elif events and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (4, 6, 7, 8, 11):
                    # Between calls, e.g. because a call damaged the heap.
                    last = json.loads(events[-1])
                    events.append(json.dumps({'scn': name, 'first': False, 'op': 'note', 'o': last['o'], 'fault': False, 'out': 'crash', 'status': status,
                                              'chg': {}, 'fchg': {}, 'fds': 0, 'rep': []}) + '\n')
                else:
                    broken.append((name, 'process ended with status %d between calls' % status))
            out.writelines(events)
            n += len(events)
    shutil.rmtree(workdir, ignore_errors=True)
    return n, broken
