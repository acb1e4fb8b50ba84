"""Runs TLC."""
import json, os, re, shutil, subprocess, tempfile
from build import ROOT, WORK, JARS

class TlcError(Exception):
    pass

def tlc(module, config, env=None, args=(), timeout=800, xmx='6g', workers='auto', spec=None):
    """Returns TLC's output; the exit code is checked by the caller."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=WORK)
    cfg = os.path.join(meta, 'M.cfg')
    with open(cfg, 'w') as f:
        f.write(config)
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + xmx, '-Djava.io.tmpdir=' + meta,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:boozspec.Overrides',
           '-cp', JARS + ':' + WORK + '/classes', 'tlc2.TLC', '-config', cfg, '-metadir', meta + '/states',
           '-noGenerateSpecTE', '-workers', str(workers), *args, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=spec or ROOT + '/spec', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError('TLC did not finish in %d s' % timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout

def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def validate(trace, focus, **kw):
    """Validates a trace; returns (rejections, states generated, events).

    A call on which the evaluation of the specification fails (values outside its domain: arrays of
    unexpected shapes, say) is not a behaviour of the specification: it is a rejection too."""
    cfg = ('SPECIFICATION Spec\nVIEW View\nCONSTANT Focus = {%s}\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n'
           % ', '.join('"%s"' % f for f in sorted(focus)))
    rejects, odd, original = {}, {}, None
    try:
        while True:
            code, out = tlc('BoozTrace', cfg, env={'TRACE': os.path.abspath(trace)}, **kw)
            for line in out.splitlines():
                if line.startswith('"REJECT '):
                    r = json.loads(json.loads(re.sub(r'\n', '', line))[7:]) if line.count('\\"') else json.loads(line[8:-1])
                    if original: r['line'] = numbers[r['line'] - 1]
                    rejects[r['line']] = r
            m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
            if code == 0 and m and m[1] == m[2]:
                break
            at = re.findall(r'^/\\ l = (\d+)$', out, re.M)
            if not at or 'The error occurred when TLC was evaluating' not in out or len(odd) >= 8:
                raise TlcError('trace validation did not complete:\n' + out[-6000:])
            # Leave out the scenario, and go on.
            lines = open(trace).readlines()
            if not original:
                original = trace; numbers = list(range(1, len(lines) + 1))
            ev = json.loads(lines[int(at[-1]) - 1])
            why = re.search(r'Error: (?!The behavior|The error)(.*(?:\n(?!Error:|The error).*){0,3})', out)
            odd[numbers[int(at[-1]) - 1]] = {'scn': ev['scn'], 'line': numbers[int(at[-1]) - 1], 'op': ev['op'], 'out': ev['out'],
                'bad': [[sorted(focus)[0], 'what is observed lies in the domain of the specification']], 'why': why[1][:300] if why else ''}
            keep = [i for i, x in enumerate(lines) if json.loads(x)['scn'] != ev['scn']]
            if not keep: return [*rejects.values(), *odd.values()], 0, 0, 0
            numbers = [numbers[i] for i in keep]
            trace = original + '.rest'
            with open(trace, 'w') as f:
                f.writelines(lines[i] for i in keep)
    finally:
        if original and os.path.exists(original + '.rest'): os.remove(original + '.rest')
    gen, distinct = counts(out)
    return sorted([*rejects.values(), *odd.values()], key=lambda r: r['line']), gen, distinct, int(m[2])
