#!/opt/boozenv/bin/python
"""check.py Cxx: decides property Cxx for the code in /repo (see DESIGN.md).

Exit 0: holds on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""
import collections, json, os, re, shutil, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/harness')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['OMP_DYNAMIC'] = 'false'
sys.dont_write_bytecode = True
import build
from build import WORK

ASSUME = [
    'the Java overrides of spec/BoozReal.tla compute IEEE double arithmetic (checked against their TLA+ definitions by RealSelfTest.tla in setup)',
    'the harness records the public attributes, outcomes and files truthfully',
    'histories and inputs not generated are covered by sampling only',
]

def known_findings(prop):
    """Lines 'property=<id> scenario=<regex> rule=<text> :: <what fails>' of known_findings.txt."""
    out = []
    p = ROOT + '/known_findings.txt'
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) scenario=(\S+) rule="([^"]*)" (.*)', line)
        if m and m[1] == prop: out.append((m[2], m[3], m[4].strip()))
    return out

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.work = os.path.join(WORK, 'run.%s.%d' % (prop, os.getpid()))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.violations, self.broken, self.notes = [], [], [], [], {}

    # -- results of parts
    def model(self, name, generated, distinct, **more):
        """A state space explored by TLC."""
        self.states += distinct; self.transitions += generated
        self.models.append(dict(model=name, states=distinct, transitions=generated, **more))

    def violation(self, scn, what, replay):
        os.makedirs(ROOT + '/replays', exist_ok=True)
        path = ROOT + '/replays/%s-%s.json' % (self.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', scn))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, scenario=scn, failed=what, **replay), f, indent=1)
        self.violations.append((scn, what, path))

    # -- traces of the real library
    def traces_of(self, families, label='traces', chunk=120_000_000):
        import run, tlc
        if not families: return
        os.makedirs(self.work, exist_ok=True)
        trace = os.path.join(self.work, 'trace.ndjson')
        done = 0
        # Split, so that one TLC run reads a limited amount.
        size = max(1, len(families))
        todo = [families[i:i + 400] for i in range(0, len(families), 400)]
        rejected = {}
        for part in todo:
            t1 = time.time()
            n, broken = run.run_all(part, self.work + '/run', trace, seed=self.seed)
            self.broken += broken
            if n == 0: continue
            t2 = time.time()
            if label == 'schedules':
                for line in open(trace):
                    if '"followed":true' in line: self.notes['schedules followed to the end'] = self.notes.get('schedules followed to the end', 0) + 1
                    elif '"followed":false' in line: self.notes['schedules given up, or free'] = self.notes.get('schedules given up, or free', 0) + 1
            rejects, gen, distinct, _ = tlc.validate(trace, {self.prop}, xmx='12g')
            if os.environ.get('TIMES'): print('%s: %d scenarios, %d events, %.0f MB, recorded in %.0f s, validated in %.0f s' % (label, len(part), n, os.path.getsize(trace) / 1e6, t2 - t1, time.time() - t2))
            self.events += n; self.traces += len(part)
            self.transitions += gen; self.states += distinct
            lines = None
            if rejects or not self.samples:
                lines = open(trace).readlines()
            if not self.samples:
                first = [json.loads(x) for x in lines[:400]]
                name = first[0]['scn']
                self.samples.append(dict(scenario=name, calls=[
                    {k: v for k, v in e.items() if k in ('op', 'o', 'a', 'f', 'out', 'exc', 'p', 'flux') or (k == 'v' and not isinstance(v, (dict, list)))}
                    for e in first if e['scn'] == name][:40]))
            byscn = collections.OrderedDict()
            for r in sorted(rejects, key=lambda r: r['line']):
                byscn.setdefault(r['scn'], []).append(r)
            fns = dict(part)
            for scn, rs in byscn.items():
                # A hang may be due to an overloaded machine: it must happen again, alone.
                if all(r['out'] == 'crash' for r in rs) and json.loads(lines[rs[0]['line'] - 1]).get('status') == 9:
                    n2, b2 = run.run_all([(scn, fns[scn])], self.work + '/again', trace + '.again', seed=self.seed, timeout=400)
                    if not tlc.validate(trace + '.again', {self.prop})[0]:
                        continue
                ev = [json.loads(x) for x in lines if '"scn":"%s"' % scn in x or '"scn": "%s"' % scn in x]
                rejected[scn] = (rs, ev)
            for f in (trace, trace + '.again'):
                if os.path.exists(f): os.remove(f)
        for scn, (rs, ev) in rejected.items():
            what = ['%s (call %s, outcome %s)' % (b[1], r['op'], r['out']) for r in rs for b in r['bad']]
            self.violation(scn, what[:20], dict(part=label, trace=ev[:400]))
        self.notes[label] = self.notes.get(label, 0) + len(families)

    def finish(self, t0):
        known = known_findings(self.prop)
        new, old = [], []
        for scn, what, path in self.violations:
            hit = [k for k in known if re.fullmatch(k[0], scn) and all(k[1] in w for w in what)]
            if not hit:
                new.append((scn, what, path))
            elif hit[0] not in old:
                old.append(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0][2]))
        if self.broken and not new:
            # Nothing is concluded from what could be recorded of the other scenarios.
            raise RuntimeError('scenario %s: %s' % self.broken[0])
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:3],
                   events_validated=self.events, models=self.models, scenarios=self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov, assumptions=ASSUME,
                  wall_s=round(time.time() - t0, 1), violations=len(new))
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        with open(ROOT + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
        for scn, what, path in new[:10]:
            print('%s: %s' % (scn, what[0]))
        for scn, what, path in new[:1]:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if not new:
            print('%s held: %d traces (%d calls), %d states, %.0f s' % (self.prop, self.traces, self.events, self.states, time.time() - t0))
        return 1 if new else 0

def main():
    prop = sys.argv[1]
    t0 = time.time()
    c = Check(prop)
    try:
        build.build()
        sys.path.insert(0, WORK + '/pkg')
        import props
        props.decide(c)
        return c.finish(t0)
    except Exception:
        traceback.print_exc()
        print('the check of %s did not complete' % prop)
        return 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == '--child':
        sys.path.insert(0, WORK + '/pkg')
        import run
        run.child(*sys.argv[2:6])
    sys.stdout.flush()
    r = main()
    sys.stdout.flush()
    os._exit(r)
