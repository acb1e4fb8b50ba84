"""What is run to decide each property."""
import json, random
import loads, mc, par, scen, sched, tlc

def decide(c):
    if c.prop == 'C14':
        cli_texts(c)
    if c.prop in ('C05', 'C15'):
        sched.model(c)
        c.traces_of(sched.families(c), 'schedules')
    if c.prop == 'C18':
        par.model(c)
        c.traces_of(par.families(c), 'schedules')
    if c.prop == 'C09':
        c.traces_of(loads.families(c), 'deviations of load arguments')
    c.traces_of(scen.families(c.prop, c.thorough))
    c.traces_of(mc.families(c), 'replays of BoozMC')

# ------------------------------------------------------------------ C14
GENCLI = """SPECIFICATION Spec
CONSTANT Pieces <- %s
CONSTANT MaxPieces = %d
INVARIANTS Agree WhiteSpaceIrrelevant RoundTrip StopIsFinal SortedOk Export
CHECK_DEADLOCK FALSE
"""
def cli_texts(c):
    """Input files generated by GenCli.tla, replayed on both programs."""
    pick = random.Random(c.seed)
    texts = {True: set(), False: set()}
    for pieces, n, args in (('Chars', 6 if c.thorough else 5, ()), ('TokenPieces', 2, ()),
                            ('GoodPieces', 9, ('-simulate', 'num=%d' % (40 if c.thorough else 4), '-depth', '10', '-seed', str(c.seed))),
                            ('TokenPieces', 6, ('-simulate', 'num=%d' % (40 if c.thorough else 4), '-depth', '7', '-seed', str(c.seed + 1)))):
        code, out = tlc.tlc('GenCli', GENCLI % (pieces, n), args=args, workers=4)
        if code:
            raise tlc.TlcError('GenCli: the specification of the input file is inconsistent\n' + out[-3000:])
        k = 0
        for line in out.splitlines():
            if line.startswith('"TEXT '):
                d = json.loads(json.loads(line)[5:])
                k += 1
                # Resolutions that would take hours are not run.
                if max(d['r']['mboz'], d['r']['nboz']) <= 30:
                    texts[d['r']['ok']].add(tuple(d['t']))
        gen, distinct = tlc.counts(out)
        c.model('GenCli %s, up to %d%s' % (pieces, n, ' (simulation)' if args else ''), gen or k, distinct or k)
    fam = []
    ok, bad = sorted(texts[True]), sorted(texts[False])
    for impl, nok, nbad in (('cpp', 800, 1200), ('py', 800, 2500)):
        f = 10 if c.thorough else 1
        t = pick.sample(ok, min(len(ok), nok * f)) + pick.sample(bad, min(len(bad), nbad * f))
        pick.shuffle(t)
        fam += [('texts-%s-%d' % (impl, i), scen.s_cli_texts(t[i::16], impl)) for i in range(16)]
    for name, text in (('circular_tokamak', '4 0\n%s\n3 0\n'),):
        for impl in ('cpp', 'py'):
            fam.append(('real-' + impl, scen.s_cli_real(impl, name, text)))
    c.traces_of(fam, 'texts')
