"""Deliberate mistakes in the specification: each must violate the property named.

  python -B harness/modeltest.py

Shows that the invariants of BoozMC are not vacuous: the symbolic state machine is changed in a scratch
copy of spec/ and TLC has to find the mistake.
"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, tlc, mc

# (what, violated, model, file, old, new)
M = [
 ('a run keeps the sine spectra of an earlier run', 'AsymEmpty', 'symmetry', 'BoozMC.tla',
  '@@ [a \\in AsymOuts |-> IF x.asym THEN Spectrum(a, x) ELSE <<>>]', '@@ [a \\in AsymOuts |-> IF x.asym THEN Spectrum(a, x) ELSE x[a]]'),
 ('asymmetric input is used although the configuration is declared symmetric', 'SymmetryConsistent', 'symmetry', 'BoozMC.tla',
  'aamps |-> IF x.asym /\\ x.aamps.id # "zero"', 'aamps |-> IF ~x.asym /\\ x.aamps.id # "none"'),
 ('results depend on the position in the selection', 'Independent', 'runs', 'BoozMC.tla',
  'LET q == Surface(x, x.compute_surfs[k]) IN', 'LET q == Surface(x, x.compute_surfs[1]) IN'),
 ('a run keeps the mode list of an earlier run', 'EqualInputsEqualResults', 'twoobj', 'Booz.tla',
  'xm_b |-> ModesM(x.mboz, x.nboz), xn_b', 'xm_b |-> IF x.xm_b = <<>> THEN ModesM(x.mboz, x.nboz) ELSE x.xm_b, xn_b'),
 ('a run keeps the results of an earlier run', 'FunctionOfInputs', 'twoobj', 'Booz.tla',
  'Run(o) ==\n  /\\ o \\in DOMAIN objs /\\ RunValid(objs[o])\n  /\\ objs\' = [objs EXCEPT ![o] = AfterRun(@)]',
  'Run(o) ==\n  /\\ o \\in DOMAIN objs /\\ RunValid(objs[o])\n  /\\ objs\' = [objs EXCEPT ![o] = IF @.ns_b = 0 THEN AfterRun(@) ELSE @]'),
 ('objects share their results', 'NoInterference', 'twoobj', 'Booz.tla',
  'objs\' = [objs EXCEPT ![o] = AfterRun(@)]', 'objs\' = [p \\in DOMAIN objs |-> AfterRun(objs[o])]'),
 ('files lack the iota of the run', 'RoundTrip', 'files', 'BoozMC.tla',
  'MCDecode(c) == [flux |-> c.flux, flux_n', 'MCDecode(c) == [iota |-> "none", flux |-> c.flux, flux_n'),
 ('reading does not replace the sine spectra', 'RoundTrip', 'files2', 'BoozMC.tla',
  'MCEncode(x) == [kind |-> "boozmn", x |-> [a \\in Saved |-> x[a]]', 'MCEncode(x) == [kind |-> "boozmn", x |-> [a \\in Saved |-> IF a = "bmns_b" THEN <<>> ELSE x[a]]'),
 ('reading keeps the resolution of the object', 'ReadIsWritten', 'files2', 'Booz.tla',
  '![o] = Decode(files[f]) @@ @]', '![o] = [mboz |-> @.mboz] @@ Decode(files[f]) @@ @]'),
 ('a load writes to every object', 'NoInterference', 'errors2', 'Booz.tla',
  'Load(o, args) ==\n  /\\ o \\in DOMAIN objs /\\ Consistent(objs[o], args)\n  /\\ objs\' = [objs EXCEPT ![o] = Loaded(@, args) @@ @]',
  'Load(o, args) ==\n  /\\ o \\in DOMAIN objs /\\ Consistent(objs[o], args)\n  /\\ objs\' = [p \\in DOMAIN objs |-> Loaded(objs[o], args) @@ objs[p]]'),
]
MODELS = dict(mc.MODELS, errors2=('S A', 'header load set', 'nfp', 4, 'a b', ''))

def main():
    build.build()
    bad = 0
    for what, inv, model, file, old, new in M:
        d = tempfile.mkdtemp(prefix='modeltest')
        try:
            for f in os.listdir(build.ROOT + '/spec'): shutil.copy(build.ROOT + '/spec/' + f, d)
            s = open(d + '/' + file).read()
            assert s.count(old) == 1, (what, s.count(old))
            open(d + '/' + file, 'w').write(s.replace(old, new))
            eqs, calls, edits, depth, objs, files = MODELS[model]
            cfg = mc.CFG % (mc.tla_set(objs), mc.tla_set(files), mc.tla_set(eqs), mc.tla_set(calls), mc.tla_set(edits), depth, 'FALSE', '', '')
            cfg = re.sub(r'(?m)^(INVARIANTS|PROPERTIES).*$', '', cfg) + ('PROPERTY ' if inv in ('NoInterference', 'ReadIsWritten') else 'INVARIANT ') + inv + '\n'
            code, out = tlc.tlc('BoozMC', cfg, spec=d)
            hit = [l for l in out.splitlines() if 'is violated' in l or 'Error' in l][:2]
            ok = any(inv in l for l in hit)
            bad += not ok
            print('%-8s %-28s %s %s' % ('found' if ok else 'MISSED', inv, what, '' if ok else hit), flush=True)
        finally:
            shutil.rmtree(d)
    return bad

if __name__ == '__main__': sys.exit(1 if main() else 0)
