"""Writes MANIFEST.json."""
import json, subprocess
LEVEL = 'model_checking'
T = 'TLA+ specification (spec/*.tla) checked with TLC; traces of the real library validated against it'
NOTE = {
 'C01': 'Every recorded run is compared by TLC with the transform written in TLA+ from the theory pages (full-period quadrature, direct trigonometry), to 1e-11 of the magnitude of the summed terms. Sampled over random and real equilibria; trusts IEEE overrides and harness.',
 'C02': 'TLC sums the output series at the Boozer angles of points and compares with the input field wherever the exact transform is itself converged (1e-7); growth of resolution compared mode by mode. Sampled.',
 'C03': 'Mode list, shapes, radii and profiles computed in TLA+ for every recorded run over many resolutions and selections; behaviours of BoozMC (all histories to 5-6 calls) replayed.',
 'C04': 'Functional dependence on the data of the surface alone: TLC remembers the result of every surface and compares whenever equal surface data are transformed again in any selection. BoozMC invariant Independent, exhaustive; its behaviours replayed. Sampled data.',
 'C05': 'BoozSched: all interleavings of the threads (results serial, once per surface, complete on return, termination); its schedules (bounded preemptions) are driven through the real threads at observation points, and the order in which the points were passed is validated. Random runs with 1 to 24 threads, thread limits, dynamic teams, compared with serial results.',
 'C06': 'TLC compares results of equal symmetric data under all declarations, garbage in ignored arrays, reused objects. BoozMC invariants SymmetryConsistent and AsymEmpty, exhaustive; its behaviours replayed. Sampled data.',
 'C07': 'BoozMC: all histories to 3 calls of every kind, 5 calls of two objects, long simulations; replayed on the library. Random histories over several objects and files validated call by call, with the frame conditions of every action and functional dependence of results on current inputs; silence with verbose = 0.',
 'C08': 'Every attribute after a load computed in TLA+ for random data of any ns (2..800), mode table, symmetry; histories with failed loads from BoozMC.',
 'C09': 'GenLoad: all single and double deviations from consistent arguments with the verdict of the specification (sampled in quick); invalid selections and resolutions, edited attributes, incomplete objects; valid data never rejected.',
 'C10': 'File content read by independent readers, decoded by the TLA+ file model and compared with all attributes; equal to a direct load of the same data; five NetCDF flavours; BoozMC histories of failing and succeeding reads.',
 'C11': 'File content read by an independent reader equals, bit for bit, the encoding computed in TLA+ from the object; BoozMC histories decide which objects can be written.',
 'C12': 'Attributes after reading equal those decoded in TLA+ from the file content, and those of the object that was written; BoozMC invariants RoundTrip and ReadIsWritten, exhaustive, replayed.',
 'C13': 'Missing variables, mismatched shapes, unreadable files, write size limits, I/O errors injected into every system call; the specification decides what must fail, open descriptors are counted and later calls validated.',
 'C14': 'GenCli.tla checks the input-file automaton against its declarative definition exhaustively over all short texts; those and simulated texts are replayed on both programs, and exit status, messages and the written file are compared with the specification.',
 'C16': 'What the figures contain (matplotlib axes, recorded plotly traces) is compared with the data computed in TLA+ from the object or the file plotted. plotly is replaced by recording classes. Sampled options and objects.',
 'C15': 'BoozSched: reports intact, complete and right under all interleavings; schedules of the unlocked design replayed as attacks on the critical section. The printed reports are parsed and every number recomputed in TLA+; up to 24 threads; silence with verbose = 0.',
 'C17': 'Defaults, assignment and frame of every attribute, after histories from BoozMC and random ones, with poisoned heap memory, hundreds of objects.',
 'C18': 'BoozPar: all interleavings of the steps of several runs (results as alone, no interference, termination; the two ways to share state are found by TLC); its schedules (bounded preemptions) are driven through real objects in C++ threads at observation points. Free parallel runs with teams and rejected runs, Python threads with runs, reads and writes. Every object is compared with runs in processes that did nothing else.',
}
NA = {}
checks = [dict(property=p, quick_cmd='/opt/boozenv/bin/python -B bin/check.py ' + p,
               thorough_cmd='VERIF_TIER=thorough /opt/boozenv/bin/python -B bin/check.py ' + p,
               evidence_file='evidence/%s.json' % p, technique=T, level=LEVEL, level_note=n) for p, n in NOTE.items() if p not in NA]
m = dict(version=1, setup_cmd='bash bin/setup.sh',
         hooks=dict(guard='BOOZ_XFORM_VERIF', enable='cmake -DCMAKE_CXX_FLAGS=-DBOOZ_XFORM_VERIF (harness/build.py)',
                    source_commits=['a9a366bcc5389ee04622eeae4004a3a8f0a71e14', '68e34409ba34ad9cb8934661ec16def4c54a2e99']),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in NA.items()])
import os
open(os.path.dirname(os.path.abspath(__file__)) + '/../MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
