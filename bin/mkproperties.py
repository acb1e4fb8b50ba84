import json
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/_booz_xform/'
p('C01','Output spectra equal the documented Boozer transformation',
 "For every valid input equilibrium (any mode set, number of field periods, sign of iota, G and I, resolution, symmetric or not), each Fourier amplitude of |B|, R, Z, nu and the Boozer Jacobian on each selected surface equals, to rounding, the integral given in the theory documentation: the quantity times cos or sin of (m theta_B - n zeta_B) times the angle Jacobian, summed over the uniform grid of 2(2 mboz+1) by 2(2 nboz+1) points (one toroidal point if nboz=0) of the original angles in one field period, with the (0,0) amplitude carrying half the weight. I and G on each selected surface are the (0,0) amplitudes of the covariant field components.",
 ['inputs','configurations'],'all equilibria, resolutions mboz>=1, nboz>=0, surfaces, symmetry classes',
 'The regression test compares 4 fixed VMEC files with Fortran output at loose tolerance; it never reaches nfp/negative-n/odd-resolution/m=0-only/asymmetric-nonaxisymmetric combinations or arrays in other mode orders.',
 [S+'surface_solve.cpp',S+'init.cpp',S+'init_trig.cpp'],
 [('w, nu, Boozer angles, Jacobian and projection sums','surface_solve.cpp'),('grid and mode tables','init.cpp'),('angle recurrences','init_trig.cpp')],
 ['bmnc_b','bmns_b','rmnc_b','rmns_b','zmnc_b','zmns_b','numnc_b','numns_b','gmnc_b','gmns_b','Boozer_G','Boozer_I'])
p('C02','The Boozer representation reproduces the field and geometry',
 "With enough output modes for convergence, summing the output series at the Boozer angles (theta + lambda + iota nu, zeta + nu) of any point gives back the input |B|, R and Z at that point, the output nu series equals the toroidal angle shift there, and the Jacobian series equals (G + iota I)/|B|^2. Adding more output modes never makes that representation worse than rounding once it has converged, and every amplitude keeps the same value (to the convergence error) when mboz or nboz grows.",
 ['inputs','configurations'],'all smooth equilibria and all points of the surface, all sufficiently large resolutions',
 'Tests compare spectra with stored reference spectra; no test evaluates the series or checks that it describes the same field, so an error shared with the reference, or in inputs other than the four files, is invisible.',
 [S+'surface_solve.cpp'],[('surface transformation','surface_solve.cpp')],['bmnc_b, rmnc_b, zmns_b, numns_b, gmnc_b and asymmetric partners'])
p('C03','Shape, mode list and radial profiles of the results',
 "After a run, the output mode list is exactly the m = 0..mboz-1 modes with n from -nboz..nboz (only n>=0 for m=0), n multiplied by the number of field periods, ordered by m then n, starting with (0,0); every output spectrum has one row per mode and one column per selected surface. The output radii are the input radii of the selected surfaces in order, and the two profile arrays of I and G over all input surfaces are the (0,0) covariant amplitudes of every input surface, selected or not.",
 ['inputs','configurations'],'all resolutions, field periods, surface selections',
 'Tests look at a few resolutions of four files and never at nboz=0 with mboz small, subset profiles or repeated selections.',
 [S+'init.cpp'],[('mode list, s_b, *_all','init.cpp')],['mnboz','xm_b','xn_b','ns_b','s_b','Boozer_G_all','Boozer_I_all','shapes of *_b'])
p('C04','Surfaces are transformed independently of the selection',
 "The results for a surface depend only on that surface's data: for any list of surfaces (any order, subset, repetition or single entry) each output column, radius, G and I equals that of a run in which the surface is computed alone, and changing data of an unselected surface changes nothing but that surface's entries of the all-surface profiles. The selection is honoured as given: column k belongs to the k-th selected surface.",
 ['inputs','configurations'],'all surface selections',
 'One test edits the selection once on one file in ascending order and only checks that the run completes.',
 [S+'surface_solve.cpp',S+'init.cpp',S+'run.cpp'],[('per-surface loop','run.cpp'),('js vs js_b indexing','surface_solve.cpp')],['all *_b arrays, s_b, Boozer_G, Boozer_I'])
p('C05','Results do not depend on threads or scheduling',
 "For any number of threads and any interleaving of the concurrent surface computations, the results are the same as in a serial run, every selected surface is computed exactly once, and no result of one surface is influenced by another surface being computed at the same time. The run returns only when all surfaces are complete.",
 ['schedules'],'all interleavings of concurrent surface computations, all thread counts',
 'Tests run with a fixed thread count on a free-running scheduler; the bad interleaving of a shared work array or missing barrier needs a specific schedule and is lost in test tolerances.',
 [S+'run.cpp',S+'surface_solve.cpp',S+'check_accuracy.cpp'],[('omp parallel for','run.cpp'),('thread-private work arrays','surface_solve.cpp')],['all outputs after run() under controlled interleavings'],
 state=[('work arrays','angle grids, basis functions, field on the grid of one surface','surface_solve.cpp')],hook='BOOZ_XFORM_VERIF points in run.cpp, surface_solve.cpp, check_accuracy.cpp')
p('C06','Stellarator symmetry is handled consistently',
 "A symmetric equilibrium gives the same spectra whether it is declared symmetric or declared asymmetric with zero asymmetric amplitudes, and then all asymmetric output amplitudes are zero to rounding. When declared symmetric, asymmetric input arrays are ignored whatever they contain and the asymmetric output arrays are empty (0 x 0), also if the same object earlier held asymmetric results.",
 ['inputs','histories'],'all symmetric equilibria, all contents of ignored arrays, all earlier uses of the object',
 'Each test file is processed only with its own symmetry flag in a fresh object.',
 [S+'surface_solve.cpp',S+'init.cpp',S+'init_from_vmec.cpp'],[('half-grid integration with end weights','surface_solve.cpp'),('nu3_b','init.cpp')],['all spectra'])
p('C07','Results depend only on current inputs, not on history',
 "After any history of loads, edits, runs, writes, failed calls and plots on any number of objects, running a validly loaded object gives the same results as a new object given the same input attribute values; running again without changes reproduces the same results. Operations on one object never change another object, running does not change any input attribute, and the verbosity setting has no effect on any result.",
 ['histories'],'all sequences of API calls on one or several objects',
 'Tests use each object for one load-run sequence; stale arrays, accumulation into old results and state shared between objects need specific multi-step histories.',
 [S+'init.cpp',S+'run.cpp',S+'init_from_vmec.cpp',S+'read_wout.cpp',S+'read_boozmn.cpp',S+'booz_xform.hpp'],
 [('outputs are zeroed and grids rebuilt for every run','init.cpp')],['all attributes after each call'])
p('C08','VMEC radial grids are converted correctly',
 "Loading VMEC data drops the first (empty) entry of half-grid quantities and moves R and Z to the half grid: even-m amplitudes are averaged, odd-m amplitudes are averaged after division by sqrt(s) and multiplied by sqrt(s) of the half-grid point, and m=1 amplitudes use linear extrapolation of the ratio to the axis. Flux profiles keep their full grid (toroidal flux derivative divided by -2 pi, boundary toroidal flux = last entry) or are empty with zero flux when not supplied, half-grid radii are (j+1/2)/(ns-1), all surfaces are selected, and the default resolution is 6 mpol and max(2 ntor - 1, 0).",
 ['inputs'],'all VMEC data: any ns >= 2, any set of modes, both symmetries, with or without flux profiles',
 'Only four VMEC files are loaded and their converted arrays are checked only through low-tolerance final spectra; m=1 axis handling, ns=2 and odd m>=3 asymmetric modes are not sampled.',
 [S+'init_from_vmec.cpp'],[('radial interpolation','init_from_vmec.cpp')],['iota','s_in','rmnc..bsubvmns','phip','chi','pres','phi','toroidal_flux','compute_surfs','mboz','nboz'])
p('C09','Inconsistent input is rejected, never transformed',
 "Loading data whose array sizes, mode tables, number of surfaces or number of field periods are inconsistent raises an error, and running with a selected surface that does not exist, a resolution with no modes, or mode tables and input arrays that do not fit the number of modes, the largest mode numbers and the number of field periods raises an error, instead of crashing or returning numbers. Data that are consistent are never rejected, whatever the object was used for before.",
 ['inputs','histories'],'all single and combined inconsistencies of the load arguments; all invalid selections and resolutions; all object histories',
 'No existing test passes inconsistent data at all.',
 [S+'init_from_vmec.cpp',S+'init.cpp'],[('validation block','init_from_vmec.cpp'),('selection and resolution checks','init.cpp')],['exception or success of init_from_vmec(), run()'])
p('C10','wout files are loaded faithfully',
 "Reading a wout file gives the same object state as passing the file's variables to the VMEC loader directly: scalars and mode tables are taken verbatim, the Nyquist resolution is that of the last Nyquist mode, asymmetric arrays are read exactly when the file is marked asymmetric, and flux profiles exactly when requested. The values do not depend on the variable order, numeric type or NetCDF flavour of the file, nor on verbosity.",
 ['inputs'],'all well-formed wout files',
 'Tests load four files and never compare loaded attributes with file contents.',
 [S+'read_wout.cpp',S+'netcdf_reader.cpp'],[('variable-by-variable reads','read_wout.cpp')],['all input attributes after read_wout()'])
p('C11','boozmn files contain exactly the computed results',
 "A written boozmn file is a classic NetCDF file whose variables, dimensions and types are those of the boozmn format and whose values are bit-for-bit the object's results: spectra with the sign of nu reversed, surface list offset by 2, profiles with a leading 0, flux profiles if available and zeros otherwise, and zeros for placeholders. Asymmetric spectra are present exactly for asymmetric results, and the object's results are unchanged by writing. An object without results, or whose selection, symmetry or sizes no longer fit its results, raises an error and no file is written.",
 ['inputs','histories'],'all results: resolutions, selections (any order), symmetry, with and without flux data, overwriting existing files',
 'The write/read test only checks that the reader inverts the writer, so a symmetric mistake in both, a missing or wrong variable, or a file other tools cannot use passes.',
 [S+'write_boozmn.cpp',S+'netcdf_writer.cpp'],[('variable list','write_boozmn.cpp')],['content of the file read with an independent NetCDF reader'])
p('C12','boozmn files restore the saved results',
 "Reading a boozmn file into any object restores the results, selection, radii, profiles, resolution, symmetry, field periods, aspect ratio and flux that the file holds, so that write then read reproduces them bit-for-bit (radii to rounding) and writing again produces the same file contents. Nothing of the object's earlier results survives, asymmetric arrays are empty for symmetric files, and files of the Fortran program (no poloidal flux variable) are read the same way.",
 ['inputs','histories'],'all results and all earlier states of the receiving object; C++/Python and Fortran files',
 'The round-trip test uses a fresh receiving object, four equilibria, and compares a subset of attributes.',
 [S+'read_boozmn.cpp',S+'write_boozmn.cpp'],[('inverse of the writer','read_boozmn.cpp')],['all attributes after read_boozmn()'])
p('C13','File errors are reported and leave the library usable',
 "Whenever a file cannot be opened, lacks a required variable or dimension, or cannot be written completely, the call raises an error instead of returning normally or crashing; a call that returns normally has read or written everything. After any such failure no file handle stays open, and a following valid load, run or write on the same object works as in a new object.",
 ['fault_sequences','crash_points'],'a failure at any file operation, any missing variable, any write size limit, any sequence of failures and retries',
 'No existing test makes a file operation fail.',
 [S+'netcdf_reader.cpp',S+'netcdf_writer.cpp',S+'read_wout.cpp',S+'read_boozmn.cpp',S+'write_boozmn.cpp'],[('ERR() on every return code; close on failure','netcdf_reader.cpp, netcdf_writer.cpp')],['exceptions, open file descriptors, later results'])
p('C14','Command line drivers do what the input file says',
 "For every input file text, both command line programs (C++ and Python) read the same resolutions, extension and surfaces with stream-extraction rules, raise each default resolution to at least the requested one, transform exactly the listed surfaces in ascending order (all when none is listed), and write the results of the library to the boozmn file of that extension. Malformed input, missing files and invalid surfaces end with a non-zero exit status and no success message; wrong argument counts print usage and exit with 0.",
 ['inputs','configurations'],'all input texts, argument counts and surface lists',
 'Tests parse three texts and run one case; only the Python driver is run.',
 [S+'driver.cpp','src/booz_xform/_cli.py'],[('token scan','driver.cpp, _cli.py')],['exit status, output file contents'])
p('C15','The accuracy report is correct and never garbled',
 "With verbosity on, a run prints for every selected surface exactly one two-line report giving the surface indices and, at theta = 0 and pi and zeta = 0 and half a field period (zeta = 0 only if nboz=0), the input |B|, the |B| summed from the Boozer series at the corresponding Boozer angles, and their relative difference. Reports of surfaces computed concurrently are never interleaved or lost, and with verbosity 0 no call that succeeds prints anything.",
 ['schedules','inputs'],'all interleavings and thread counts, all equilibria',
 'No test reads the console output.',
 [S+'check_accuracy.cpp',S+'run.cpp'],[('critical section around the two prints','check_accuracy.cpp')],['stdout'],hook='report_mid')
p('C16','Plots show the data of the object and leave it unchanged',
 "Each plotting function draws exactly the quantities of the given results: the contour plot shows the |B| series on the chosen surface over one field period, the mode plots show the amplitudes of the modes selected by their options (limits, background, helicity filter, largest at the outermost surface) against s or sqrt(s) with the documented grouping by colour and label, and the 3D plot shows curves of constant angles of the chosen surface. Further keyword arguments reach the plotting library unchanged, and axis labels and legends name what is drawn. Passing a file name gives the same figure as passing the object read from it, and plotting never changes the object.",
 ['inputs','configurations'],'all results, symmetric or not, and all option combinations',
 'The plot tests only check that calls do not raise.',
 ['src/booz_xform/plots.py'],[('mode classification and series evaluation','plots.py')],['arguments passed to matplotlib and plotly'])
p('C17','Attributes behave as plain values with defined defaults',
 "A new object has the same, documented-type attribute values every time (symmetric, one field period, verbosity 1, resolution 16 x 16, all arrays empty, all other numbers 0), regardless of what happened before in the process. Every input attribute returns exactly the value last assigned without affecting any other attribute, and output attributes cannot be assigned.",
 ['histories','inputs'],'all attributes, values and earlier histories',
 'One test assigns one array; uninitialized memory and binding mix-ups of rarely used attributes are not exercised.',
 [S+'bindings.cpp',S+'booz_xform.cpp',S+'booz_xform.hpp'],[('def_readwrite/def_readonly table','bindings.cpp'),('defaults()','booz_xform.cpp')],['all attributes'])
p('C18','Different objects can be used at the same time',
 "When runs of different objects overlap in time, each in a thread of its own, every object gets the results that it gets when the runs are made one after the other, whatever the interleaving, the number of objects and their equilibria, resolutions, selections and OpenMP thread numbers. This holds for runs from several C++ threads (with verbosity 0), and for runs, reads and writes of different objects and files from several Python threads. A run that is rejected leaves the others alone, and no call changes any attribute of an object that belongs to another thread.",
 ['schedules','inputs'],'all interleavings of the runs of several objects, all equilibria',
 'No test runs two objects at the same time; the window in which shared state would show is short.',
 [S+'run.cpp',S+'init.cpp',S+'init_trig.cpp',S+'surface_solve.cpp',S+'bindings.cpp'],[('all tables are members and all work arrays are local','booz_xform.hpp, surface_solve.cpp'),('the interpreter lock is kept during file operations','bindings.cpp')],['all attributes of all objects, files'],hook='init_begin')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
