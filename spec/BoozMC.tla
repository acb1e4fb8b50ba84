------------------------------- MODULE BoozMC -------------------------------
(***************************************************************************)
(* The state machine of Booz.tla with symbolic data, small enough for TLC. *)
(*                                                                         *)
(* Numbers are replaced by terms: the amplitudes of equilibrium "S" are    *)
(* <<"amps", "S", ..>>, the spectra of a surface are the term of the data  *)
(* they were computed from.  Two results are equal exactly if the terms    *)
(* are, so the invariants below state what the properties demand of any    *)
(* history of calls: results are functions of the current inputs, nothing  *)
(* leaks between objects, files restore what they were written from.       *)
(*                                                                         *)
(* Every behaviour is also a test: `hist' is the sequence of calls, with   *)
(* the outcome that the model predicts ("any" where it predicts none).     *)
(* They are replayed on the library with real numbers in place of the      *)
(* terms (harness/mc.py) and the recorded executions are validated by      *)
(* BoozTrace.tla.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Objects, FileNames, Equilibria,
  Calls,     \* the kinds of calls that are made
  Edits,     \* the assignments that are made
  Depth,     \* calls per behaviour
  Exporting  \* print the behaviours

\* The equilibria. S: symmetric. N: the same numbers with other field periods.
\* A: asymmetric, same tables. Z: declared asymmetric, with zeros, otherwise S.
\* L: asymmetric, more surfaces, larger tables.  P: symmetric, one mode.
Pool == [S |-> [asym |-> FALSE, nfp |-> 2, tab |-> "T", ns |-> 3, amps |-> "S", aamps |-> "none", flux |-> "none"],
         N |-> [asym |-> FALSE, nfp |-> 3, tab |-> "T", ns |-> 3, amps |-> "S", aamps |-> "none", flux |-> "N"],
         A |-> [asym |-> TRUE,  nfp |-> 2, tab |-> "T", ns |-> 3, amps |-> "A", aamps |-> "A", flux |-> "A"],
         Z |-> [asym |-> TRUE,  nfp |-> 2, tab |-> "T", ns |-> 3, amps |-> "S", aamps |-> "zero", flux |-> "none"],
         L |-> [asym |-> TRUE,  nfp |-> 1, tab |-> "U", ns |-> 4, amps |-> "L", aamps |-> "L", flux |-> "none"],
         P |-> [asym |-> FALSE, nfp |-> 5, tab |-> "V", ns |-> 2, amps |-> "P", aamps |-> "none", flux |-> "P"]]
\* Mode tables (mode numbers per field period; `scale' is the factor they are stored
\* with, which a load requires to be the number of field periods): number of rows, default resolution.
Rows == [none |-> 0, V |-> 1, T |-> 5, U |-> 8]
DefM == [none |-> 0, V |-> 6, T |-> 12, U |-> 12]
DefN == [none |-> 0, V |-> 0, T |-> 1, U |-> 3]

------------------------------------------------------------------------------
\* Symbolic data. Amplitudes: [id, tab (their rows), ns].
None == [id |-> "none", tab |-> "none", ns |-> 0]

MCModesM(mb, nb) == <<"m", mb, nb>>
MCModesN(mb, nb, nfp) == <<"n", mb, nb, nfp>>
Surface(x, j) ==   \* what the results of a surface depend on
  [nfp |-> x.nfp, tab |-> x.tab, scale |-> x.scale, amps |-> x.amps.id, iota |-> x.iota, j |-> j,
   aamps |-> IF x.asym /\ x.aamps.id # "zero" THEN x.aamps.id ELSE "none"]
Spectrum(kind, x) == [k \in 1..Len(x.compute_surfs) |->
  LET q == Surface(x, x.compute_surfs[k]) IN
  \* The asymmetric spectra of symmetric data are zero.
  IF kind \in {"bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"} /\ q.aamps = "none" THEN <<"zeros">>
  ELSE <<kind, q, x.mboz, x.nboz>>]
AsymOuts == {"bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"}
SymOuts == {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"}
MCOutputs(x) ==
  [a \in SymOuts |-> Spectrum(a, x)]
  @@ [a \in AsymOuts |-> IF x.asym THEN Spectrum(a, x) ELSE <<>>]
  @@ [Boozer_G |-> [k \in 1..Len(x.compute_surfs) |-> <<"G", x.amps.id, x.compute_surfs[k]>>],
      Boozer_I |-> [k \in 1..Len(x.compute_surfs) |-> <<"I", x.amps.id, x.compute_surfs[k]>>]]
MCProfiles(x) == [G |-> [j \in 1..x.ns_in |-> <<"G", x.amps.id, j - 1>>], I |-> [j \in 1..x.ns_in |-> <<"I", x.amps.id, j - 1>>]]
MCRadii(x) == [k \in 1..Len(x.compute_surfs) |-> <<"s", x.s_in, x.compute_surfs[k]>>]

\* Arguments of a load: an equilibrium, or one with wrong sizes.
MCConsistent(x, a) == /\ ~a.bad /\ x.tab = a.e.tab
                      /\ x.scale = x.nfp \/ x.tab = "V"
                      /\ x.asym => a.e.asym
MCLoaded(x, a) ==
  LET n == a.e.ns - 1
      amps(id) == [id |-> id, tab |-> a.e.tab, ns |-> n]
      base == [ns_in |-> n, s_in |-> n, iota |-> a.e.amps, amps |-> amps(a.e.amps),
               flux |-> IF a.flux THEN a.e.flux ELSE "none", flux_n |-> IF a.flux THEN n ELSE 0, iota_n |-> n,
               compute_surfs |-> [j \in 1..n |-> j - 1], mboz |-> DefM[a.e.tab], nboz |-> DefN[a.e.tab]]
  IN  IF x.asym THEN base @@ [aamps |-> amps(a.e.aamps)] ELSE base @@ [aamps |-> [id |-> "unknown", tab |-> "none", ns |-> 0]]
MCInputComplete(x) ==
  LET Big(m) == m.id # "none" /\ Rows[m.tab] >= Rows[x.tab] /\ m.ns >= x.ns_in IN
  x.tab # "none" /\ (x.scale = x.nfp \/ x.tab = "V") /\ Big(x.amps) /\ (x.asym => Big(x.aamps))

\* Files: [kind, ..].
MCIsWout(c, flux) == c.kind = "wout" /\ (flux => c.e.flux # "none")
MCWoutHeader(c) == [asym |-> c.e.asym, nfp |-> c.e.nfp, tab |-> c.e.tab, scale |-> c.e.nfp]
MCWoutArgs(c, flux) == [e |-> c.e, bad |-> c.bad, flux |-> flux]

Saved == AsymOuts \cup SymOuts \cup
         {"asym", "nfp", "mboz", "nboz", "mnboz", "xm_b", "xn_b", "ns_in", "iota", "ns_b", "s_b", "compute_surfs",
          "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all"}
MCEncode(x) == [kind |-> "boozmn", x |-> [a \in Saved |-> x[a]],
                flux |-> IF x.flux = "none" THEN "zeros" ELSE x.flux]
\* The sizes that a boozmn file has, and the arrays that must fit them.
MCUnwritable(x) ==
  LET n == Len(x.compute_surfs) IN
  \/ x.mnboz = 0 \/ n = 0 \/ n # x.ns_b
  \/ x.asym /\ x.bmns_b = <<>>
  \/ x.iota_n < x.ns_in \/ Len(x.Boozer_G_all) < x.ns_in
  \/ x.flux # "none" /\ x.flux_n < x.ns_in
MCIsBoozmn(c) == c.kind = "boozmn"
MCDecode(c) == [flux |-> c.flux, flux_n |-> c.x.ns_in, iota_n |-> c.x.ns_in] @@ c.x
MCAfterWrite(x) == [flux |-> x.flux]

MCDefault ==
  [asym |-> FALSE, nfp |-> 1, tab |-> "none", scale |-> 0, ns_in |-> 0, s_in |-> 0, iota |-> "none", amps |-> None, aamps |-> None,
   flux |-> "none", flux_n |-> 0, iota_n |-> 0, compute_surfs |-> <<>>, mboz |-> 16, nboz |-> 16,
   ns_b |-> 0, s_b |-> <<>>, mnboz |-> 0, xm_b |-> <<>>, xn_b |-> <<>>,
   Boozer_G |-> <<>>, Boozer_I |-> <<>>, Boozer_G_all |-> <<>>, Boozer_I_all |-> <<>>]
  @@ [a \in AsymOuts \cup SymOuts |-> <<>>]
NoFileC == [kind |-> "none"]

VARIABLES objs, files,
  st,      \* object -> "ok"; "read" (holds a file's results, inputs of another equilibrium); "junk" (after a failed load)
  ran,     \* object -> the object at the time its results were computed, or <<>>
  orig,    \* file -> the object it was written from
  hist     \* calls so far

INSTANCE Booz WITH
  ModesM <- MCModesM, ModesN <- MCModesN, Outputs <- MCOutputs, Profiles <- MCProfiles, Radii <- MCRadii,
  Consistent <- MCConsistent, Loaded <- MCLoaded, InputComplete <- MCInputComplete,
  WoutHeader <- MCWoutHeader, WoutArgs <- MCWoutArgs, IsWout <- MCIsWout,
  Encode <- MCEncode, Unwritable <- MCUnwritable, IsBoozmn <- MCIsBoozmn, Decode <- MCDecode,
  AfterWrite <- MCAfterWrite, DefaultObject <- MCDefault, NoFile <- NoFileC

mcvars == <<objs, files, st, ran, orig, hist>>
View == <<objs, files, st, ran>>

E == {Pool[e] : e \in Equilibria}
Id(e) == CHOOSE i \in Equilibria : Pool[i] = e
Call(c) == hist' = Append(hist, c)
Keep == UNCHANGED <<st, ran, orig>>
Put(f, o, v) == [f EXCEPT ![o] = v]

\* Wout files of all equilibria exist from the start; one of them has wrong mode tables.
Wouts == [e \in Equilibria |-> [kind |-> "wout", e |-> Pool[e], bad |-> FALSE]]
         @@ ("bad" :> [kind |-> "wout", e |-> Pool["A"], bad |-> TRUE]) @@ ("text" :> [kind |-> "text"])

Init == /\ objs = [o \in Objects |-> MCDefault]
        /\ files = Wouts
        /\ st = [o \in Objects |-> "ok"] /\ ran = [o \in Objects |-> <<>>] /\ orig = [f \in {} |-> 0]
        /\ hist = <<>>

New(o) == /\ "new" \in Calls
          /\ objs[o] # MCDefault
          /\ NewObj(o)
          /\ st' = Put(st, o, "ok") /\ ran' = Put(ran, o, <<>>) /\ UNCHANGED orig
          /\ Call([op |-> "new", o |-> o])

\* The caller sets symmetry, field periods and mode tables before a load.
Header(o) == \E e \in E :
  /\ "header" \in Calls
  /\ <<objs[o].asym, objs[o].nfp, objs[o].tab, objs[o].scale>> # <<e.asym, e.nfp, e.tab, e.nfp>> \/ st[o] = "junk"
  /\ objs' = [objs EXCEPT ![o].asym = e.asym, ![o].nfp = e.nfp, ![o].tab = e.tab, ![o].scale = e.nfp]
  /\ UNCHANGED files
  \* After a file was read, the sizes of the other arrays are not determined.
  /\ st' = Put(st, o, IF st[o] = "junk" THEN "header" ELSE st[o]) /\ UNCHANGED <<ran, orig>>
  /\ Call([op |-> "header", o |-> o, e |-> Id(e)])

\* (What a failed call leaves in the object is not determined: st = "junk".)
LoadE(o) == \E e \in E, flux \in BOOLEAN, bad \in BOOLEAN :
  LET a == [e |-> e, flux |-> flux, bad |-> bad] IN
  /\ "load" \in Calls
  /\ st[o] # "junk"
  /\ flux => e.flux # "none"
  /\ bad => "bad" \in Calls /\ ~flux /\ e = Pool["S"]
  /\ \/ /\ Load(o, a)
        /\ st' = Put(st, o, "ok")
        /\ Call([op |-> "load", o |-> o, e |-> Id(e), flux |-> flux, bad |-> FALSE, want |-> "ok"])
     \/ /\ LoadError(o, a, objs[o])
        /\ "bad" \in Calls
        /\ st' = Put(st, o, "junk")
        /\ Call([op |-> "load", o |-> o, e |-> Id(e), flux |-> flux, bad |-> bad, want |-> "error"])
  /\ UNCHANGED <<ran, orig>>

\* Header and load of one equilibrium.
Setup(o) == \E e \in E, flux \in BOOLEAN :
  LET a == [e |-> e, flux |-> flux, bad |-> FALSE]
      x == MCWoutHeader([e |-> e]) @@ objs[o]
  IN
  /\ "setup" \in Calls
  /\ flux => e.flux # "none"
  /\ objs' = [objs EXCEPT ![o] = MCLoaded(x, a) @@ x] /\ UNCHANGED files
  /\ st' = Put(st, o, "ok")
  /\ Call([op |-> "setup", o |-> o, e |-> Id(e), flux |-> flux, want |-> "ok"])
  /\ UNCHANGED <<ran, orig>>

Wout(o) == \E f \in DOMAIN Wouts \cup {"missing"}, flux \in BOOLEAN :
  /\ "wout" \in Calls
  /\ \/ /\ ReadWout(o, f, flux)
        /\ st' = Put(st, o, "ok")
        /\ Call([op |-> "wout", o |-> o, f |-> f, flux |-> flux, want |-> "ok"])
     \/ /\ ReadWoutError(o, f, flux, objs[o])
        /\ "bad" \in Calls
        /\ st' = Put(st, o, "junk")
        /\ Call([op |-> "wout", o |-> o, f |-> f, flux |-> flux, want |-> "error"])
  /\ UNCHANGED <<ran, orig>>

Edit(x, c) ==
  CASE c = "res1"  -> [x EXCEPT !.mboz = 2, !.nboz = 1]
    [] c = "res2"  -> [x EXCEPT !.mboz = 3, !.nboz = 0]
    [] c = "badres" -> [x EXCEPT !.mboz = 0, !.nboz = 1]
    [] c = "surfs1" -> [x EXCEPT !.compute_surfs = <<0>>]
    [] c = "surfs2" -> [x EXCEPT !.compute_surfs = <<1, 0>>]
    [] c = "surfs3" -> [x EXCEPT !.compute_surfs = <<1, 1, 2>>]
    [] c = "iota"  -> [x EXCEPT !.iota = "edited", !.iota_n = x.ns_in]
    [] c = "nfp"   -> [x EXCEPT !.nfp = 7]
    [] c = "asym"  -> [x EXCEPT !.asym = ~x.asym]
Options(o) == \E c \in Edits :
  /\ "set" \in Calls
  /\ st[o] = "ok"
  /\ LET y == Edit(objs[o], c) IN
     /\ y # objs[o]
     /\ objs' = [objs EXCEPT ![o] = y] /\ UNCHANGED files
     /\ Call([op |-> "set", o |-> o, c |-> c])
  /\ Keep

\* The outcome is determined unless data that a symmetric load leaves open would be used.
Determined(o) == st[o] = "ok" /\ ~(objs[o].asym /\ objs[o].aamps.id = "unknown")
RunE(o) ==
  /\ Determined(o)
  /\ \/ /\ Run(o)
        \* (Without the results of earlier runs: they are not input.)
        /\ ran' = Put(ran, o, [a \in OutputAttrs |-> MCDefault[a]] @@ objs[o])
        /\ Call([op |-> "run", o |-> o, want |-> "ok"])
     \/ /\ RunError(o) /\ "bad" \in Calls
        /\ UNCHANGED ran
        /\ Call([op |-> "run", o |-> o, want |-> "error"])
  /\ UNCHANGED <<st, orig>>

\* Results that belong together: of the last run or read, with the selection and profiles unchanged since.
HasResults(o) == /\ st[o] \in {"ok", "read"} /\ ran[o] # <<>>
                 /\ \A a \in {"asym", "nfp", "mboz", "nboz", "ns_in", "compute_surfs"} : objs[o][a] = ran[o][a]
                 /\ Len(objs[o].compute_surfs) >= 1
WriteE(o) == \E f \in FileNames :
  /\ "write" \in Calls
  /\ \/ /\ HasResults(o)
        /\ Write(o, f)
        /\ orig' = (f :> objs[o]) @@ orig
        /\ Call([op |-> "write", o |-> o, f |-> f, want |-> "ok"])
     \* No results, or results that do not fit the object as it is now.
     \/ /\ st[o] \in {"ok", "read"} /\ "bad" \in Calls
        /\ WriteRejected(o, f)
        /\ UNCHANGED orig
        /\ Call([op |-> "write", o |-> o, f |-> f, want |-> "error"])
  /\ UNCHANGED <<st, ran>>

Read(o) == \E f \in FileNames \cup {"missing", "text", "A"} :
  /\ "readb" \in Calls
  /\ \/ /\ ReadBoozmn(o, f)
        /\ st' = Put(st, o, "read")
        /\ ran' = Put(ran, o, MCDecode(files[f]) @@ objs[o])
        /\ Call([op |-> "readb", o |-> o, f |-> f, want |-> "ok"])
     \/ /\ ReadBoozmnError(o, f, objs[o]) /\ "bad" \in Calls
        /\ st' = Put(st, o, "junk")
        /\ UNCHANGED ran
        /\ Call([op |-> "readb", o |-> o, f |-> f, want |-> "error"])
  /\ UNCHANGED orig

\* (The objects are interchangeable: the first call is on "a".)
Next == \E o \in Objects : (hist = <<>> => o = "a") /\ (New(o) \/ Header(o) \/ LoadE(o) \/ Setup(o) \/ Wout(o) \/ Options(o) \/ RunE(o) \/ WriteE(o) \/ Read(o))
Spec == Init /\ [][Next]_mcvars

Shallow == Len(hist) < Depth
\* Every transition is printed: the calls that lead to it, and its own.
Export == IF Exporting THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
ExportEnd == (Exporting /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))

------------------------------------------------------------------------------
\* What must hold in every reachable state.
Reliable(o) == st[o] \in {"ok", "read"} /\ ran[o] # <<>>
Results(o) == [a \in OutputAttrs |-> objs[o][a]]

\* Results are those of the inputs at the time of the run (C07), whatever happened since.
\* (After a read, ran holds what the file says.)
FunctionOfInputs == \A o \in Objects : (st[o] = "ok" /\ ran[o] # <<>>) =>
  \/ \A a \in Saved \cap OutputAttrs : objs[o][a] = ran[o][a]
  \/ LET r == AfterRun(ran[o]) IN \A a \in OutputAttrs : objs[o][a] = r[a]

\* Equal inputs give equal results in any two objects, whatever their histories.
SameInputs(x, y) == /\ x.nfp = y.nfp /\ x.scale = y.scale /\ x.tab = y.tab /\ x.amps = y.amps /\ x.iota = y.iota /\ x.s_in = y.s_in /\ x.ns_in = y.ns_in
                    /\ x.mboz = y.mboz /\ x.nboz = y.nboz /\ x.compute_surfs = y.compute_surfs /\ x.asym = y.asym
                    /\ x.asym => x.aamps = y.aamps
EqualInputsEqualResults == \A o, p \in Objects :
  (o # p /\ MCInputComplete(objs[o]) /\ MCInputComplete(objs[p]) /\ SameInputs(objs[o], objs[p])) =>
     LET r == AfterRun(objs[o])  q == AfterRun(objs[p]) IN \A a \in OutputAttrs : r[a] = q[a]

\* C06: declared symmetric or not, the symmetric results of symmetric data agree and the others vanish.
SymmetryConsistent == \A o \in Objects :
  LET x == objs[o] IN
  (MCInputComplete(x) /\ x.asym /\ x.aamps.id = "zero") =>
     LET r == AfterRun(x)  q == AfterRun([x EXCEPT !.asym = FALSE]) IN
     /\ \A a \in SymOuts : r[a] = q[a]
     /\ \A a \in AsymOuts : \A k \in 1..Len(x.compute_surfs) : r[a][k] = <<"zeros">>
AsymEmpty == \A o \in Objects : (st[o] \in {"ok", "read"} /\ ran[o] # <<>> /\ ~ran[o].asym) => \A a \in AsymOuts : objs[o][a] = <<>>

\* C04: column k is the result of surface k alone.
Independent == \A o \in Objects : LET x == objs[o] IN
  (MCInputComplete(x) /\ RunValid(x) /\ Len(x.compute_surfs) > 1) =>
     LET r == AfterRun(x) IN
     \A k \in 1..Len(x.compute_surfs) :
       LET q == AfterRun([x EXCEPT !.compute_surfs = <<x.compute_surfs[k]>>]) IN
       \A a \in SymOuts : r[a][k] = q[a][1]

\* C12: a file restores the saved attributes of the object it was written from.
RoundTrip == \A f \in DOMAIN orig : LET d == MCDecode(files[f]) IN \A a \in Saved : d[a] = orig[f][a]
\* What was read is what the file would be written from.
ReadIsWritten == [][LET c == hist'[Len(hist')] IN
  (hist' # hist /\ c.op = "readb" /\ c.want = "ok") => MCEncode(objs'[c.o]) = files[c.f]]_mcvars

\* No call changes another object or another file.
NoInterference == [][\A o \in Objects : hist' # hist /\ hist'[Len(hist')].o # o => objs'[o] = objs[o]]_mcvars
=============================================================================
