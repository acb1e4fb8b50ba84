------------------------------ MODULE BoozTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of the real library against Booz.tla.     *)
(*                                                                         *)
(* The trace (file named by environment variable TRACE) holds scenarios;   *)
(* every event is one public call with its arguments, its outcome ("ok",   *)
(* "error" = exception, "crash" = the process died or hung) and the        *)
(* complete observed state after it, as changes to the attributes of every *)
(* object (chg) and to the contents of files (fchg).  Each initial state   *)
(* starts one scenario; each step consumes one event and requires what the *)
(* corresponding action of Booz.tla requires.  A requirement that fails is *)
(* printed as                                                              *)
(*   REJECT {"scn": .., "line": .., "op": .., "bad": [[property, rule]]}   *)
(* and the specification then continues from the observed state, so that   *)
(* the rest of the trace is checked as well.                               *)
(*                                                                         *)
(* Requirements are labelled with the properties they decide; only those   *)
(* of the properties in Focus are evaluated.                               *)
(***************************************************************************)
EXTENDS BoozTransform, BoozVmec, BoozFile, BoozCli, BoozPlots, Json, IOUtils, FiniteSets

CONSTANTS Focus       \* the properties to check

Trace  == ndJsonDeserialize(IOEnv.TRACE)
Starts == {i \in 1..Len(Trace) : Trace[i].first}

TolCopy    == Dec("1e-13")    \* rounding of copied or once-scaled values, relative to the largest
TolSpectra == Dec("1e-11")    \* rounding of sums over the grid, relative to the scale of their terms
TolConv    == Dec("1e-6")     \* truncation error of a converged series, relative
TolRef     == Dec("1e-7")     \* the exact result counts as converged below this error

VARIABLES
  objs, files,   \* the state of Booz.tla, as observed
  l, fresh,      \* next event; TRUE before the first event of the scenario
  taint,         \* objects left behind by a failed load or read
  mem,           \* what was computed for a surface: sequence of [key, res]
  src            \* file name -> the object it was written from

tvars == <<objs, files, l, fresh, taint, mem, src>>
View == <<l, fresh>>

------------------------------------------------------------------------------
\* Attributes by type.
IntAttrs  == {"verbose", "nfp", "mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "ns_in",
              "mboz", "nboz", "ns_b", "mnboz"}
RealAttrs == {"aspect", "toroidal_flux"}
IVecAttrs == {"xm", "xn", "xm_nyq", "xn_nyq", "compute_surfs", "xm_b", "xn_b"}
RVecAttrs == {"s_in", "iota", "phi", "chi", "phip", "pres", "s_b",
              "Boozer_G", "Boozer_I", "Boozer_G_all", "Boozer_I_all"}
InMats    == {"rmnc", "rmns", "zmnc", "zmns", "lmnc", "lmns", "bmnc", "bmns",
              "bsubumnc", "bsubumns", "bsubvmnc", "bsubvmns"}
OutMats   == {"bmnc_b", "bmns_b", "rmnc_b", "rmns_b", "zmnc_b", "zmns_b",
              "numnc_b", "numns_b", "gmnc_b", "gmns_b"}
Attrs == IntAttrs \cup RealAttrs \cup IVecAttrs \cup RVecAttrs \cup InMats \cup OutMats \cup {"asym"}

Default ==
  [a \in Attrs |-> CASE a = "asym" -> FALSE
                     [] a \in {"verbose", "nfp"} -> 1
                     [] a \in {"mboz", "nboz"} -> 16
                     [] a \in IntAttrs \ {"verbose", "nfp", "mboz", "nboz"} -> 0
                     [] a \in RealAttrs -> Zero
                     [] a \in IVecAttrs \cup RVecAttrs -> <<>>
                     [] OTHER -> EmptyMat]

SameVal(a, u, v) == IF a \in InMats \cup OutMats THEN SameM(u, v)
                    ELSE IF a \in RVecAttrs \cup RealAttrs THEN SameR(u, v)
                    ELSE u = v

\* Mode numbers that fit the largest ones and the number of field periods.
ModesFit(m, n, rows, mmax, nmax, nfp) ==
  /\ rows >= 1 /\ Len(m) >= rows /\ Len(n) >= rows
  /\ \A k \in 1..rows : /\ m[k] \in 0..mmax
                        /\ n[k] % nfp = 0
                        /\ n[k] <= nmax * nfp /\ -(n[k]) <= nmax * nfp

\* Does an object hold all input data that a run uses.
HoldsInput(x) ==
  LET Big(M, rows) == M.r >= rows /\ M.c >= x.ns_in IN
  /\ x.nfp >= 1
  /\ ModesFit(x.xm, x.xn, x.mnmax, x.mpol - 1, x.ntor, x.nfp)
  /\ ModesFit(x.xm_nyq, x.xn_nyq, x.mnmax_nyq, x.mpol_nyq, x.ntor_nyq, x.nfp)
  /\ x.xm_nyq[1] = 0 /\ x.xn_nyq[1] = 0
  /\ x.mpol >= 1 /\ LenR(x.iota) >= x.ns_in /\ LenR(x.s_in) >= x.ns_in
  /\ Big(x.rmnc, x.mnmax) /\ Big(x.zmns, x.mnmax) /\ Big(x.lmns, x.mnmax)
  /\ Big(x.bmnc, x.mnmax_nyq) /\ Big(x.bsubumnc, x.mnmax_nyq) /\ Big(x.bsubvmnc, x.mnmax_nyq)
  /\ x.asym => /\ Big(x.rmns, x.mnmax) /\ Big(x.zmnc, x.mnmax) /\ Big(x.lmnc, x.mnmax)
               /\ Big(x.bmns, x.mnmax_nyq) /\ Big(x.bsubumns, x.mnmax_nyq) /\ Big(x.bsubvmns, x.mnmax_nyq)

InputProfiles(x) == [G |-> Slice(Row(x.bsubvmnc, 0), 1, x.ns_in), I |-> Slice(Row(x.bsubumnc, 0), 1, x.ns_in)]
SelectedRadii(x) == Pick(x.s_in, [k \in 1..Len(x.compute_surfs) |-> x.compute_surfs[k] + 1])
TransformAll(x) ==
  LET n == Len(x.compute_surfs)
      S == TLCEval([k \in 1..n |-> SurfaceSpectra(x, x.compute_surfs[k])])
      mn == Len(ModeM(x.mboz, x.nboz))
      M(f) == MatOfCols(mn, [k \in 1..n |-> S[k][f]])
      A(f) == IF x.asym THEN M(f) ELSE EmptyMat
  IN  [bmnc_b |-> M("bmnc"), rmnc_b |-> M("rmnc"), zmns_b |-> M("zmns"), numns_b |-> M("numns"), gmnc_b |-> M("gmnc"),
       bmns_b |-> A("bmns"), rmns_b |-> A("rmns"), zmnc_b |-> A("zmnc"), numnc_b |-> A("numnc"), gmns_b |-> A("gmns"),
       Boozer_G |-> CatAll([k \in 1..n |-> S[k].G]), Boozer_I |-> CatAll([k \in 1..n |-> S[k].I])]

\* Objects whose arrays do not fit the sizes that a boozmn file has.
FluxProfiles == {"phip", "chi", "pres", "phi"}
CannotWrite(x) ==
  LET n == Len(x.compute_surfs) IN
  \/ n < 1 \/ x.ns_b # n \/ x.mnboz < 1
  \/ Len(x.xm_b) # x.mnboz \/ Len(x.xn_b) # x.mnboz
  \/ \E a \in {"bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b"} : ~IsMat(x[a], x.mnboz, n)
  \/ x.asym /\ \E a \in {"bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b"} : ~IsMat(x[a], x.mnboz, n)
  \/ \E a \in {"iota", "Boozer_G_all", "Boozer_I_all"} : LenR(x[a]) < x.ns_in
  \/ LenR(x.phip) > 0 /\ \E a \in FluxProfiles : LenR(x[a]) < x.ns_in + 1

EncodeObj(x) == [format |-> "classic", dims |-> EncodeDims(x), vars |-> EncodeVars(x, "")]
ReadableWout(c, flux) == WoutReadable(c, flux)

INSTANCE Booz WITH
  ModesM <- ModeM, ModesN <- ModeN, Outputs <- TransformAll, Profiles <- InputProfiles, Radii <- SelectedRadii,
  Consistent <- Consistent, Loaded <- Loaded, InputComplete <- HoldsInput,
  WoutHeader <- WoutAttrs, WoutArgs <- WoutLoadArgs, IsWout <- ReadableWout,
  Encode <- EncodeObj, Unwritable <- CannotWrite, IsBoozmn <- BoozmnReadable, Decode <- BoozmnDecode,
  AfterWrite <- WriteEffect, DefaultObject <- Default, NoFile <- NoFileContent

------------------------------------------------------------------------------
\* The event and what was observed.
ev == Trace[l]
Obs(o) == IF o \in DOMAIN ev.chg
          THEN IF o \in DOMAIN objs THEN ev.chg[o] @@ objs[o] ELSE ev.chg[o]
          ELSE objs[o]
Objs2  == [o \in DOMAIN objs \cup DOMAIN ev.chg |-> Obs(o)]
Files2 == ev.fchg @@ files

All == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
        "C14", "C15", "C16", "C17", "C18"}
On(tags) == tags \cap Focus # {}
Chk(tags, name, cond) == IF ~On(tags) THEN {} ELSE IF cond THEN {} ELSE {<<t, name>> : t \in tags \cap Focus}

\* Attributes S of two records that differ.
Differ(S, x, y) == {a \in S : ~SameVal(a, x[a], y[a])}
Unchanged(S, x, y) == \A a \in S : x[a] = y[a]

\* A call must succeed exactly if ok; a failure to do so concerns every property
\* for valid calls, and C09/C13 (bad) for invalid ones.
Outcome(ok, bad) ==
  IF ok THEN Chk(All, "a valid call must succeed", ev.out = "ok")
  ELSE Chk(bad, "an invalid call must raise an error", ev.out # "ok")
       \cup Chk(All, "no call may crash", ev.out # "crash")
Untainted(o) == o \notin taint

\* Required of every event.
Frame(o) ==
  Chk({"C07", "C17", "C18"}, "a call changes no other object",
      \A p \in DOMAIN objs \ {o} : p \in DOMAIN ev.chg => ev.chg[p] = [a \in {} |-> 0])
  \cup Chk({"C13"}, "no file handle stays open", ev.fds = 0)
  \cup Chk({"C15"}, "nothing is printed with verbose = 0",
           (ev.op \in {"set", "sets", "load", "wout", "run", "write", "readb"} /\ ev.out = "ok" /\ o \in DOMAIN objs /\ objs[o].verbose <= 0 /\ Obs(o).verbose <= 0)
              => ev.nout = 0)

------------------------------------------------------------------------------
\* Comparison of results.
\* Rounding of a column of both parities, relative to its largest entry.
ColScale(x, j, c, s) == Larger(MaxAbs(Col(x[c], j)), IF x[s].r = 0 THEN Zero ELSE MaxAbs(Col(x[s], j)))
Kinds == {<<"bmnc_b", "bmns_b", "B">>, <<"rmnc_b", "rmns_b", "R">>, <<"zmns_b", "zmnc_b", "Z">>,
          <<"numns_b", "numnc_b", "nu">>, <<"gmnc_b", "gmns_b", "g">>}

ShapesOk(x, y) ==
  LET n == Len(x.compute_surfs)  mn == Len(ModeM(x.mboz, x.nboz)) IN
  /\ \A q \in Kinds : /\ IsMat(y[q[1]], mn, n)
                      /\ IF x.asym THEN IsMat(y[q[2]], mn, n) ELSE TRUE
  /\ LenR(y.s_b) = n /\ LenR(y.Boozer_G) = n /\ LenR(y.Boozer_I) = n
  /\ Len(y.xm_b) = mn /\ Len(y.xn_b) = mn

\* C01: column k (1-based) of the results equals the documented integrals.
SpectraName(a) == CASE a = "bmnc_b" -> "bmnc" [] a = "bmns_b" -> "bmns" [] a = "rmnc_b" -> "rmnc" [] a = "rmns_b" -> "rmns"
                    [] a = "zmnc_b" -> "zmnc" [] a = "zmns_b" -> "zmns" [] a = "numnc_b" -> "numnc" [] a = "numns_b" -> "numns"
                    [] a = "gmnc_b" -> "gmnc" [] a = "gmns_b" -> "gmns"
ColumnOk(x, y, k) ==
  LET S == SurfaceSpectra(x, x.compute_surfs[k])
      Ok(a, kind) == Close(Col(y[a], k - 1), S[SpectraName(a)], Mul(TolSpectra, S.scale[kind]))
  IN  /\ \A q \in Kinds : Ok(q[1], q[3]) /\ (x.asym => Ok(q[2], q[3]))
      /\ SameR(At(y.Boozer_G, k), S.G) /\ SameR(At(y.Boozer_I, k), S.I)

\* What the results of a surface may depend on.  Amplitudes that are not used do not
\* appear: for a symmetric configuration the asymmetric ones; asymmetric ones
\* that are all zero count as symmetric.
AsymCols(x, j) == [a \in AsymInputs |-> Col(x[a], j)]
SurfKey(x, j) ==
  LET sym == \/ ~x.asym
             \/ \A a \in AsymInputs : IsZero(Col(x[a], j))
  IN  [tables |-> <<x.nfp, x.xm, x.xn, x.xm_nyq, x.xn_nyq>>,
       iota |-> At(x.iota, j + 1),
       cols |-> [a \in InMats \ AsymInputs |-> Col(x[a], j)],
       asy |-> IF sym THEN <<>> ELSE <<AsymCols(x, j)>>]
SurfResult(x, y, k) ==
  [asym |-> x.asym, mboz |-> x.mboz, nboz |-> x.nboz,
   G |-> At(y.Boozer_G, k), I |-> At(y.Boozer_I, k), scale |-> SurfaceScale(x, x.compute_surfs[k]),
   c |-> [q \in {p[1] : p \in Kinds} |-> Col(y[q], k - 1)],
   s |-> IF x.asym THEN <<[q \in {p[2] : p \in Kinds} |-> Col(y[q], k - 1)]>> ELSE <<>>]

\* Earlier results for the same surface data.
Earlier(key) == SelectSeq(mem, LAMBDA e : e.key = key)
SameRes(a, b) == a.mboz = b.mboz /\ a.nboz = b.nboz

\* Agreement of results to rounding.
Agree(e, r) ==
  /\ SameR(e.G, r.G) /\ SameR(e.I, r.I)
  /\ \A q \in Kinds :
       LET tol == Mul(TolSpectra, r.scale[q[3]]) IN
       /\ Close(e.c[q[1]], r.c[q[1]], tol)
       /\ (e.asym /\ r.asym) => Close(e.s[1][q[2]], r.s[1][q[2]], tol)
AsymNoise(r) == r.asym => \A q \in Kinds :
  Close(r.s[1][q[2]], Fill(LenR(r.s[1][q[2]]), Zero), Mul(TolSpectra, r.scale[q[3]]))

\* C02: the series reproduce the input at fixed points of the original angles.
PtTheta == CatAll(<<Dec("0"), Dec("0.7"), Dec("2.1"), Dec("3.9"), Dec("5.3"), Dec("1.3")>>)
PtZeta(nfp) == Quo(CatAll(<<Dec("0"), Dec("0.4"), Dec("5.1"), Dec("2.2"), Dec("3.3"), Dec("4.6")>>), FromInt(nfp))
\* Largest errors of series (c, s: functions of kind) at the points, relative.
SeriesErr(P, ms, ns, c(_), s(_)) ==
  LET E(kind, v, unit) == Quo(MaxAbs(Sub(Series(ms, ns, c(kind), s(kind), P.thetaB, P.zetaB), v)), Add(MaxAbs(v), unit))
  IN  [B |-> E("B", P.B, Zero), R |-> E("R", P.R, Zero), Z |-> E("Z", P.Z, One), nu |-> E("nu", P.nu, One), g |-> E("g", P.jac, Zero)]
CosAttr(kind) == CASE kind = "B" -> "bmnc_b" [] kind = "R" -> "rmnc_b" [] kind = "Z" -> "zmnc_b" [] kind = "nu" -> "numnc_b" [] kind = "g" -> "gmnc_b"
SinAttr(kind) == CASE kind = "B" -> "bmns_b" [] kind = "R" -> "rmns_b" [] kind = "Z" -> "zmns_b" [] kind = "nu" -> "numns_b" [] kind = "g" -> "gmns_b"
KindNames == {"B", "R", "Z", "nu", "g"}
\* Errors of the exact transform (the input is smooth enough for this resolution if they are small), and of the results.
ExactErr(x, k) ==
  LET j == x.compute_surfs[k]
      P == PointValues(x, j, PtTheta, PtZeta(x.nfp))
      S == SurfaceSpectra(x, j)
  IN  SeriesErr(P, ModeM(x.mboz, x.nboz), ModeN(x.mboz, x.nboz, x.nfp), LAMBDA q : S[SpectraName(CosAttr(q))], LAMBDA q : S[SpectraName(SinAttr(q))])
ReconstructOk(x, y, k, exact) ==
  LET P == PointValues(x, x.compute_surfs[k], PtTheta, PtZeta(x.nfp))
      ColOr0(a) == IF y[a].r = 0 THEN Fill(y.mnboz, Zero) ELSE Col(y[a], k - 1)
      got == SeriesErr(P, y.xm_b, y.xn_b, LAMBDA q : ColOr0(CosAttr(q)), LAMBDA q : ColOr0(SinAttr(q)))
  IN  \A q \in KindNames : LeR(exact[q], TolRef) => LeR(got[q], TolConv)
Converged(exact) == \A q \in KindNames : LeR(exact[q], TolRef)
\* Amplitudes keep their values when the resolution grows: compare the modes
\* present in both results.
CommonOk(e, r, nfp) ==
  LET me == ModeM(e.mboz, e.nboz)  ne == ModeN(e.mboz, e.nboz, nfp)
      ie == [p \in 1..Len(me) |-> p]
      \* where mode p of e stands in the larger list of r
      ir == [p \in 1..Len(me) |-> IF me[p] = 0 THEN ne[p] \div nfp + 1
               ELSE (r.nboz + 1) + (me[p] - 1) * (2 * r.nboz + 1) + (ne[p] \div nfp + r.nboz) + 1]
      Tol(q) == Mul(TolConv, Add(MaxAbs(e.c[q[1]]), IF q[3] \in {"Z", "nu"} THEN One ELSE Zero))
  IN  \A q \in Kinds : /\ Close(Pick(e.c[q[1]], ie), Pick(r.c[q[1]], ir), Tol(q))
                       /\ e.asym => Close(Pick(e.s[1][q[2]], ie), Pick(r.s[1][q[2]], ir), Tol(q))

------------------------------------------------------------------------------
\* C15: the report printed by a run. ev.rep is the sequence of report lines,
\* [k |-> "0" or "pi" or "bad", thread, jsb, js (for "0"), v |-> six numbers].
ReportOk(x, y) ==
  LET n == Len(x.compute_surfs)  rep == ev.rep
      nz == NZeta(x.nboz)
      \* theta = 0, pi at zeta = 0; theta = 0, pi at half a period
      th == CatAll(<<Zero, Pi, Zero, Pi>>)
      zh == IF nz = 1 THEN Zero ELSE Quo(Pi, FromInt(x.nfp))
      ze == CatAll(<<Zero, Zero, zh, zh>>)
      \* printed with four significant digits
      Near(a, b, rel) == LeR(AbsR(Sub(a, b)), Add(Mul(Dec(rel), AbsR(b)), Dec("1e-9")))
      Numbers(k) ==   \* k: 1-based surface
        LET j == x.compute_surfs[k]
            P == PointValues(x, j, th, ze)
            bs == IF y.bmns_b.r = 0 THEN Fill(Len(y.xm_b), Zero) ELSE Col(y.bmns_b, k - 1)
            bb == Series(y.xm_b, y.xn_b, Col(y.bmnc_b, k - 1), bs, P.thetaB, P.zetaB)
            err == Quo(AbsR(Sub(bb, P.B)), Larger(bb, P.B))
        IN  [p \in 1..4 |-> <<At(P.B, p), At(bb, p), At(err, p)>>]
      LineOk(v, N, p) == /\ Near(At(v, 1), N[p][1], "6e-4") /\ Near(At(v, 2), N[p][2], "6e-4") /\ Near(At(v, 3), N[p][3], "1e-3")
                         /\ Near(At(v, 4), N[p+1][1], "6e-4") /\ Near(At(v, 5), N[p+1][2], "6e-4") /\ Near(At(v, 6), N[p+1][3], "1e-3")
  IN  IF x.verbose <= 0 THEN {}
      ELSE Chk({"C15", "C05"}, "one intact report for every surface",
             /\ Len(rep) = 2 * n
             /\ \A i \in 1..Len(rep) : rep[i].k = (IF i % 2 = 1 THEN "0" ELSE "pi")
             /\ {rep[i].jsb : i \in {i \in 1..Len(rep) : rep[i].k = "0"}} = 0..(n-1))
           \cup Chk({"C15"}, "the report gives the right numbers",
             \A i \in 1..Len(rep) :
               (i % 2 = 1 /\ i < Len(rep) /\ rep[i].k = "0" /\ rep[i+1].k = "pi" /\ rep[i].jsb \in 0..(n-1)) =>
                 /\ rep[i].js = x.compute_surfs[rep[i].jsb + 1]
                 /\ LET N == TLCEval(Numbers(rep[i].jsb + 1)) IN LineOk(rep[i].v, N, 1) /\ LineOk(rep[i+1].v, N, 3))

------------------------------------------------------------------------------
\* The events.
\* Each operator gives the set of failed requirements.

NewFails ==
  Chk({"C17", "C07"}, "a new object has the default attributes",
      /\ ev.out = "ok"
      /\ DOMAIN Obs(ev.o) = Attrs
      /\ Differ(Attrs, Obs(ev.o), Default) = {})

SetFails ==
  LET x == objs[ev.o]  y == Obs(ev.o) IN
  IF ev.a \in InputAttrs
  THEN Chk(All, "input attributes can be assigned", ev.out = "ok")
       \cup Chk({"C17"}, "an attribute returns the value assigned", ev.out = "ok" => y[ev.a] = ev.v)
       \cup Chk({"C17", "C07"}, "assignment affects no other attribute", Unchanged(Attrs \ {ev.a}, x, y))
  ELSE Chk({"C17"}, "output attributes cannot be assigned", ev.out = "error")
       \cup Chk({"C17"}, "a rejected assignment changes nothing", Unchanged(Attrs, x, y))

\* Several assignments, one after the other.
SetsFails ==
  LET x == objs[ev.o]  y == Obs(ev.o) IN
  Chk(All, "input attributes can be assigned", ev.out = "ok")
  \cup Chk({"C17"}, "an attribute returns the value assigned", ev.out = "ok" => \A a \in DOMAIN ev.vals : y[a] = ev.vals[a])
  \cup Chk({"C17", "C07"}, "assignment affects no other attribute", Unchanged(Attrs \ DOMAIN ev.vals, x, y))

\* A new object with the input attributes of another one (NewObj and SetAttr for each).
CloneFails ==
  LET y == Obs(ev.o) IN
  Chk(All, "input attributes can be assigned", ev.out = "ok")
  \cup Chk({"C17"}, "a clone has the assigned and the default values",
           ev.out = "ok" => /\ \A a \in InputAttrs \ {ev.except[i] : i \in DOMAIN ev.except} : y[a] = objs[ev.p][a]
                            /\ \A a \in OutputAttrs : SameVal(a, y[a], Default[a]))

\* Attributes given by a load, with rounding where values are computed.
LoadedOk(want, y, tags) ==
  UNION {Chk(tags, "loaded " \o a,
     IF a \in {"rmnc", "zmns", "rmns", "zmnc"}
     THEN y[a].r = want[a].r /\ y[a].c = want[a].c
          /\ \A k \in 0..(want[a].r - 1) :       \* mode by mode: amplitudes differ by many orders of magnitude
                LET w == Row(want[a], k) IN Close(Row(y[a], k), w, Mul(TolCopy, MaxAbs(w)))
     ELSE IF a \in {"phip", "s_in"} THEN Close(y[a], want[a], Mul(TolCopy, MaxAbs(want[a])))
     ELSE SameVal(a, y[a], want[a])) : a \in DOMAIN want}

\* What a load leaves alone: the attributes that are neither set by it nor
\* results of, or inputs irrelevant to, the equilibrium loaded.
LoadFrame(want, x, y, tags) ==
  Chk(tags, "a load changes no other input", Unchanged(InputAttrs \ (DOMAIN want \cup AsymInputs), x, y))

LoadFails ==
  LET x == objs[ev.o]  y == Obs(ev.o)  ok == Consistent(x, ev.args) IN
  Outcome(ok, {"C09"})
  \cup (IF ok /\ ev.out = "ok" /\ On({"C08", "C09", "C13"})
        THEN LET want == Loaded(x, ev.args) IN LoadedOk(want, y, {"C08"}) \cup LoadFrame(want, x, y, {"C08"})
        ELSE {})

WoutFails ==
  LET c == IF ev.f \in DOMAIN Files2 THEN Files2[ev.f] ELSE NoFileContent
      y == Obs(ev.o)
      x == objs[ev.o]
      readable == WoutReadable(c, ev.flux)
      hd == WoutAttrs(c) @@ x
      args == WoutLoadArgs(c, ev.flux)
      ok == readable /\ Consistent(hd, args)
  IN  (IF ev.fault THEN Chk(All, "no call may crash", ev.out # "crash") ELSE Outcome(ok, {"C09", "C10", "C13"}))
      \cup (IF ok /\ ev.out = "ok" /\ On({"C10", "C13", "C18"})
            THEN LET want == Loaded(hd, args) IN
                 UNION {Chk({"C10", "C13", "C18"}, "wout header " \o a, SameVal(a, y[a], WoutAttrs(c)[a])) : a \in DOMAIN WoutAttrs(c)}
                 \cup LoadedOk(want, y, {"C10", "C13", "C18"})
                 \cup LoadFrame(want @@ WoutAttrs(c), x, y, {"C10", "C18"})
            ELSE {})

RunResultFails(x, y) ==
  LET n == Len(x.compute_surfs)
      frame == RunFrame(x)
      res == TLCEval([k \in 1..n |-> SurfResult(x, y, k)])
      key == TLCEval([k \in 1..n |-> SurfKey(x, x.compute_surfs[k])])
      exact == TLCEval(IF On({"C02"}) THEN [k \in 1..n |-> ExactErr(x, k)] ELSE <<>>)
  IN  UNION {Chk({"C03", "C07", "C18"}, "run " \o a, SameVal(a, y[a], frame[a])) : a \in DOMAIN frame}
      \cup Chk({"C04", "C18"}, "radii in the order of the selection", SameVal("s_b", y.s_b, frame.s_b))
      \cup Chk({"C03", "C06"}, "asymmetric results are empty when symmetric",
               ~x.asym => \A a \in AsymOutputs : y[a] = EmptyMat)
      \cup Chk({"C07", "C18"}, "a run changes no input", Unchanged(InputAttrs, x, y))
      \cup Chk({"C01", "C04", "C05", "C06", "C07", "C18"}, "results are numbers", \A a \in OutMats : Finite(y[a].d))
      \cup Chk({"C04", "C05", "C07", "C18"}, "G and I of the selected surfaces",
               \A k \in 1..n : SameR(At(y.Boozer_G, k), GOf(x, x.compute_surfs[k])) /\ SameR(At(y.Boozer_I, k), IOf(x, x.compute_surfs[k])))
      \cup UNION {Chk({"C01"}, "spectra equal the documented transform", ColumnOk(x, y, k)) : k \in 1..n}
      \cup UNION {Chk({"C02"}, "the series reproduce the field", ReconstructOk(x, y, k, exact[k])) : k \in 1..n}
      \cup UNION {Chk({"C02"}, "amplitudes keep their values when the resolution grows",
                      Earlier(key[k]) # <<>> => (Converged(exact[k]) =>
                        \A i \in 1..Len(Earlier(key[k])) :
                          LET e == Earlier(key[k])[i].res IN
                          (e.asym = res[k].asym /\ e.mboz <= x.mboz /\ e.nboz <= x.nboz /\ Earlier(key[k])[i].conv)
                             => CommonOk(e, res[k], x.nfp))) : k \in 1..n}
      \cup UNION {Chk({"C04", "C05", "C06", "C07", "C13", "C18"}, "equal surface data give equal results",
                      \A i \in 1..Len(Earlier(key[k])) :
                        LET e == Earlier(key[k])[i].res IN SameRes(e, res[k]) => Agree(e, res[k])) : k \in 1..n}
      \cup UNION {Chk({"C06"}, "no asymmetric results from symmetric data",
                      key[k].asy = <<>> => AsymNoise(res[k])) : k \in 1..n}
      \cup ReportOk(x, y)

\* The observation points passed during the run, in order: ev.log is a sequence
\* of <<point, position in the selection>>.  They must be those of a behaviour of
\* BoozSched (as far as the points are present in the code).
LogOk(x) ==
  LET n == Len(x.compute_surfs)
      log == ev.log
      At_(s) == SelectSeq([i \in 1..Len(log) |-> i], LAMBDA i : log[i][2] = s)
      Is(s, p) == SelectSeq(At_(s), LAMBDA i : log[i][1] = p)
      Has(p) == \E i \in 1..Len(log) : log[i][1] = p
      Once(s, p) == Has(p) => Len(Is(s, p)) = 1
      ends == {i \in 1..Len(log) : log[i][1] = "run_end"}
  IN  /\ \A i \in 1..Len(log) : log[i][2] \in -1..(n-1)
      /\ Has("begin") => \A s \in 0..(n-1) : Once(s, "begin") /\ At_(s)[1] = Is(s, "begin")[1]
      /\ Has("end") => \A s \in 0..(n-1) : Once(s, "end") /\ At_(s)[Len(At_(s))] = Is(s, "end")[1]
      /\ \A s \in 0..(n-1) : Once(s, "spectra")
      /\ \A e \in ends, i \in 1..Len(log) : log[i][2] # -1 => i < e

RunFails ==
  LET x == objs[ev.o]  y == Obs(ev.o) IN
  Outcome(RunValid(x), {"C09"})
  \cup Chk({"C09", "C07", "C18"}, "a rejected run changes nothing", ev.out = "error" /\ ~RunValid(x) => Unchanged(Attrs, x, y))
  \cup (IF RunValid(x) /\ ev.out = "ok"
        THEN Chk(All, "the results have the right shape", ShapesOk(x, y))
             \cup (IF "log" \in DOMAIN ev THEN Chk({"C05", "C18"}, "every surface is computed exactly once before the run returns", LogOk(x)) ELSE {})
             \cup (IF ShapesOk(x, y) THEN RunResultFails(x, y) ELSE {})
        ELSE {})

\* New entries of mem.
RunMem ==
  LET x == objs[ev.o]  y == Obs(ev.o) IN
  IF On({"C02", "C04", "C05", "C06", "C07", "C13", "C18"}) /\ ev.out = "ok" /\ Untainted(ev.o) /\ RunValid(x) /\ ShapesOk(x, y)
  THEN LET key == TLCEval([k \in 1..Len(x.compute_surfs) |-> SurfKey(x, x.compute_surfs[k])])
           \* Results already known (and found to agree) are not remembered again.
           Known(k) == \/ \E i \in 1..Len(mem) : mem[i].key = key[k] /\ mem[i].res.mboz = x.mboz /\ mem[i].res.nboz = x.nboz /\ mem[i].res.asym = x.asym
                       \/ \E i \in 1..(k-1) : key[i] = key[k]
           new == SelectSeq([k \in 1..Len(x.compute_surfs) |-> k], LAMBDA k : ~Known(k))
       IN  mem \o [i \in 1..Len(new) |->
                 [key |-> key[new[i]], res |-> SurfResult(x, y, new[i]),
                  \* (the finest results are not compared with later ones)
                  conv |-> On({"C02"}) /\ y.mnboz <= 1500 /\ Converged(ExactErr(x, new[i]))]]
  ELSE mem

\* Does an object hold a complete set of results.
HoldsResults(x) ==
  LET n == Len(x.compute_surfs)  mn == x.mnboz  r == x.ns_in + 1 IN
  /\ n >= 1 /\ mn >= 1 /\ x.ns_b = n /\ Len(x.xm_b) = mn /\ Len(x.xn_b) = mn
  /\ LenR(x.iota) = x.ns_in /\ LenR(x.Boozer_G_all) = x.ns_in /\ LenR(x.Boozer_I_all) = x.ns_in
  /\ LenR(x.phip) = 0 \/ (LenR(x.phip) = r /\ LenR(x.chi) = r /\ LenR(x.pres) = r /\ LenR(x.phi) = r)
  /\ \A a \in SymOutputs : IsMat(x[a], mn, n)
  /\ x.asym => \A a \in AsymOutputs : IsMat(x[a], mn, n)

SameVar(u, v) == /\ u.t = v.t
                 /\ IF u.t = "double" THEN SameR(u.v, v.v) ELSE IF u.t = "char" THEN TRUE ELSE u.v = v.v
                 /\ u.t = "char" \/ u.dims = v.dims
BoozmnContentFails(x, c, tags) ==
  LET want == EncodeObj(x) IN
  Chk(tags, "boozmn file format", c.format = want.format)
  \cup (IF c.format # want.format THEN {} ELSE
        Chk(tags, "boozmn file dimensions", \A d \in DOMAIN want.dims : d \in DOMAIN c.dims /\ c.dims[d] = want.dims[d])
        \cup Chk(tags, "boozmn file has exactly the variables of the format", DOMAIN c.vars = DOMAIN want.vars)
        \cup UNION {Chk(tags, "boozmn variable " \o v, v \in DOMAIN c.vars /\ SameVar(c.vars[v], want.vars[v])) : v \in DOMAIN want.vars})

WriteFails ==
  LET x == objs[ev.o]  y == Obs(ev.o)  c == IF ev.f \in DOMAIN Files2 THEN Files2[ev.f] ELSE NoFileContent
      ok == HoldsResults(x)
  IN  (IF ev.fault THEN Chk(All, "no call may crash", ev.out # "crash")
       ELSE IF ok THEN Chk(All, "a valid call must succeed", ev.out = "ok")
       ELSE Chk(All, "no call may crash", ev.out # "crash")
            \cup Chk({"C11", "C13"}, "results that do not belong together are not written", CannotWrite(x) => ev.out # "ok")
            \cup Chk({"C11", "C13"}, "a rejected write leaves the file as it was",
                     (CannotWrite(x) /\ ev.out = "error") => LET was == IF ev.f \in DOMAIN files THEN files[ev.f] ELSE NoFileContent
                          is == Files2[ev.f]
                      IN  is.format = was.format /\ (is.format # "none" => ToJson(is) = ToJson(was)))
            \cup Chk({"C11", "C07"}, "a rejected write changes nothing", CannotWrite(x) /\ ev.out = "error" => Unchanged(Attrs, x, y)))
      \cup (IF ok /\ ev.out = "ok" THEN BoozmnContentFails(x, c, {"C11", "C13", "C18"}) ELSE {})
      \cup Chk({"C11", "C07", "C18"}, "writing leaves the object unchanged", ok => Unchanged(Attrs \ {"phip"}, x, y)
                                  /\ (y.phip = x.phip \/ y.phip = WriteEffect(x).phip))

ReadFails ==
  LET c == IF ev.f \in DOMAIN Files2 THEN Files2[ev.f] ELSE NoFileContent
      x == objs[ev.o]  y == Obs(ev.o)  ok == BoozmnReadable(c)
      ResultAttrs == OutputAttrs \cup {"asym", "nfp", "mboz", "nboz", "ns_in", "compute_surfs", "iota", "aspect"}
  IN  (IF ev.fault THEN Chk(All, "no call may crash", ev.out # "crash") ELSE Outcome(ok, {"C13", "C12"}))
      \cup (IF ok /\ ev.out = "ok" /\ On({"C12", "C13", "C16", "C18"})
            THEN LET want == BoozmnDecode(c) IN
                 UNION {Chk({"C12", "C13", "C18"}, "read " \o a,
                            IF a = "s_b" THEN Close(y[a], want[a], TolCopy) ELSE SameVal(a, y[a], want[a])) : a \in DOMAIN want}
                 \cup Chk({"C12"}, "reading does not change the equilibrium",
                          Unchanged(InputAttrs \ (DOMAIN want \cup {"s_in"}), x, y))
                 \cup (IF ev.f \in DOMAIN src /\ src[ev.f].phip # <<>>
                       THEN Chk({"C12"}, "flux survives write and read",
                             \A a \in {"phi", "chi", "pres"} : SameVal(a, y[a], src[ev.f][a])) ELSE {})
                 \cup (IF ev.f \in DOMAIN src
                       THEN UNION {Chk({"C12"}, "survives write and read: " \o a,
                             IF a = "s_b" THEN Close(y[a], src[ev.f][a], TolCopy) ELSE SameVal(a, y[a], src[ev.f][a])) : a \in ResultAttrs}
                       ELSE {})
            ELSE {})

------------------------------------------------------------------------------
\* C14: one run of a command line driver on an input file (ev.text: its character
\* codes) in a directory where no boozmn file was; ev.made: those made by it.
SameSpectrum(u, v, tol) == u.t = v.t /\ u.dims = v.dims /\ Close(u.v, v.v, tol)
CliContentFails(x, c) ==
  LET z == TLCEval(AfterRun(x))
      want == TLCEval(EncodeObj(z))
      n == Len(x.compute_surfs)
      S == TLCEval([k \in 1..n |-> SurfaceScale(x, x.compute_surfs[k])])
      Tol(kind) == Mul(TolSpectra, MaxR(CatAll([k \in 1..n |-> S[k][kind]])))
      spectra == [bmnc_b |-> "B", bmns_b |-> "B", rmnc_b |-> "R", rmns_b |-> "R", zmns_b |-> "Z", zmnc_b |-> "Z",
                  pmns_b |-> "nu", pmnc_b |-> "nu", gmn_b |-> "g", gmns_b |-> "g"]
  IN  Chk({"C14"}, "boozmn file format", c.format = want.format)
      \cup (IF c.format # want.format THEN {} ELSE
            Chk({"C14"}, "boozmn file dimensions", \A d \in DOMAIN want.dims : d \in DOMAIN c.dims /\ c.dims[d] = want.dims[d])
            \cup Chk({"C14"}, "boozmn file has exactly the variables of the format", DOMAIN c.vars = DOMAIN want.vars)
            \cup UNION {Chk({"C14"}, "boozmn variable " \o v,
                   v \in DOMAIN c.vars /\ (IF v \in DOMAIN spectra THEN SameSpectrum(c.vars[v], want.vars[v], Tol(spectra[v]))
                                           ELSE SameVar(c.vars[v], want.vars[v]))) : v \in DOMAIN want.vars})

CliFails ==
  LET r == Parse(ev.text)
      fc == IF WoutName(r) \in DOMAIN files THEN files[WoutName(r)] ELSE NoFileContent
      readable == WoutReadable(fc, FALSE)
      hd == WoutAttrs(fc) @@ Default
      args == WoutLoadArgs(fc, FALSE)
      x0 == Loaded(hd, args) @@ hd
      x == CliOptions(r, x0) @@ x0
      \* The output cannot be written where there is a directory or no directory.
      blocked == BoozmnName(r) \in DOMAIN files /\ files[BoozmnName(r)].format = "blocked"
      ok == ev.exists /\ r.ok /\ readable /\ Consistent(hd, args) /\ RunValid(x) /\ ~blocked
  IN  Chk({"C14"}, "no command may crash", ev.out # "crash")
      \cup (IF ev.out = "crash" THEN {}
            ELSE IF ev.argc # 1 THEN Chk({"C14"}, "a wrong number of arguments prints the usage and exits with 0", ev.exit = 0 /\ ev.usage /\ DOMAIN ev.made = {})
            ELSE IF ok THEN Chk({"C14"}, "a valid command exits with 0", ev.exit = 0)
                            \cup Chk({"C14"}, "the results are in the boozmn file of the extension", DOMAIN ev.made = {BoozmnName(r)})
                            \cup (IF BoozmnName(r) \in DOMAIN ev.made THEN CliContentFails(x, ev.made[BoozmnName(r)]) ELSE {})
            ELSE Chk({"C14"}, "an invalid command exits with a non-zero status", ev.exit # 0)
                 \cup Chk({"C14"}, "an invalid command prints no success message", ~ev.bye)
                 \cup Chk({"C14"}, "an invalid command makes no boozmn file", DOMAIN ev.made = {}))

------------------------------------------------------------------------------
\* C16: a plot of an object or of a file.
PlotFails ==
  LET c == IF ev.f \in DOMAIN files THEN files[ev.f] ELSE NoFileContent
      fromFile == ev.f # ""
      readable == ~fromFile \/ BoozmnReadable(c)
      x == IF ~fromFile THEN objs[ev.o] ELSE IF readable THEN BoozmnDecode(c) @@ Default ELSE Default
      p == ev.opts   fig == ev.fig
      results == ~ev.bad /\ readable /\ HoldsResults(x)
      n == Len(x.compute_surfs)
      jsOk == "js" \in DOMAIN p => p.js \in (-n)..(n - 1)
      ok == results /\ jsOk /\ (ev.what = "wireplot" /\ Opt(p, "orig", TRUE) => HoldsInput(x))
      T == {"C16"}
  IN  Chk(T, "plotting changes no object", \A q \in DOMAIN ev.chg : ev.chg[q] = [a \in {} |-> 0])
      \cup (IF ev.bad \/ (fromFile /\ ~readable) THEN Chk(T, "what cannot be plotted is rejected", ev.out = "error") ELSE {})
      \cup (IF results /\ ~jsOk THEN Chk(T, "a surface that does not exist is rejected", ev.out = "error") ELSE {})
      \cup (IF ok THEN Chk(T, "a valid plot must succeed", ev.out = "ok") ELSE {})
      \cup (IF ~ok \/ ev.out # "ok" \/ ~On(T) THEN {}
            ELSE IF ev.what = "surfplot" THEN Chk(T, "surfplot shows |B| on the surface", SurfplotOk(x, p, fig))
                 \cup Chk(T, "surfplot labels", SurfplotLabelsOk(x, p, fig))
                 \cup Chk(T, "surfplot passes further arguments on", PassedTo(ev.extra, fig.extra))
            ELSE IF ev.what = "symplot"
            THEN Chk(T, "symplot shows the amplitudes against the radius", XOk(x, p, fig))
                 \cup Chk(T, "symplot shows the selected modes in groups", SymplotOk(x, p, fig))
                 \cup Chk(T, "symplot scales", ScaleOk(x, p, fig, YMin(x, p, TRUE)))
                 \cup Chk(T, "symplot legend and axis", LegendOk(fig) /\ AxisOk(p, fig))
                 \cup Chk(T, "symplot passes further arguments on", LinesPassed(fig, ev.extra, ev.legend_alpha))
            ELSE IF ev.what = "modeplot"
            THEN Chk(T, "modeplot shows the amplitudes against the radius", XOk(x, p, fig))
                 \cup Chk(T, "modeplot shows the largest modes", ModeplotOk(x, p, fig))
                 \cup Chk(T, "modeplot scales", ScaleOk(x, p, fig, YMin(x, p, FALSE)))
                 \cup Chk(T, "modeplot legend and axis", LegendOk(fig) /\ AxisOk(p, fig))
                 \cup Chk(T, "modeplot passes further arguments on", LinesPassed(fig, ev.extra, ev.legend_alpha))
            ELSE Chk(T, "wireplot shows curves of constant angles", WireplotOk(x, p, fig))
                 \cup Chk(T, "wireplot surface", WireSurfaceOk(x, p, fig)))

------------------------------------------------------------------------------
Fails ==
  LET op == ev.op
      noCrash == Chk(All, "no call may crash", ev.out # "crash")
      tainted == ev.o \in taint
  IN  IF op = "mkfile" THEN noCrash
      \* What changed an object although no call on it was made.
      ELSE IF op = "note" THEN noCrash \cup Chk({"C07", "C18"}, "only calls change an object", \A p \in DOMAIN ev.chg : ev.chg[p] = [a \in {} |-> 0])
      ELSE IF op = "cli" THEN CliFails
      ELSE IF op = "new" THEN NewFails \cup Frame(ev.o)
      ELSE IF ev.out = "crash" THEN noCrash
      ELSE Frame(ev.o) \cup
           (IF "want" \in DOMAIN ev THEN Chk(All, "the outcome is that of the generated behaviour", ev.out = ev.want) ELSE {}) \cup
           (CASE op = "set"   -> SetFails
              [] op = "sets"  -> SetsFails
              [] op = "clone" -> CloneFails
              [] op = "load"  -> IF tainted THEN noCrash \cup LoadFails ELSE LoadFails
              [] op = "wout"  -> WoutFails
              [] op = "run"   -> IF tainted THEN {} ELSE RunFails
              [] op = "write" -> IF tainted THEN {} ELSE WriteFails
              [] op = "readb" -> ReadFails
              [] op = "plot"  -> IF tainted THEN {} ELSE PlotFails)

Loads == {"load", "wout", "readb"}

Init == /\ l \in Starts /\ fresh = TRUE
        /\ objs = [o \in {} |-> 0] /\ files = [f \in {} |-> 0]
        /\ taint = {} /\ mem = <<>> /\ src = [f \in {} |-> 0]

Next == /\ l <= Len(Trace) /\ (fresh \/ ~Trace[l].first)
        /\ LET bad == Fails IN
           IF bad = {} THEN TRUE
           ELSE PrintT("REJECT " \o ToJson([scn |-> ev.scn, line |-> l, op |-> ev.op, out |-> ev.out, bad |-> bad]))
        /\ objs' = Objs2 /\ files' = Files2
        /\ l' = l + 1 /\ fresh' = FALSE
        /\ taint' = IF ev.op \in Loads THEN IF ev.out = "ok" THEN taint \ {ev.o} ELSE taint \cup {ev.o}
                    ELSE IF ev.op \in {"new", "clone"} THEN taint \ {ev.o} ELSE taint
        /\ mem' = IF ev.op = "run" THEN RunMem ELSE mem
        /\ src' = IF ev.op = "write" /\ ev.out = "ok" /\ ev.o \notin taint THEN (ev.f :> objs[ev.o]) @@ src
                  ELSE IF ev.op = "mkfile" THEN [f \in DOMAIN src \ DOMAIN ev.fchg |-> src[f]]
                  ELSE src

Spec == Init /\ [][Next]_tvars

\* Every event was consumed.
Accepted == PrintT(<<"CONSUMED", TLCGet("stats").distinct - Cardinality(Starts), Len(Trace)>>)
=============================================================================
