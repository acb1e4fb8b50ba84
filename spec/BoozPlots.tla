------------------------------- MODULE BoozPlots -------------------------------
(***************************************************************************)
(* What the plotting functions draw, as data: for an object x (a record of *)
(* attributes) and options p (a record with the names of the arguments).   *)
(*                                                                         *)
(* A figure is observed as                                                 *)
(*   surfplot: [X, Y, V]: the mesh and the contoured values, as matrices   *)
(*   symplot, modeplot: a set of lines [x, y, col, label] and the scales   *)
(*   wireplot: a set of curves [x, y, z, col, name] and a surface          *)
(* Colours are only compared with each other.                              *)
(***************************************************************************)
EXTENDS BoozReal, FiniteSets

Opt(p, name, default) == IF name \in DOMAIN p THEN p[name] ELSE default
Normal(v) == Add(v, Zero)                                       \* -0 becomes 0
\* n points from 0 to hi.
Spaced(hi, n) == IF n = 1 THEN Zero ELSE Mul(Count(n), Quo(hi, FromInt(n - 1)))
Column0(x, M, j) == IF M.r = 0 THEN Fill(Len(x.xm_b), Zero) ELSE Col(M, j)
Total(v) == IF LenR(v) = 0 THEN Zero ELSE Dot(AbsR(v), Fill(LenR(v), One))
IndexOfMax(v) == CHOOSE k \in 1..LenR(v) : /\ \A i \in 1..LenR(v) : LeR(At(v, i), At(v, k))
                                           /\ \A i \in 1..(k-1) : LtR(At(v, i), At(v, k))
Outermost(x) == IndexOfMax(x.s_b) - 1                           \* 0-based

------------------------------------------------------------------------------
\* surfplot: |B| on a theta by phi mesh over one field period.
SurfNTheta(p) == Opt(p, "ntheta", 50)
SurfNPhi(p)   == Opt(p, "nphi", 90)
\* Mesh points, by columns (theta runs fastest).
MeshTheta(nt, np, hi) == LET t == Spaced(hi, nt) IN CatAll([k \in 1..np |-> t])
MeshPhi(nt, np, hi)   == LET f == Spaced(hi, np) IN CatAll([k \in 1..np |-> Fill(nt, At(f, k))])
\* The surface asked for; negative numbers count from the end.
Chosen(x, p, default) ==
  IF "js" \notin DOMAIN p THEN default ELSE IF p.js < 0 THEN p.js + Len(x.compute_surfs) ELSE p.js
SurfplotOk(x, p, fig) ==
  LET nt == SurfNTheta(p)  np == SurfNPhi(p)  j == Chosen(x, p, 0)
      th == MeshTheta(nt, np, TwoPi)
      ph == MeshPhi(nt, np, Quo(TwoPi, FromInt(x.nfp)))
      c == Col(x.bmnc_b, j)   s == IF x.asym THEN Col(x.bmns_b, j) ELSE Fill(Len(x.xm_b), Zero)
      tol == Mul(Dec("1e-11"), Add(Total(c), Total(s)))
  IN  /\ fig.filled = Opt(p, "fill", TRUE)
      /\ fig.Y.r = nt /\ fig.Y.c = np /\ Close(fig.Y.d, th, Dec("1e-12"))
      /\ fig.X.r = nt /\ fig.X.c = np /\ Close(fig.X.d, ph, Dec("1e-12"))
      /\ fig.V.r = nt /\ fig.V.c = np /\ Close(fig.V.d, Series(x.xm_b, x.xn_b, c, s, th, ph), tol)
      /\ fig.ncontours \in {-1, Opt(p, "ncontours", 25)}        \* -1: levels were given instead
\* The labels, and s in the title (4 digits), if there is one.
SurfplotLabelsOk(x, p, fig) ==
  LET s == At(x.s_b, Chosen(x, p, 0) + 1) IN
  /\ fig.xaxis = "toroidal angle" /\ fig.yaxis = "poloidal angle"
  /\ LenR(fig.titled) = 0 \/ Close(fig.titled, s, Mul(Dec("6e-4"), AbsR(s)))
\* Further keyword arguments reach matplotlib.
PassedTo(extra, given) == \A k \in DOMAIN extra : k \in DOMAIN given /\ given[k] = extra[k]

------------------------------------------------------------------------------
\* symplot and modeplot: |B| amplitudes against s or sqrt(s).
Abs(n) == IF n >= 0 THEN n ELSE -n
AllModes(x) == 1..Len(x.xm_b)
Filtered(x, p, k) == "remove_helicity" \in DOMAIN p
                     /\ p.remove_helicity[2] * x.xm_b[k] = p.remove_helicity[1] * x.xn_b[k]
Amplitude(x, p, k) == IF Filtered(x, p, k) THEN Fill(Len(x.compute_surfs), Zero) ELSE Normal(Row(x.bmnc_b, k - 1))
ShownY(x, p, k) == IF Opt(p, "log", TRUE) THEN AbsR(Amplitude(x, p, k)) ELSE Amplitude(x, p, k)
ShownX(x, p) == IF Opt(p, "sqrts", FALSE) THEN SqrtR(x.s_b) ELSE x.s_b
Background(x, k) == x.xm_b[k] = 0 /\ x.xn_b[k] = 0

\* The line at 0.
IsReference(ln) == LenR(ln.x) = 2 /\ SameR(ln.x, CatAll(<<Zero, One>>)) /\ SameR(ln.y, CatAll(<<Zero, Zero>>))
ModeLines(fig) == {i \in 1..Len(fig.lines) : ~IsReference(fig.lines[i])}
XOk(x, p, fig) == \A i \in ModeLines(fig) : Close(fig.lines[i].x, ShownX(x, p), Dec("1e-14"))
ScaleOk(x, p, fig, ymin) ==
  /\ fig.log = Opt(p, "log", TRUE)
  /\ SameR(fig.xlim, CatAll(<<Zero, One>>))
  /\ (fig.log /\ LtR(Zero, ymin)) => Close(fig.ymin, ymin, Mul(Dec("1e-13"), ymin))

\* Every mode line is drawn with the further arguments; the legend lists the labels; the axis is named.
LinesPassed(fig, extra, alpha) == /\ \A i \in ModeLines(fig) : PassedTo(extra, fig.lines[i].extra)
                                  /\ alpha # "" => fig.legend_alpha = alpha
LegendOk(fig) == {fig.legend[i] : i \in 1..Len(fig.legend)} = {fig.lines[i].legend : i \in ModeLines(fig)} \ {""}
AxisOk(p, fig) == fig.xaxis = IF Opt(p, "sqrts", FALSE) THEN "sqrt(s)" ELSE "s"

\* --- symplot
SymModes(x, p) ==
  {k \in AllModes(x) : /\ Abs(x.xm_b[k]) <= Opt(p, "max_m", 20)
                       /\ Abs(x.xn_b[k]) <= Opt(p, "max_n", 20) * x.nfp
                       /\ Opt(p, "B0", TRUE) \/ ~Background(x, k)}
SymClass(x, p, k) ==
  LET m == x.xm_b[k]  n == x.xn_b[k] IN
  IF n = 0 THEN IF m = 0 THEN "background" ELSE "quasiaxisymmetric"
  ELSE IF m = 0 THEN "mirror"
  ELSE IF ~Opt(p, "helical_detail", FALSE) THEN "helical"
  ELSE IF n = x.nfp * m THEN "plus" ELSE IF n = -(x.nfp * m) THEN "minus" ELSE "other"
SymDrawn(x, p) == {[class |-> SymClass(x, p, k), y |-> ShownY(x, p, k)] : k \in SymModes(x, p)}
SymplotOk(x, p, fig) ==
  LET want == TLCEval(SymDrawn(x, p))
      got == TLCEval({[col |-> fig.lines[i].col, y |-> Normal(fig.lines[i].y)] : i \in ModeLines(fig)})
      classes == {w.class : w \in want}
      cols == {g.col : g \in got}
      YOf(c) == {w.y : w \in {w \in want : w.class = c}}
      YIn(col) == {g.y : g \in {g \in got : g.col = col}}
      labelled == {i \in ModeLines(fig) : fig.lines[i].label # ""}
  IN  /\ Cardinality(classes) = Cardinality(cols)
      \* each colour shows exactly the modes of one group
      /\ \A c \in classes : \E col \in cols : YOf(c) = YIn(col)
      /\ \A col \in cols : \E c \in classes : YOf(c) = YIn(col)
      \* each group has one label, on a line of its colour
      /\ Cardinality(labelled) = Cardinality(classes)
      /\ {fig.lines[i].label : i \in labelled} = classes
      /\ \A i \in labelled : fig.lines[i].label \in classes => YOf(fig.lines[i].label) = YIn(fig.lines[i].col)

\* --- modeplot
ModeCandidates(x, p) == {k \in AllModes(x) : Opt(p, "B0", TRUE) \/ ~Background(x, k)}
SizeAtEdge(x, p, k) == At(AbsR(Amplitude(x, p, k)), Outermost(x) + 1)
ModeplotOk(x, p, fig) ==
  LET cand == ModeCandidates(x, p)
      n == Opt(p, "nmodes", 10)
      lines == ModeLines(fig)
      Of(i) == {k \in cand : x.xm_b[k] = fig.lines[i].m /\ x.xn_b[k] = fig.lines[i].n}
      chosen == UNION {Of(i) : i \in lines}
      size == TLCEval([k \in cand |-> SizeAtEdge(x, p, k)])
  IN  /\ \A i \in lines : \E k \in Of(i) : Normal(fig.lines[i].y) = ShownY(x, p, k)
      /\ Cardinality(lines) = Cardinality(chosen)
      /\ Cardinality(chosen) = (IF Cardinality(cand) < n THEN Cardinality(cand) ELSE n)
      /\ \A k \in chosen : \A i \in cand \ chosen : LeR(size[i], size[k])

YMin(x, p, filtered) ==
  IF "ymin" \in DOMAIN p THEN p.ymin
  ELSE Mul(Dec("1e-4"), IF filtered THEN MaxR(CatAll([k \in 1..Len(x.xm_b) |-> Amplitude(x, p, k)])) ELSE MaxR(x.bmnc_b.d))

------------------------------------------------------------------------------
\* wireplot: curves of constant Boozer angles (and of constant original angles).
WireJs(x, p) == Chosen(x, p, Outermost(x))
\* Points of a curve: vectors [x, y, z] for given angle vectors.
Curve(R, Z, phi) == [x |-> Mul(R, CosR(phi)), y |-> Mul(R, SinR(phi)), z |-> Z]
BoozerCurve(x, j, th, ph) ==
  LET ms == x.xm_b  ns == x.xn_b
      R == Series(ms, ns, Col(x.rmnc_b, j), Column0(x, x.rmns_b, j), th, ph)
      Z == Series(ms, ns, Column0(x, x.zmnc_b, j), Col(x.zmns_b, j), th, ph)
      nu == Series(ms, ns, Column0(x, x.numnc_b, j), Col(x.numns_b, j), th, ph)
  IN  Curve(R, Z, Sub(ph, nu))
OriginalCurve(x, j, th, ph) ==
  LET i == x.compute_surfs[j + 1]
      zeros == Fill(x.mnmax, Zero)
      R == Series(x.xm, x.xn, Col(x.rmnc, i), IF x.asym THEN Col(x.rmns, i) ELSE zeros, th, ph)
      Z == Series(x.xm, x.xn, IF x.asym THEN Col(x.zmnc, i) ELSE zeros, Col(x.zmns, i), th, ph)
  IN  Curve(R, Z, ph)
\* The curves: theta constant for every refine-th grid point, then phi constant.
WireCurves(p, C(_, _)) ==
  LET nt == Opt(p, "ntheta", 30)  np == Opt(p, "nphi", 80)  r == Opt(p, "refine", 3)
      th == Spaced(TwoPi, nt * r + 1)   ph == Spaced(TwoPi, np * r + 1)
  IN  {C(Fill(np * r + 1, At(th, i * r + 1)), ph) : i \in 0..nt}
      \cup {C(th, Fill(nt * r + 1, At(ph, i * r + 1))) : i \in 0..np}
SamePoints(c, d, tol) == Close(c.x, d.x, tol) /\ Close(c.y, d.y, tol) /\ Close(c.z, d.z, tol)
WireSize(x, j) == LET t(M) == Total(Column0(x, M, j)) IN Add(Add(t(x.rmnc_b), t(x.rmns_b)), Add(t(x.zmns_b), t(x.zmnc_b)))
\* Both sets show the same curves.
SameCurves(want, got, tol) == /\ \A c \in want : \E d \in got : SamePoints(c, d, tol)
                              /\ \A d \in got : \E c \in want : SamePoints(c, d, tol)
WireplotOk(x, p, fig) ==
  LET j == WireJs(x, p)
      tol == Mul(Dec("1e-10"), Add(One, WireSize(x, j)))
      named(k) == {fig.curves[i].col : i \in {i \in 1..Len(fig.curves) : fig.curves[i].name = k}}
      InCols(S) == {fig.curves[i] : i \in {i \in 1..Len(fig.curves) : fig.curves[i].col \in S}}
      orig == Opt(p, "orig", TRUE)
      kinds == {"boozer"} \cup (IF orig THEN {"original"} ELSE {})
  IN  /\ {fig.curves[i].name : i \in 1..Len(fig.curves)} \ {""} = kinds
      /\ \A k \in kinds : Cardinality(named(k)) = 1
      /\ named("boozer") \cap named("original") = {}
      /\ {fig.curves[i].col : i \in 1..Len(fig.curves)} = named("boozer") \cup named("original")
      /\ SameCurves(WireCurves(p, LAMBDA th, ph : BoozerCurve(x, j, th, ph)), InCols(named("boozer")), tol)
      /\ orig => SameCurves(WireCurves(p, LAMBDA th, ph : OriginalCurve(x, j, th, ph)), InCols(named("original")), tol)
      /\ Len(fig.surfs) = (IF Opt(p, "surf", TRUE) THEN 1 ELSE 0)
\* The solid surface lies just inside the curves: within 0.002 of the flux surface.
WireSurfaceOk(x, p, fig) ==
  (Opt(p, "surf", TRUE) /\ Len(fig.surfs) = 1) =>
    LET j == WireJs(x, p)
        nt == Opt(p, "ntheta", 30) * Opt(p, "refine", 3) + 1  np == Opt(p, "nphi", 80) * Opt(p, "refine", 3) + 1
        th == MeshTheta(nt, np, TwoPi)   ph == MeshPhi(nt, np, TwoPi)
        c == BoozerCurve(x, j, th, ph)
        s == fig.surfs[1]
    IN  /\ \A v \in {"x", "y", "z"} : s[v].r = nt /\ s[v].c = np
        /\ (Finite(s.x.d) /\ Finite(s.y.d) /\ Finite(s.z.d)) => SamePoints(c, [x |-> s.x.d, y |-> s.y.d, z |-> s.z.d], Dec("0.0025"))
=============================================================================
