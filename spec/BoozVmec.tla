------------------------------ MODULE BoozVmec ------------------------------
(***************************************************************************)
(* Loading VMEC data: which arguments are consistent, and the radial       *)
(* conversion from VMEC's full and half grids to the input half grid.      *)
(*                                                                         *)
(* `pre' is the object (for nfp, asym, mode tables and resolution, which   *)
(* the caller sets first), `a' the record of arguments: ns, iotas, the     *)
(* twelve matrices, and the flux profiles phips, chi, pres, phi.           *)
(***************************************************************************)
EXTENDS BoozReal

\* The consistency conditions, as a set of names of the broken ones.
Broken(pre, a) ==
  LET Bad(name, ok) == IF ok THEN {} ELSE {name}
      NonNyq == <<"rmnc0", "zmns0", "lmns0">>   Nyq == <<"bmnc0", "bsubumnc0", "bsubvmnc0">>
      NonNyqA == <<"rmns0", "zmnc0", "lmnc0">>  NyqA == <<"bmns0", "bsubumns0", "bsubvmns0">>
      Mats(names, rows) == UNION {Bad(names[k], a[names[k]].r = rows /\ a[names[k]].c = a.ns) : k \in 1..Len(names)}
      Modes(m, n, mx, mmax, nt) ==
        Bad("modes", /\ pre.nfp >= 1
                     /\ Len(m) = mx /\ Len(n) = mx /\ mx >= 1
                     /\ m[1] = 0 /\ n[1] = 0 /\ n[mx] = pre.nfp * nt
                     /\ \A k \in 1..mx : /\ m[k] >= 0 /\ m[k] <= mmax
                                         /\ n[k] % pre.nfp = 0
                                         /\ n[k] <= pre.nfp * nt /\ -(n[k]) <= pre.nfp * nt)
  IN  Bad("ns", a.ns >= 2) \cup Bad("nfp", pre.nfp >= 1)
      \cup Bad("iotas", LenR(a.iotas) = a.ns)
      \cup (IF LenR(a.phips) = 0 THEN {}
            ELSE UNION {Bad(f, LenR(a[f]) = a.ns) : f \in {"phips", "chi", "pres", "phi"}})
      \cup Modes(pre.xm, pre.xn, pre.mnmax, pre.mpol - 1, pre.ntor)
      \cup Modes(pre.xm_nyq, pre.xn_nyq, pre.mnmax_nyq, pre.mpol_nyq, pre.ntor_nyq)
      \cup Mats(NonNyq, pre.mnmax) \cup Mats(Nyq, pre.mnmax_nyq)
      \cup (IF pre.asym THEN Mats(NonNyqA, pre.mnmax) \cup Mats(NyqA, pre.mnmax_nyq) ELSE {})

Consistent(pre, a) == Broken(pre, a) = {}

------------------------------------------------------------------------------
\* Half-grid quantity: drop the first column / entry.
DropFirst(M) == Mat(M.r, M.c - 1, Slice(M.d, M.r + 1, M.r * (M.c - 1)))

\* s on full grid point j and half grid point j (0-based).
SFull(ns, j) == Quo(FromInt(j), FromInt(ns - 1))
SHalf(ns, j) == Quo(Add(FromInt(j), Half), FromInt(ns - 1))

\* Full-grid amplitudes x (one mode, all radii) moved to the half grid.
\* Even m: mean of the neighbours. Odd m: x/sqrt(s) is interpolated linearly
\* in s; at the axis that ratio is 0 for m > 1, and for m = 1 it is
\* extrapolated linearly from the next two points (if there are two).
ToHalf(m, ns, x) ==
  LET X(j) == At(x, j + 1)
      ratio1 == Quo(X(1), SqrtR(SFull(ns, 1)))
      axis == IF m # 1 THEN Zero
              ELSE IF ns = 2 THEN ratio1
              ELSE Sub(Mul(FromInt(2), ratio1), Quo(X(2), SqrtR(SFull(ns, 2))))
      Ratio(j) == IF j = 0 THEN axis ELSE Quo(X(j), SqrtR(SFull(ns, j)))
  IN  CatAll([k \in 1..(ns-1) |->
        IF m % 2 = 0 THEN Mul(Half, Add(X(k-1), X(k)))
        ELSE Mul(Mul(Half, Add(Ratio(k-1), Ratio(k))), SqrtR(SHalf(ns, k-1)))])

\* All modes of a full-grid matrix. Rows are modes; the result is by columns.
HalfMat(ms, ns, M) ==
  LET rows == [k \in 1..Len(ms) |-> ToHalf(ms[k], ns, Row(M, k-1))]
  IN  MatOfCols(Len(ms), [j \in 1..(ns-1) |-> CatAll([k \in 1..Len(ms) |-> At(rows[k], j)])])

\* The attributes set by a successful load.
Loaded(pre, a) ==
  LET n == a.ns - 1
      flux == LenR(a.phips) # 0
      base ==
       [ns_in |-> n,
        iota |-> Slice(a.iotas, 2, n),
        s_in |-> CatAll([j \in 1..n |-> SHalf(a.ns, j-1)]),
        rmnc |-> HalfMat(pre.xm, a.ns, a.rmnc0), zmns |-> HalfMat(pre.xm, a.ns, a.zmns0),
        lmns |-> DropFirst(a.lmns0),
        bmnc |-> DropFirst(a.bmnc0), bsubumnc |-> DropFirst(a.bsubumnc0), bsubvmnc |-> DropFirst(a.bsubvmnc0),
        phip |-> IF flux THEN Quo(a.phips, Neg(TwoPi)) ELSE <<>>,
        chi |-> IF flux THEN a.chi ELSE <<>>,
        pres |-> IF flux THEN a.pres ELSE <<>>,
        phi |-> IF flux THEN a.phi ELSE <<>>,
        toroidal_flux |-> IF flux THEN At(a.phi, a.ns) ELSE Zero,
        compute_surfs |-> [j \in 1..n |-> j - 1],
        mboz |-> 6 * pre.mpol,
        nboz |-> IF pre.ntor = 0 THEN 0 ELSE 2 * pre.ntor - 1]
      asy ==
       [rmns |-> HalfMat(pre.xm, a.ns, a.rmns0), zmnc |-> HalfMat(pre.xm, a.ns, a.zmnc0),
        lmnc |-> DropFirst(a.lmnc0),
        bmns |-> DropFirst(a.bmns0), bsubumns |-> DropFirst(a.bsubumns0), bsubvmns |-> DropFirst(a.bsubvmns0)]
  IN  IF pre.asym THEN base @@ asy ELSE base
=============================================================================
