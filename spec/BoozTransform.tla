--------------------------- MODULE BoozTransform ---------------------------
(***************************************************************************)
(* The transformation to Boozer coordinates of one flux surface, written   *)
(* from the theory section of the documentation (equations (3), (5),       *)
(* (10)-(12)), not from the code: full-period quadrature, direct           *)
(* evaluation of every trigonometric function.                             *)
(*                                                                         *)
(* An input is a record with the attribute names of the Python class.      *)
(***************************************************************************)
EXTENDS BoozReal

\* ----- Output modes: m = 0..mboz-1; n = 0..nboz for m = 0, else -nboz..nboz.
Modes(mboz, nboz) ==
  [k \in 1..(nboz+1) |-> <<0, k-1>>] \o
  [k \in 1..((mboz-1)*(2*nboz+1)) |->
      <<1 + (k-1) \div (2*nboz+1), ((k-1) % (2*nboz+1)) - nboz>>]
ModeM(mboz, nboz)      == LET q == Modes(mboz, nboz) IN [k \in 1..Len(q) |-> q[k][1]]
ModeN(mboz, nboz, nfp) == LET q == Modes(mboz, nboz) IN [k \in 1..Len(q) |-> nfp * q[k][2]]

\* ----- The uniform grid of the original angles, one field period.
NTheta(mboz) == 2 * (2 * mboz + 1)
NZeta(nboz)  == IF nboz = 0 THEN 1 ELSE 2 * (2 * nboz + 1)
GridTheta(nt, nz) == Mul(FromInts([k \in 1..(nt*nz) |-> (k-1) \div nz]), Quo(TwoPi, FromInt(nt)))
GridZeta(nt, nz, nfp) == Mul(FromInts([k \in 1..(nt*nz) |-> (k-1) % nz]), Quo(TwoPi, FromInt(nz * nfp)))

\* ----- Amplitudes on surface j (0-based). Asymmetric amplitudes count only
\* if the configuration is asymmetric.
\* (The arrays may have more rows than there are modes.)
Amp(M, n, j)        == Slice(Col(M, j), 1, n)
Asy(in, M, like, j) == IF in.asym THEN Amp(M, like, j) ELSE Fill(like, Zero)

\* Amplitude i (1-based) of the (0,0) mode of the covariant components.
GOf(in, j) == At(Col(in.bsubvmnc, j), 1)
IOf(in, j) == At(Col(in.bsubumnc, j), 1)

\* ----- Eq (9): amplitudes of w from those of B_theta and B_zeta.
\* B_theta = dw/dtheta + I, B_zeta = dw/dzeta + G, so for m # 0 the amplitudes
\* are those of B_theta integrated in theta, for m = 0 those of B_zeta
\* integrated in zeta.
WSin(in, j) ==
  LET bu == Col(in.bsubumnc, j)  bv == Col(in.bsubvmnc, j) IN
  CatAll([k \in 1..Len(in.xm_nyq) |->
     IF in.xm_nyq[k] # 0 THEN Quo(At(bu, k), FromInt(in.xm_nyq[k]))
     ELSE IF in.xn_nyq[k] # 0 THEN Quo(At(bv, k), FromInt(-(in.xn_nyq[k])))
     ELSE Zero])
WCos(in, j) ==
  IF ~in.asym THEN Fill(Len(in.xm_nyq), Zero) ELSE
  LET bu == Col(in.bsubumns, j)  bv == Col(in.bsubvmns, j) IN
  CatAll([k \in 1..Len(in.xm_nyq) |->
     IF in.xm_nyq[k] # 0 THEN Quo(At(bu, k), FromInt(-(in.xm_nyq[k])))
     ELSE IF in.xn_nyq[k] # 0 THEN Quo(At(bv, k), FromInt(in.xn_nyq[k]))
     ELSE Zero])

\* ----- All quantities at the points (th, ze) of surface j.
PointValues(in, j, th, ze) ==
  LET M   == FromInts(in.xm)       N  == FromInts(in.xn)
      Mq  == FromInts(in.xm_nyq)   Nq == FromInts(in.xn_nyq)
      lc  == Asy(in, in.lmnc, Len(in.xm), j)   ls == Amp(in.lmns, Len(in.xm), j)
      ws  == WSin(in, j)                       wc == WCos(in, j)
      S(c, s)  == Series(in.xm, in.xn, c, s, th, ze)
      Sq(c, s) == Series(in.xm_nyq, in.xn_nyq, c, s, th, ze)
      iota == At(in.iota, j + 1)
      G == GOf(in, j)   I == IOf(in, j)   D == Add(G, Mul(iota, I))
      lam  == S(lc, ls)
      lamt == S(Mul(M, ls), Neg(Mul(M, lc)))
      lamz == S(Neg(Mul(N, ls)), Mul(N, lc))
      w    == Sq(wc, ws)
      wt   == Sq(Mul(Mq, ws), Neg(Mul(Mq, wc)))
      wz   == Sq(Neg(Mul(Nq, ws)), Mul(Nq, wc))
      nu   == Quo(Sub(w, Mul(I, lam)), D)                   \* eq (10)
      nut  == Quo(Sub(wt, Mul(I, lamt)), D)
      nuz  == Quo(Sub(wz, Mul(I, lamz)), D)
      B    == Sq(Amp(in.bmnc, Len(in.xm_nyq), j), Asy(in, in.bmns, Len(in.xm_nyq), j))
  IN  [B |-> B,
       R |-> S(Amp(in.rmnc, Len(in.xm), j), Asy(in, in.rmns, Len(in.xm), j)),
       Z |-> S(Asy(in, in.zmnc, Len(in.xm), j), Amp(in.zmns, Len(in.xm), j)),
       nu |-> nu,
       jac |-> Quo(D, Mul(B, B)),                           \* (G + iota I)/B^2
       thetaB |-> Add(Add(th, lam), Mul(iota, nu)),         \* eq (3)
       zetaB  |-> Add(ze, nu),
       \* eq (12): d(thetaB, zetaB)/d(theta, zeta)
       dB |-> Add(Mul(Add(One, lamt), Add(One, nuz)),
                  Mul(Sub(iota, lamz), nut))]

\* Magnitude of the terms that are summed: rounding errors are relative to it.
ScaleOf(P) ==
  LET scale(f) == Mul(MaxAbs(P.dB), MaxAbs(f)) IN
  [B |-> scale(P.B), R |-> scale(P.R), Z |-> scale(P.Z),
   nu |-> Add(scale(P.nu), MaxAbs(P.dB)), g |-> scale(P.jac)]
SurfaceScale(in, j) ==
  LET nt == NTheta(in.mboz)   nz == NZeta(in.nboz)
  IN  ScaleOf(PointValues(in, j, GridTheta(nt, nz), GridZeta(nt, nz, in.nfp)))

\* ----- Eq (11): the output amplitudes of surface j.
SurfaceSpectra(in, j) ==
  LET nt == NTheta(in.mboz)   nz == NZeta(in.nboz)
      P  == PointValues(in, j, GridTheta(nt, nz), GridZeta(nt, nz, in.nfp))
      ms == ModeM(in.mboz, in.nboz)
      ns == ModeN(in.mboz, in.nboz, in.nfp)
      \* 1/(number of points), doubled except for the (0,0) mode
      fac == CatAll([k \in 1..Len(ms) |->
               Quo(FromInt(IF ms[k] = 0 /\ ns[k] = 0 THEN 1 ELSE 2), FromInt(nt * nz))])
      C(f) == Mul(fac, ProjectC(Mul(f, P.dB), ms, ns, P.thetaB, P.zetaB))
      S(f) == Mul(fac, ProjectS(Mul(f, P.dB), ms, ns, P.thetaB, P.zetaB))
  IN  [bmnc |-> C(P.B),  rmnc |-> C(P.R),  zmns |-> S(P.Z),  numns |-> S(P.nu),  gmnc |-> C(P.jac),
       bmns |-> S(P.B),  rmns |-> S(P.R),  zmnc |-> C(P.Z),  numnc |-> C(P.nu),  gmns |-> S(P.jac),
       scale |-> ScaleOf(P),
       G |-> GOf(in, j), I |-> IOf(in, j)]
=============================================================================
