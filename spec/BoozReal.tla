------------------------------ MODULE BoozReal ------------------------------
(***************************************************************************)
(* IEEE double precision arithmetic for TLC.                               *)
(*                                                                         *)
(* A vector of n reals is the sequence <<hi1, lo1, ..., hin, lon>> of the  *)
(* 32-bit halves of its IEEE 754 representation, so that vectors are plain *)
(* TLA+ values: `=' on vectors is bit equality.  A scalar is a vector of   *)
(* length 1 and combines with a vector of any length.                      *)
(*                                                                         *)
(* The scalar primitives below are evaluated by java/boozspec/Real.java    *)
(* (TLC operator overrides).  Every vector operator is *defined* here in   *)
(* TLA+ from the scalar ones; TLC uses a Java override for it too, only to *)
(* be fast.  RealSelfTest.tla checks that the overrides agree with these   *)
(* definitions.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

NeedsOverride == Assert(FALSE, "run TLC with boozspec.Overrides")

------------------------------------------------------------------------------
\* Scalar primitives.
FromInt(n)    == NeedsOverride    \* the real n
ToInts(a)     == NeedsOverride    \* the integer parts, a sequence of integers
Dec(str)      == NeedsOverride    \* decimal literal, e.g. Dec("1e-10")
Add(a, b)     == NeedsOverride    \* elementwise, scalars broadcast
Sub(a, b)     == NeedsOverride
Mul(a, b)     == NeedsOverride
Quo(a, b)     == NeedsOverride
Larger(a, b)  == NeedsOverride    \* maximum
Neg(a)        == NeedsOverride
AbsR(a)       == NeedsOverride
SqrtR(a)      == NeedsOverride
SinR(a)       == NeedsOverride
CosR(a)       == NeedsOverride
LtR(a, b)     == NeedsOverride    \* scalars only
LeR(a, b)     == NeedsOverride
Finite(a)     == NeedsOverride    \* no NaN and no infinity among the elements
Show(a)       == NeedsOverride    \* readable text, for diagnostics

------------------------------------------------------------------------------
\* Vectors.
LenR(a)         == Len(a) \div 2
At(a, k)        == <<a[2*k-1], a[2*k]>>                       \* 1-based
Slice(a, k, n)  == SubSeq(a, 2*k-1, 2*(k+n-1))                \* n elements from the k-th
CatAll(parts)   == FlattenSeq(parts)
Pick(a, idx)    == [j \in 1..2*Len(idx) |->
                      LET k == idx[(j+1) \div 2] IN IF j % 2 = 1 THEN a[2*k-1] ELSE a[2*k]]
Zero            == FromInt(0)
One             == FromInt(1)
FromInts(s)     == CatAll([k \in 1..Len(s) |-> FromInt(s[k])])
Fill(n, x)      == CatAll([k \in 1..n |-> x])
Count(n)        == CatAll([k \in 1..n |-> FromInt(k-1)])      \* 0, 1, ..., n-1

RECURSIVE SumR(_)
SumR(a) == IF LenR(a) = 0 THEN Zero
           ELSE Add(SumR(Slice(a, 1, LenR(a) - 1)), At(a, LenR(a)))
Dot(a, b) == SumR(Mul(a, b))
RECURSIVE MaxAbs(_)
MaxAbs(a) == IF LenR(a) = 0 THEN Zero
             ELSE Larger(MaxAbs(Slice(a, 1, LenR(a) - 1)), AbsR(At(a, LenR(a))))
MaxR(a) == NeedsOverride
Close(a, b, tol) == /\ LenR(a) = LenR(b)
                    /\ \A k \in 1..LenR(a) : LeR(AbsR(Sub(At(a, k), At(b, k))), tol)

\* Equality of values: 0 and -0 are the same number (`=' is bit equality).
SameR(a, b) == /\ LenR(a) = LenR(b)
               /\ \A k \in 1..LenR(a) : \/ At(a, k) = At(b, k)
                                         \/ LeR(AbsR(Sub(At(a, k), At(b, k))), Zero)
IsZero(a) == LeR(MaxAbs(a), Zero)

Pi    == Dec("3.141592653589793")
TwoPi == Mul(FromInt(2), Pi)
Half  == Dec("0.5")

------------------------------------------------------------------------------
\* Fourier series over modes (ms[k], ns[k]) with cosine amplitudes c and sine
\* amplitudes s, at the points (th[j], ze[j]):
\*   SUM_k c_k cos(m_k th - n_k ze) + s_k sin(m_k th - n_k ze)
Angle(m, n, th, ze) == Sub(Mul(FromInt(m), th), Mul(FromInt(n), ze))

RECURSIVE SeriesUpTo(_, _, _, _, _, _, _)
SeriesUpTo(k, ms, ns, c, s, th, ze) ==
  IF k = 0 THEN Fill(LenR(th), Zero)
  ELSE LET a == Angle(ms[k], ns[k], th, ze)
       IN  Add(SeriesUpTo(k - 1, ms, ns, c, s, th, ze),
               Add(Mul(At(c, k), CosR(a)), Mul(At(s, k), SinR(a))))
Series(ms, ns, c, s, th, ze) == SeriesUpTo(Len(ms), ms, ns, c, s, th, ze)

\* Projections SUM_j f_j cos(m_k th_j - n_k ze_j), for all modes k.
ProjectC(f, ms, ns, th, ze) ==
  CatAll([k \in 1..Len(ms) |-> Dot(f, CosR(Angle(ms[k], ns[k], th, ze)))])
ProjectS(f, ms, ns, th, ze) ==
  CatAll([k \in 1..Len(ms) |-> Dot(f, SinR(Angle(ms[k], ns[k], th, ze)))])

------------------------------------------------------------------------------
\* Matrices: [r |-> rows, c |-> columns, d |-> entries by columns].
Mat(r, c, d)  == [r |-> r, c |-> c, d |-> d]
EmptyMat      == Mat(0, 0, <<>>)
Col(M, j)     == Slice(M.d, j * M.r + 1, M.r)                 \* j is 0-based
Row(M, k)     == Pick(M.d, [j \in 1..M.c |-> (j-1) * M.r + k + 1])  \* k is 0-based
MatOfCols(r, cols) == Mat(r, Len(cols), CatAll(cols))
ZeroMat(r, c) == Mat(r, c, Fill(r * c, Zero))
SameM(M, N) == M.r = N.r /\ M.c = N.c /\ SameR(M.d, N.d)
IsMat(M, r, c) == M.r = r /\ M.c = c /\ LenR(M.d) = r * c
=============================================================================
