---------------------------- MODULE RealSelfTest ----------------------------
(***************************************************************************)
(* Agreement of the Java overrides of the vector operators of BoozReal     *)
(* with their TLA+ definitions (repeated here under other names, so that   *)
(* TLC evaluates them from the scalar primitives), and sanity of the       *)
(* scalar primitives.                                                      *)
(***************************************************************************)
EXTENDS BoozReal

VARIABLE k
Init == k = 0
Next == k < 30 /\ k' = k + 1
Spec == Init /\ [][Next]_k

LenD(a)         == Len(a) \div 2
AtD(a, j)       == <<a[2*j-1], a[2*j]>>
SliceD(a, j, n) == SubSeq(a, 2*j-1, 2*(j+n-1))
CatD(parts)     == FlattenSeq(parts)
PickD(a, idx)   == CatD([j \in 1..Len(idx) |-> AtD(a, idx[j])])
FromIntsD(s)    == CatD([j \in 1..Len(s) |-> FromInt(s[j])])
FillD(n, x)     == CatD([j \in 1..n |-> x])
CountD(n)       == CatD([j \in 1..n |-> FromInt(j-1)])
RECURSIVE SumD(_)
SumD(a) == IF LenD(a) = 0 THEN Zero ELSE Add(SumD(SliceD(a, 1, LenD(a) - 1)), AtD(a, LenD(a)))
RECURSIVE MaxAbsD(_)
MaxAbsD(a) == IF LenD(a) = 0 THEN Zero
              ELSE Larger(MaxAbsD(SliceD(a, 1, LenD(a) - 1)), AbsR(AtD(a, LenD(a))))
CloseD(a, b, tol) == LenD(a) = LenD(b) /\ \A j \in 1..LenD(a) : LeR(AbsR(Sub(AtD(a, j), AtD(b, j))), tol)
ProjectCD(f, ms, ns, th, ze) ==
  CatD([j \in 1..Len(ms) |-> SumD(Mul(f, CosR(Angle(ms[j], ns[j], th, ze))))])
ProjectSD(f, ms, ns, th, ze) ==
  CatD([j \in 1..Len(ms) |-> SumD(Mul(f, SinR(Angle(ms[j], ns[j], th, ze))))])

\* A vector of length n with pseudo-random entries.
Vec(n, salt) == SinR(Mul(Add(Count(n), Dec("0.37")), Add(FromInt(k + salt), Dec("1.618"))))
Tiny == Dec("1e-12")

ElementwiseOp(op(_, _)) ==
  LET a == Vec(5, 1) b == Vec(5, 2) s == Vec(1, 3)
  IN  /\ op(a, b) = CatD([j \in 1..5 |-> op(AtD(a, j), AtD(b, j))])
      /\ op(a, s) = CatD([j \in 1..5 |-> op(AtD(a, j), s)])
      /\ op(s, b) = CatD([j \in 1..5 |-> op(s, AtD(b, j))])
ElementwiseFn(f(_)) == LET a == Vec(5, 1) IN f(a) = CatD([j \in 1..5 |-> f(AtD(a, j))])

VectorOps ==
  LET a == Vec(7, 1) b == Vec(7, 2) IN
  /\ LenR(a) = LenD(a) /\ LenR(<<>>) = 0
  /\ \A j \in 1..7 : At(a, j) = AtD(a, j)
  /\ \A j \in 1..7 : \A n \in 0..(8 - j) : Slice(a, j, n) = SliceD(a, j, n)
  /\ CatAll(<<a, <<>>, b>>) = a \o b
  /\ Pick(a, <<3, 1, 3>>) = PickD(a, <<3, 1, 3>>)
  /\ FromInts(<<3, 0, -(k)>>) = FromIntsD(<<3, 0, -(k)>>)
  /\ Fill(k, One) = FillD(k, One) /\ Count(k) = CountD(k)
  /\ SumR(a) = SumD(a) /\ Dot(a, b) = SumD(Mul(a, b)) /\ MaxAbs(a) = MaxAbsD(a)
  /\ \A t \in {Dec("0"), Dec("0.5"), Dec("3")} : Close(a, b, t) = CloseD(a, b, t)
  /\ ~Close(a, Slice(a, 1, 6), One)
  /\ SameR(a, a) /\ ~SameR(a, b) /\ ~SameR(a, Slice(a, 1, 6)) /\ SameR(Neg(Fill(3, Zero)), Fill(3, Zero))
  /\ SameR(Quo(Zero, Zero), Quo(Zero, Zero)) /\ ~SameR(Quo(Zero, Zero), Zero)
  /\ IsZero(Fill(3, Zero)) /\ IsZero(<<>>) /\ ~IsZero(a) /\ IsZero(Neg(Zero)) /\ ~IsZero(Quo(Zero, Zero))
  /\ ElementwiseOp(Add) /\ ElementwiseOp(Sub) /\ ElementwiseOp(Mul) /\ ElementwiseOp(Quo) /\ ElementwiseOp(Larger)
  /\ ElementwiseFn(Neg) /\ ElementwiseFn(AbsR) /\ ElementwiseFn(SinR) /\ ElementwiseFn(CosR)
  /\ LET ms == <<0, 1, 2, 3>> ns == <<0, -2, 4, k>> th == Vec(6, 1) ze == Vec(6, 2)
         c == Vec(4, 3) s == Vec(4, 4)
     IN  /\ Close(Series(ms, ns, c, s, th, ze), SeriesUpTo(4, ms, ns, c, s, th, ze), Tiny)
         /\ Close(ProjectC(th, ms, ns, th, ze), ProjectCD(th, ms, ns, th, ze), Tiny)
         /\ Close(ProjectS(th, ms, ns, th, ze), ProjectSD(th, ms, ns, th, ze), Tiny)

ScalarOps ==
  LET x == Vec(1, 5) n == FromInt(k) IN
  /\ Add(n, One) = FromInt(k + 1) /\ Sub(n, One) = FromInt(k - 1) /\ (Neg(n) = Sub(Zero, n) \/ k = 0)
  /\ Mul(n, n) = FromInt(k * k) /\ (k > 0 => Quo(FromInt(6 * k), n) = FromInt(6))
  /\ (SqrtR(FromInt(k * k)) = n) /\ AbsR(FromInt(-(k))) = n
  /\ Close(Add(Mul(SinR(x), SinR(x)), Mul(CosR(x), CosR(x))), One, Tiny)
  /\ Close(SinR(Mul(n, Pi)), Zero, Dec("1e-13")) /\ Close(CosR(Mul(n, TwoPi)), One, Tiny)
  /\ LtR(n, FromInt(k + 1)) /\ ~LtR(n, n) /\ LeR(n, n) /\ ~LeR(One, Zero)
  /\ Larger(n, One) = (IF k >= 1 THEN n ELSE One)
  /\ Finite(x) /\ ~Finite(Quo(One, Zero)) /\ ~Finite(Quo(Zero, Zero))
  /\ ~Close(Quo(Zero, Zero), Zero, One)
  /\ ToInts(FromInts(<<k, -(k), 7>>)) = <<k, -(k), 7>> /\ ToInts(<<>>) = <<>>
  /\ Dec("0.5") = Quo(One, FromInt(2))
=============================================================================
