-------------------------------- MODULE BoozCli --------------------------------
(***************************************************************************)
(* The input file of the command line drivers, as a sequence of character  *)
(* codes, and what is read from it.                                        *)
(*                                                                         *)
(* Two definitions are given: Parse, declarative, and the automaton Scan   *)
(* that consumes one character per step.  GenCli.tla checks exhaustively   *)
(* that they agree.  Both follow the rules of C++ stream extraction: white *)
(* space is skipped before each item; an integer is an optional sign and   *)
(* the longest sequence of digits, and must fit in 32 bits; a word ends at *)
(* white space.  mboz, nboz and the extension are required; then integers  *)
(* are read until there is none.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Space == {9, 10, 11, 12, 13, 32}
Digits == 48..57
Minus == 45
Plus == 43

------------------------------------------------------------------------------
\* Declarative definition.
Skip(t, p) == CHOOSE q \in p..(Len(t)+1) : /\ \A i \in p..(q-1) : t[i] \in Space
                                           /\ q = Len(t) + 1 \/ t[q] \notin Space
\* End of the longest run of characters of S from p.
RunEnd(t, p, S) == CHOOSE q \in p..(Len(t)+1) : /\ \A i \in p..(q-1) : t[i] \in S
                                                /\ q = Len(t) + 1 \/ t[q] \notin S
\* Decimal digits (most significant first, no leading zero) as a number; the
\* comparison with the largest value is done on the digits.
StripZeros(d) == LET n == Cardinality({i \in 1..Len(d) : \A j \in 1..i : d[j] = 0}) IN SubSeq(d, n + 1, Len(d))
LeDigits(d, e) == \/ Len(d) < Len(e)
                  \/ Len(d) = Len(e) /\ (d = e \/ \E i \in 1..Len(d) : d[i] < e[i] /\ \A j \in 1..(i-1) : d[j] = e[j])
MaxDigits == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
MinDigits == <<2, 1, 4, 7, 4, 8, 3, 6, 4, 8>>
RECURSIVE NegValue(_)
NegValue(d) == IF d = <<>> THEN 0 ELSE NegValue(SubSeq(d, 1, Len(d) - 1)) * 10 - d[Len(d)]

NoInt(p) == [ok |-> FALSE, v |-> 0, p |-> p]
ParseInt(t, p0) ==
  LET p == Skip(t, p0)
      signed == p <= Len(t) /\ t[p] \in {Minus, Plus}
      neg == signed /\ t[p] = Minus
      a == IF signed THEN p + 1 ELSE p
      b == RunEnd(t, a, Digits)
      d == StripZeros([i \in 1..(b - a) |-> t[a + i - 1] - 48])
  IN  IF b = a THEN NoInt(b)
      ELSE IF neg THEN IF LeDigits(d, MinDigits) THEN [ok |-> TRUE, v |-> NegValue(d), p |-> b] ELSE NoInt(b)
      ELSE IF LeDigits(d, MaxDigits) THEN [ok |-> TRUE, v |-> -NegValue(d), p |-> b] ELSE NoInt(b)
ParseWord(t, p0) ==
  LET p == Skip(t, p0)
      q == CHOOSE q \in p..(Len(t)+1) : (\A i \in p..(q-1) : t[i] \notin Space) /\ (q = Len(t) + 1 \/ t[q] \in Space)
  IN  [ok |-> q > p, w |-> SubSeq(t, p, q - 1), p |-> q]
RECURSIVE ParseInts(_, _)
ParseInts(t, p) == LET r == ParseInt(t, p) IN IF r.ok THEN <<r.v>> \o ParseInts(t, r.p) ELSE <<>>

Malformed == [ok |-> FALSE, mboz |-> 0, nboz |-> 0, ext |-> <<>>, surfs |-> <<>>]
Parse(t) ==
  LET a == ParseInt(t, 1)  b == ParseInt(t, a.p)  w == ParseWord(t, b.p) IN
  IF a.ok /\ b.ok /\ w.ok THEN [ok |-> TRUE, mboz |-> a.v, nboz |-> b.v, ext |-> w.w, surfs |-> ParseInts(t, w.p)]
  ELSE Malformed

------------------------------------------------------------------------------
\* The automaton.  ph: what is being read; sub: before it, after its sign, in it.
\* Numbers are accumulated as negative numbers, which reach further.
Scan0 == [ph |-> "mboz", sub |-> "skip", neg |-> FALSE, v |-> 0, over |-> FALSE, res |-> [Malformed EXCEPT !.ok = TRUE]]
Fail(q) == IF q.ph = "surf" THEN [q EXCEPT !.ph = "stop"] ELSE [q EXCEPT !.ph = "bad"]
\* The number is complete.
Take(q) ==
  IF q.over \/ (~q.neg /\ q.v < -2147483647) THEN Fail(q)
  ELSE LET v == IF q.neg THEN q.v ELSE -q.v
           n == [q EXCEPT !.sub = "skip", !.v = 0, !.neg = FALSE, !.over = FALSE]
       IN  CASE q.ph = "mboz" -> [n EXCEPT !.ph = "nboz", !.res.mboz = v]
             [] q.ph = "nboz" -> [n EXCEPT !.ph = "ext", !.res.nboz = v]
             [] q.ph = "surf" -> [n EXCEPT !.res.surfs = Append(@, v)]
Digit(q, d) ==
  LET over == q.over \/ q.v < -214748364 \/ (q.v = -214748364 /\ d > 8)
  IN  [q EXCEPT !.sub = "in", !.over = over, !.v = IF over THEN 0 ELSE @ * 10 - d]
RECURSIVE Scan(_, _)
Scan(q, c) ==
  CASE q.ph \in {"stop", "bad"} -> q
    [] q.ph = "ext" -> IF c \in Space THEN IF q.sub = "in" THEN [q EXCEPT !.ph = "surf", !.sub = "skip"] ELSE q
                       ELSE [q EXCEPT !.sub = "in", !.res.ext = Append(@, c)]
    [] OTHER -> IF c \in Digits THEN Digit(q, c - 48)
                ELSE IF q.sub = "in" THEN Scan(Take(q), c)
                ELSE IF q.sub = "sign" THEN Fail(q)
                ELSE IF c \in Space THEN q
                ELSE IF c \in {Minus, Plus} THEN [q EXCEPT !.sub = "sign", !.neg = c = Minus]
                ELSE Fail(q)
\* End of the text.
Finish(q) ==
  LET e == IF q.ph \in {"mboz", "nboz", "surf"} /\ q.sub = "in" THEN Take(q) ELSE q
  IN  IF e.ph \in {"surf", "stop"} \/ (e.ph = "ext" /\ e.sub = "in") THEN e.res ELSE Malformed

------------------------------------------------------------------------------
\* Text of what was read, and texts that mean the same.
\* Digits of -n for n <= 0.
RECURSIVE NegDigits(_)
NegDigits(n) == IF n > -10 THEN <<48 - n>> ELSE LET h == (n + 9) \div 10 IN Append(NegDigits(h), 48 - (n - 10 * h))
NumText(n) == IF n >= 0 THEN NegDigits(-n) ELSE <<Minus>> \o NegDigits(n)
RECURSIVE NumsText(_)
NumsText(s) == IF s = <<>> THEN <<>> ELSE <<32>> \o NumText(Head(s)) \o NumsText(Tail(s))
Render(r) == NumText(r.mboz) \o <<32>> \o NumText(r.nboz) \o <<10>> \o r.ext \o <<10>> \o NumsText(r.surfs)
\* Every run of white space replaced by a line break.
Canonical(t) ==
  LET keep == {i \in 1..Len(t) : t[i] \notin Space \/ i = 1 \/ t[i-1] \notin Space}
      RECURSIVE Build(_)
      Build(i) == IF i = 0 THEN <<>> ELSE IF i \in keep THEN Append(Build(i - 1), IF t[i] \in Space THEN 10 ELSE t[i]) ELSE Build(i - 1)
  IN  Build(Len(t))

\* The extension as a string, for file names.
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == IF c \in 32..126 THEN SubSeq(Printable, c - 31, c - 31) ELSE "?"
RECURSIVE Str(_)
Str(codes) == IF codes = <<>> THEN "" ELSE Chr(Head(codes)) \o Str(Tail(codes))
WoutName(r) == "wout_" \o Str(r.ext) \o ".nc"
BoozmnName(r) == "boozmn_" \o Str(r.ext) \o ".nc"

\* What is set before the run, given the defaults of the file.
RECURSIVE InsertSorted(_, _)
InsertSorted(s, v) == IF s = <<>> \/ v <= Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsertSorted(Tail(s), v)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE InsertSorted(Sorted(Tail(s)), Head(s))
Max2(a, b) == IF a >= b THEN a ELSE b
CliOptions(r, x) == [mboz |-> Max2(x.mboz, r.mboz), nboz |-> Max2(x.nboz, r.nboz),
                     compute_surfs |-> IF r.surfs = <<>> THEN x.compute_surfs ELSE Sorted(r.surfs)]
=============================================================================
