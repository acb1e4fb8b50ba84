------------------------------ MODULE GenLoad ------------------------------
(***************************************************************************)
(* Deviations from a consistent set of load arguments: every single one    *)
(* and every pair (in general MaxDevs), for symmetric and asymmetric       *)
(* configurations, with the verdict of BoozVmec's consistency rules.  They *)
(* are replayed on the real library, which must give the same verdict.     *)
(*                                                                         *)
(* A deviation is a record of strings and integers:                        *)
(*   mat  name dr dc    change the shape of a matrix (dr, dc = -9: empty)  *)
(*   vec  name d        change the length of a vector (-9: empty)          *)
(*   int  name d        add to an integer (header or ns)                   *)
(*   set  name d        set an integer                                     *)
(*   len  name d        change the length of a mode table                  *)
(*   tab  name i d      add d to entry i of a mode table                   *)
(*   less               one surface less in everything                     *)
(*   asym               declare the opposite symmetry                      *)
(***************************************************************************)
EXTENDS BoozVmec, FiniteSets, Json

CONSTANTS MaxDevs, Asyms, Fluxes

VARIABLES pre, arg, devs, base, top
vars == <<pre, arg, devs, base, top>>

NonNyq == {"rmnc0", "zmns0", "lmns0", "rmns0", "zmnc0", "lmnc0"}
Nyqs   == {"bmnc0", "bsubumnc0", "bsubvmnc0", "bmns0", "bsubumns0", "bsubvmns0"}
AsymM  == {"rmns0", "zmnc0", "lmnc0", "bmns0", "bsubumns0", "bsubvmns0"}
Flux   == {"phips", "chi", "pres", "phi"}

Shape(r, c) == [r |-> r, c |-> c, d |-> <<>>]
Reals(n) == Fill(n, Zero)
Base(asym) == [nfp |-> 2, mpol |-> 2, ntor |-> 1, mnmax |-> 5, asym |-> asym,
               xm |-> <<0, 0, 1, 1, 1>>, xn |-> <<0, 2, -2, 0, 2>>,
               mpol_nyq |-> 1, ntor_nyq |-> 2, mnmax_nyq |-> 8,
               xm_nyq |-> <<0, 0, 0, 1, 1, 1, 1, 1>>, xn_nyq |-> <<0, 2, 4, -4, -2, 0, 2, 4>>]
NS == 3
Args(asym, flux) ==
  [m \in NonNyq \cup Nyqs |-> IF m \in AsymM /\ ~asym THEN Shape(0, 0) ELSE Shape(IF m \in NonNyq THEN 5 ELSE 8, NS)]
  @@ [v \in Flux |-> IF flux THEN Reals(NS) ELSE <<>>] @@ [ns |-> NS, iotas |-> Reals(NS)]

Ints == {"mpol", "ntor", "mnmax", "mpol_nyq", "ntor_nyq", "mnmax_nyq", "nfp"}
Tabs == {"xm", "xn", "xm_nyq", "xn_nyq"}
Dev(k, n, i, d) == [k |-> k, n |-> n, i |-> i, d |-> d]
AllDevs ==
     {Dev("mat", m, p[1], p[2]) : m \in NonNyq \cup Nyqs, p \in {<<-1, 0>>, <<1, 0>>, <<0, -1>>, <<0, 1>>, <<1, -1>>, <<-9, -9>>}}
\cup {Dev("vec", v, 0, d) : v \in Flux \cup {"iotas"}, d \in {-1, 1, -9}}
\cup {Dev("int", v, 0, d) : v \in Ints \cup {"ns"}, d \in {-1, 1}}
\cup {Dev("set", v, 0, d) : v \in Ints \cup {"ns"}, d \in {0, -2}}
\cup {Dev("len", v, 0, d) : v \in Tabs, d \in {-1, 1}}
\cup {Dev("tab", v, i, d) : v \in Tabs, i \in {1, 3, 5, 8}, d \in {-2, -1, 1, 2}}
\cup {Dev("less", "", 0, 0), Dev("asym", "", 0, 0)}

Applies(d) ==
  CASE d.k = "mat" -> arg[d.n].r + d.i >= 0 \/ d.i = -9
    [] d.k = "tab" -> d.i <= Len(pre[d.n])
    [] d.k = "len" -> Len(pre[d.n]) > 0
    [] d.k = "vec" -> d.d < 0 => LenR(arg[d.n]) > 0
    [] d.k = "less" -> arg.ns = NS
    [] OTHER -> TRUE

Fit(n) == IF n < 0 THEN 0 ELSE n
NewShape(M, dr, dc) == IF dr = -9 THEN Shape(0, 0) ELSE Shape(Fit(M.r + dr), Fit(M.c + dc))
NewVec(v, d) == IF d = -9 THEN <<>> ELSE Reals(Fit(LenR(v) + d))
NewPre(d) ==
  CASE d.k = "int" /\ d.n # "ns" -> [pre EXCEPT ![d.n] = @ + d.d]
    [] d.k = "set" /\ d.n # "ns" -> [pre EXCEPT ![d.n] = d.d]
    [] d.k = "len" -> [pre EXCEPT ![d.n] = IF d.d < 0 THEN SubSeq(@, 1, Len(@) - 1) ELSE Append(@, 0)]
    [] d.k = "tab" -> [pre EXCEPT ![d.n][d.i] = @ + d.d]
    [] d.k = "asym" -> [pre EXCEPT !.asym = ~@]
    [] OTHER -> pre
NewArg(d) ==
  CASE d.k = "mat" -> [arg EXCEPT ![d.n] = NewShape(@, d.i, d.d)]
    [] d.k = "vec" -> [arg EXCEPT ![d.n] = NewVec(@, d.d)]
    [] d.k = "int" /\ d.n = "ns" -> [arg EXCEPT !.ns = @ + d.d]
    [] d.k = "set" /\ d.n = "ns" -> [arg EXCEPT !.ns = d.d]
    [] d.k = "less" -> [x \in DOMAIN arg |->
         IF x = "ns" THEN arg.ns - 1
         ELSE IF x \in Flux \cup {"iotas"} THEN NewVec(arg[x], -1)
         ELSE IF arg[x].c = 0 THEN arg[x] ELSE NewShape(arg[x], 0, -1)]
    [] OTHER -> arg

DevSeq == SetToSeq(AllDevs)
Init == \E asym \in Asyms, flux \in Fluxes :
          /\ pre = Base(asym) /\ arg = Args(asym, flux) /\ devs = <<>>
          /\ base = [asym |-> asym, flux |-> flux] /\ top = 0
\* In a fixed order, because the order hardly matters.
Deviate(k) ==
  LET d == DevSeq[k] IN
  /\ Len(devs) < MaxDevs /\ k > top
  /\ Applies(d)
  /\ pre' = NewPre(d) /\ arg' = NewArg(d) /\ devs' = Append(devs, d) /\ top' = k /\ UNCHANGED base
Next == \E k \in 1..Len(DevSeq) : Deviate(k)
Spec == Init /\ [][Next]_vars

Verdict == Consistent(pre, arg)
------------------------------------------------------------------------------
\* Properties of the rules.
BaseAccepted == devs = <<>> => Verdict
\* Deviations of what does not matter are harmless; all others break something.
Harmless(d) ==
  \/ d.k = "mat" /\ d.n \in AsymM /\ ~base.asym
  \/ d.k \in {"int", "set"} /\ d.n \in {"mpol", "mpol_nyq"} /\ d.d > 0
  \/ d.k = "vec" /\ d.n = "phips" /\ LenR(arg.phips) = 0            \* as if no flux were supplied
  \/ d.k = "vec" /\ d.n \in Flux /\ LenR(arg.phips) = 0
  \/ d.k = "asym" /\ base.asym
  \/ d.k = "less"
  \* An inner entry may be another mode in the table's range.
  \/ d.k = "tab" /\ d.i \notin {1, Len(pre[d.n])} /\ d.n \in {"xn", "xn_nyq"} /\ d.d % 2 = 0
  \/ d.k = "tab" /\ d.i # 1 /\ d.n \in {"xm", "xm_nyq"}
SinglesBreak == (Len(devs) = 1 /\ ~Harmless(devs[1])) => ~Verdict
\* Independent faults do not repair each other: a wrong shape stays wrong whatever is done to another array.
ShapeFault(d) == d.k = "mat" /\ (d.n \in AsymM => base.asym)
NoRepair == (Len(devs) = 2 /\ ShapeFault(devs[1]) /\ devs[2].k \in {"mat", "vec", "tab", "len"} /\ devs[2].n # devs[1].n) => ~Verdict

Export == Len(devs) = MaxDevs => PrintT("LOAD " \o ToJson([b |-> base, d |-> devs, ok |-> Verdict]))
=============================================================================
