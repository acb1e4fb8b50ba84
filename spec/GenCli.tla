-------------------------------- MODULE GenCli --------------------------------
(***************************************************************************)
(* All texts over an alphabet, up to a length, for the command line        *)
(* drivers.  Each step appends one piece (a character, or a token with the *)
(* separator before it).  Checks the automaton of BoozCli.tla against its  *)
(* declarative definition, and prints every text for replay on the real    *)
(* programs.                                                               *)
(***************************************************************************)
EXTENDS BoozCli, Json

CONSTANTS Pieces,     \* set of sequences of character codes
          MaxPieces
VARIABLES text, q, n

\* Characters: 0 1 - + space newline a
Chars == {<<c>> : c \in {48, 49, 45, 43, 32, 10, 97}}
\* Tokens: 2 00 +1 -3 7 the extremes of 32 bits and one beyond, other bases and
\* notations, words, signs alone.
Tokens == {<<50>>, <<48, 48>>, <<43, 49>>, <<45, 51>>, <<55>>, <<48>>, <<49>>,
           <<50,49,52,55,52,56,51,54,52,55>>, <<50,49,52,55,52,56,51,54,52,56>>,
           <<45,50,49,52,55,52,56,51,54,52,56>>, <<45,50,49,52,55,52,56,51,54,52,57>>,
           <<57,57,57,57,57,57,57,57,57,57,57>>, <<48,120,49,48>>, <<49,46,53>>, <<49,101,50>>, <<49,44,48>>,
           <<97>>, <<97,49>>, <<49,97>>, <<45>>, <<43>>, <<45,45,49>>, <<43,45,49>>, <<98,46,99>>, <<35>>, <<233>>, <<160>>}
Seps == {<<32>>, <<10>>, <<13,10>>, <<9,32>>, <<11,12>>, <<>>}
TokenPieces == {s \o t : s \in Seps, t \in Tokens}
\* Numbers and names only: mostly well formed texts.
GoodPieces == {s \o t : s \in {<<32>>, <<10>>, <<13,10>>, <<9,11,12>>},
                        t \in {<<50>>, <<48>>, <<49>>, <<49>>, <<48>>, <<43,50>>, <<48,48,49>>, <<45,49>>, <<51>>, <<97>>, <<97,49>>}}

RECURSIVE ScanAll(_, _)
ScanAll(s, t) == IF t = <<>> THEN s ELSE ScanAll(Scan(s, Head(t)), Tail(t))

Init == text = <<>> /\ q = Scan0 /\ n = 0
Next == /\ n < MaxPieces
        /\ \E p \in Pieces : text' = text \o p /\ q' = ScanAll(q, p)
        /\ n' = n + 1
Spec == Init /\ [][Next]_<<text, q, n>>

Agree == Finish(q) = Parse(text)
WhiteSpaceIrrelevant == Parse(Canonical(text)) = Parse(text)
\* What was read can be written in canonical form.
RoundTrip == LET r == Parse(text) IN r.ok => Parse(Render(r)) = r
\* Characters after the point where reading stopped do not matter.
StopIsFinal == q.ph \in {"stop", "bad"} => Scan(q, 49) = q /\ Scan(q, 32) = q
SortedOk == LET s == Sorted(q.res.surfs) IN
            /\ Len(s) = Len(q.res.surfs)
            /\ \A i \in 1..(Len(s)-1) : s[i] <= s[i+1]
            /\ \A v \in {s[i] : i \in DOMAIN s} \cup {q.res.surfs[i] : i \in DOMAIN q.res.surfs} :
                 Cardinality({i \in DOMAIN s : s[i] = v}) = Cardinality({i \in DOMAIN s : q.res.surfs[i] = v})
Export == PrintT("TEXT " \o ToJson([t |-> text, r |-> Finish(q)]))
=============================================================================
