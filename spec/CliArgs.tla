------------------------------- MODULE CliArgs ------------------------------
(***************************************************************************)
(* Arguments of the command line: texts near lists of colors, reached from *)
(* well formed ones by edits of single characters (some of which take      *)
(* several bytes). Design invariants: both readings of the rules of Cli    *)
(* agree, printing and parsing are inverse, and the parsed bytes are the   *)
(* ones written.                                                           *)
(***************************************************************************)
EXTENDS Cli, Json
CONSTANTS Edits, Random
Good == <<102, 70, 48, 49, 97, 57>>  \* fF01a9
Bases == {Good, Good \o <<Comma>> \o <<65, 98, 51, 52, 48, 48>>,
          <<48, 48, 48, 48, 48, 48, 44, 70, 70, 48, 48, 48, 48, 44, 48, 48, 102, 102, 48, 48, 44, 48, 48, 48, 48, 70, 102>>,
          <<>>}
(* digits, neighbors of the ranges of digits, signs, blanks, separators,   *)
(* and characters of two, three and four bytes, also such whose encoding   *)
(* isn't UTF-8                                                             *)
Chars == {<<c>> : c \in {48, 57, 65, 70, 97, 102, 47, 58, 64, 71, 96, 103, 43, 45, 32, 9, 10, 35, 120, 88, 95, 44, 59, 46, 61, 1, 127}}
         \cup {<<195, 169>>, <<239, 188, 145>>, <<240, 157, 159, 152>>, <<217, 161>>, <<194, 160>>, <<255>>, <<48, 120>>, <<44, 32>>, <<44, 44>>}
VARIABLES t, n
Pick(S) == IF Random /\ S # {} THEN {RandomElement(S)} ELSE S
Before(i) == SubSeq(t, 1, i - 1)
From(i) == SubSeq(t, i, Len(t))
Insert == \E i \in Pick(1..Len(t) + 1), c \in Pick(Chars) : t' = Before(i) \o c \o From(i)
Replace == \E i \in Pick(1..Len(t)), c \in Pick(Chars) : t' = Before(i) \o c \o From(i + 1)
Delete == \E i \in Pick(1..Len(t)) : t' = Before(i) \o From(i + 1)
Swap == \E i \in Pick(1..Len(t) - 1) : t' = Before(i) \o <<t[i + 1], t[i]>> \o From(i + 2)
(* A multi-byte character in place of as many digits keeps the length.     *)
Same == \E i \in Pick(1..Len(t)), c \in Pick(Chars) : i + Len(c) - 1 <= Len(t) /\ t' = Before(i) \o c \o From(i + Len(c))
Init == t \in Bases /\ n = 0
Next == n < Edits /\ n' = n + 1 /\ (Insert \/ Replace \/ Delete \/ Swap \/ Same)
Spec == Init /\ [][Next]_<<t, n>>
Agree == /\ WellFormed(t) = WellFormed2(t)
         /\ WellFormed(t) => /\ Parse(t) = Parse2(t)
                             /\ LET u == ShowList(Parse(t), 1) IN
                                  /\ WellFormed(u) /\ Parse(u) = Parse(t)
                                  /\ \A i \in DOMAIN t : u[i] = Lower(t)[i]
Emit == n = Edits => PrintT(<<"GEN", ToJson([t |-> t, ok |-> WellFormed(t)])>>)
=============================================================================
