------------------------------ MODULE CliShapes -----------------------------
(* Lists of items of any lengths up to MaxLen, made of hexadecimal digits. *)
EXTENDS Cli, Json
CONSTANTS MaxItems, MaxLen
VARIABLES lens
RECURSIVE Fill(_, _)
Fill(l, j) == IF j > Len(l) THEN <<>>
              ELSE (IF j = 1 THEN <<>> ELSE <<Comma>>) \o [i \in 1..l[j] |-> (IF i % 3 = 0 THEN 64 ELSE IF i % 3 = 1 THEN 47 ELSE 96) + ((i * j) % 6) + 1] \o Fill(l, j + 1)
Init == lens \in {<<a>> : a \in 0..MaxLen}
Next == Len(lens) < MaxItems /\ \E a \in 0..MaxLen : lens' = Append(lens, a)
Spec == Init /\ [][Next]_lens
T == Fill(lens, 1)
Agree == WellFormed(T) = (\A j \in DOMAIN lens : lens[j] = 6) /\ WellFormed(T) = WellFormed2(T)
Emit == PrintT(<<"GEN", ToJson([t |-> T, ok |-> WellFormed(T)])>>)
=============================================================================
