----------------------------- MODULE PaletteGen -----------------------------
(* Enumerates palettes: all lists of up to Most colors, or all sets of Most *)
(* colors, over the grid of Levels^3 colors.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Levels, Most
VARIABLE pal
Grid == (0..(Levels - 1)) \X (0..(Levels - 1)) \X (0..(Levels - 1))
Num(c) == c[1] * Levels * Levels + c[2] * Levels + c[3]
Size(s) == IF s = <<>> THEN 0 ELSE Cardinality(DOMAIN s)
Init == pal = <<>>
Next == /\ Size(pal) < Most
        /\ \E c \in Grid :
             /\ Mode = "sets" /\ pal # <<>> => Num(c) > Num(pal[Size(pal)])
             /\ pal' = Append(pal, c)
Spec == Init /\ [][Next]_pal
Emit == (Mode = "lists" \/ Size(pal) = Most) => PrintT(<<"PAL", ToJson(pal)>>)
=============================================================================
