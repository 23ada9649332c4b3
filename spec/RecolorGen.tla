----------------------------- MODULE RecolorGen -----------------------------
(***************************************************************************)
(* Behaviors of a client of the recoloring library, with the data left     *)
(* abstract: which kind of image, which kind of palette, what is asked of  *)
(* the decomposition - also what may not be asked. Every behavior of up to *)
(* Depth calls is printed, and replayed on the real library with concrete  *)
(* data. The state is the one of Recolor, reduced to what decides which    *)
(* calls make sense.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, dec
vars == <<hist, dec>>
Init == /\ hist \in {<<[op |-> "img", kind |-> x]>> : x \in {"inside", "any"}}
        /\ dec = "none"
Good == {"enclosing", "usable"}
Bad == {"empty", "short", "dup", "flat", "inner"}
More == Len(hist) <= Depth
Decompose == \E p \in Good \cup Bad :
    /\ p = "enclosing" => hist[1].kind = "inside"
    /\ hist' = Append(hist, [op |-> "dec", pal |-> p])
    /\ dec' = IF p \in Good THEN p ELSE "none"
Reconstruct == \E d \in {-1, 0, 1}, x \in {"own", "uniform", "random"} :
    /\ d # 0 => x = "random"
    /\ dec # "none"
    /\ hist' = Append(hist, [op |-> "rec", delta |-> d, kind |-> x])
    /\ UNCHANGED dec
Layer == \E c \in {"first", "mid", "last", "end", "past", "huge"} :
    /\ dec # "none"
    /\ hist' = Append(hist, [op |-> "gray", c |-> c])
    /\ UNCHANGED dec
Layers == /\ dec # "none" /\ hist' = Append(hist, [op |-> "layers"]) /\ UNCHANGED dec
NewImage == \E x \in {"inside", "any"} :
    /\ Len(hist) >= 3
    /\ hist' = Append(hist, [op |-> "img", kind |-> x]) /\ dec' = "none"
Next == More /\ (Decompose \/ Reconstruct \/ Layer \/ Layers \/ NewImage)
Spec == Init /\ [][Next]_vars
(* Prints the complete behaviors (always true).                            *)
Emit == Len(hist) = Depth + 1 => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
