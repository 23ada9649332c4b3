-------------------------------- MODULE CliGen ------------------------------
(***************************************************************************)
(* Runs of the command line program, by the kinds of their arguments; runs *)
(* of a history share a directory, so that outputs become inputs and are   *)
(* overwritten. -1 stands for an option that isn't given, -2 for nonsense. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Random
VARIABLES hist
Images == {"png", "png2", "rgba", "bmp", "gray", "flat", "missing", "garbage", "cut", "empty", "dir", "out"}
Gens == [cmd : {"gen"}, min : {-2, -1, 0, 3, 4, 5, 6, 9, 255, 256, 260}, max : {-2, -1, 0, 3, 4, 5, 6, 255, 256},
         bound : {"none", "zero", "small", "mid", "large", "inf", "nan", "neg", "bad"}, img : Images]
Recs == [cmd : {"rec"}, pal : {"good", "more", "other", "bad", "short", "long", "twice", "flat", "perm", "printed"}, img : Images,
         out : {"new", "sub", "dots", "blank", "unicode", "upper", "format", "noext", "unknown", "nodir", "isdir", "same", "old", "hidden"}, c : {0, 1}]
Init == hist = <<>>
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Next == Len(hist) < Depth /\ \/ \E x \in Pick(Gens) : hist' = Append(hist, x)
                             \/ \E x \in Pick(Recs) : hist' = Append(hist, x)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
