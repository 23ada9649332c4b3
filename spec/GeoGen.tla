------------------------------- MODULE GeoGen -------------------------------
(***************************************************************************)
(* Behaviors of a client of the geometry library with abstract data.       *)
(* Mode "sets": every set of Least to Depth points of the grid             *)
(*   {0..Side-1}^Dim, as numbers (base Side).                              *)
(* Mode "hist": every sequence of Depth calls on a searcher that ends with *)
(*   a search; where to search is named by the kind of point. The state is *)
(*   the one of GeoTrace plus what the implementation remembers (whether   *)
(*   it has a start hint), which the specification says must not matter.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Mode, Depth, Least, Dim, Side
VARIABLES hist, hint, brute, eps
vars == <<hist, hint, brute, eps>>
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Init == hist = <<>> /\ hint = FALSE /\ brute = FALSE /\ eps = 0
Add == /\ Mode = "sets" /\ Len(hist) < Depth
       /\ \E n \in 0..(Pow(Side, Dim) - 1) :
            (IF hist = <<>> THEN TRUE ELSE n > hist[Len(hist)]) /\ hist' = Append(hist, n)
       /\ UNCHANGED <<hint, brute, eps>>
Where == {"corner", "edge", "face", "inner", "outside", "far", "weird"}
Call(x) == hist' = Append(hist, x)
More == Mode = "hist" /\ Len(hist) < Depth
Last == Len(hist) = Depth - 1
Search == More /\ \E w \in Where :
    Call("q " \o w) /\ hint' = (hint \/ (~brute /\ w \notin {"far", "weird"})) /\ UNCHANGED <<brute, eps>>
Clear == More /\ ~Last /\ hint /\ Call("clear") /\ hint' = FALSE /\ UNCHANGED <<brute, eps>>
New == More /\ ~Last /\ (hint \/ brute \/ eps # 0) /\ Call("new") /\ hint' = FALSE /\ brute' = FALSE /\ eps' = 0
Brute == More /\ ~Last /\ Call("brute") /\ brute' = ~brute /\ UNCHANGED <<hint, eps>>
Eps == More /\ ~Last /\ \E x \in {7, 9} : x # eps /\ Call(IF x = 7 THEN "eps 7" ELSE "eps 9") /\ eps' = x /\ UNCHANGED <<hint, brute>>
Next == Add \/ Search \/ Clear \/ New \/ Brute \/ Eps
Spec == Init /\ [][Next]_vars
Emit == IF Mode = "sets" THEN Len(hist) >= Least => PrintT(<<"GEN", ToJson(hist)>>)
        ELSE Len(hist) = Depth => PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
