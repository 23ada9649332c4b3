------------------------------- MODULE CAbiGen ------------------------------
(***************************************************************************)
(* Clients of the C interface that respect the rules of CAbi: histories of *)
(* Depth calls over two handles for weights and decompositions and one for *)
(* computed palettes, all of which are released in the end in some order.  *)
(* Design invariants: every handle is used only while it lives; after the  *)
(* release of everything nothing is left. Which palettes are refused is    *)
(* part of the history: palette 3 is.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Slots, Rich
VARIABLES hist, W, D, P
vars == <<hist, W, D, P>>
Init == hist = <<>> /\ W = [h \in Slots |-> 0] /\ D = [h \in Slots |-> <<0, 0>>] /\ P = [h \in {1} |-> 0]
Busy == Len(hist) < Depth
Do(x) == hist' = Append(hist, x)
Alive == {h \in Slots : W[h] # 0}
Decs == {h \in Slots : D[h] # <<0, 0>>}
\* slots are used in order
FirstFree(f, z) == {h \in Slots : f[h] = z /\ \A g \in Slots : g < h => f[g] # z}
NewW == Busy /\ \E h \in FirstFree(W, 0), i \in {1, 2} :
    Do(<<"newW", h, i>>) /\ W' = [W EXCEPT ![h] = i] /\ UNCHANGED <<D, P>>
NewD == Busy /\ \E h \in FirstFree(D, <<0, 0>>), w \in Alive, p \in {1, 2, 3} :
    Do(<<"newD", h, w, p>>) /\ D' = [D EXCEPT ![h] = IF p = 3 THEN @ ELSE <<W[w], p>>] /\ UNCHANGED <<W, P>>
NewP == Busy /\ P[1] = 0 /\ Do(<<"newP", 1>>) /\ P' = [P EXCEPT ![1] = 1] /\ UNCHANGED <<W, D>>
Use == Busy /\ (\/ \E h \in Decs : Do(<<"rec", h>>) \/ Do(<<"gray", h>>) \/ (Rich /\ (Do(<<"size", h>>) \/ Do(<<"badgray", h>>)))
                \/ P[1] # 0 /\ Rich /\ Do(<<"seeP", 1>>)) /\ UNCHANGED <<W, D, P>>
FreeW == \E h \in Alive : Do(<<"freeW", h>>) /\ W' = [W EXCEPT ![h] = 0] /\ UNCHANGED <<D, P>>
FreeD == \E h \in Decs : Do(<<"freeD", h>>) /\ D' = [D EXCEPT ![h] = <<0, 0>>] /\ UNCHANGED <<W, P>>
FreeP == P[1] # 0 /\ Do(<<"freeP", 1>>) /\ P' = [P EXCEPT ![1] = 0] /\ UNCHANGED <<W, D>>
Free == (Len(hist) < Depth + 5) /\ (FreeW \/ FreeD \/ FreeP)
Next == NewW \/ NewD \/ NewP \/ Use \/ Free
Spec == Init /\ [][Next]_vars
Idle == Alive = {} /\ Decs = {} /\ P[1] = 0
Emit == Len(hist) >= Depth /\ Idle => PrintT(<<"GEN", ToJson(hist)>>)
Bounded == Cardinality(Alive) <= Cardinality(Slots)
=============================================================================
