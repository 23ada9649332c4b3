------------------------------- MODULE MemoGen ------------------------------
(***************************************************************************)
(* Behaviors of clients with abstract requests, to be replayed.            *)
(* Mode "seq": every sequence of Depth kinds of requests on one thread     *)
(*   with at least one refused and one accepted request.                   *)
(* Mode "par": programs of Threads threads with Depth requests each (up to *)
(*   renaming of threads).                                                 *)
(* Mode "twin": every sequence of Depth requests from a family of requests *)
(*   each of which differs from the first in a single aspect.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, Depth, Threads
VARIABLES prog
Good == {"pal", "weights", "hull", "tri"}
Bad == {"badpal", "badweights", "badhull", "badtri"}
Onshared == {"spal", "sweights", "decomp", "recon", "gray", "locate"}
Twins == {"twin0", "twin1", "twin2", "twin3", "twin4", "twin5", "twin6"}
Kinds == IF Mode = "twin" THEN Twins ELSE IF Mode = "seq" THEN Good \cup Bad ELSE {"pal", "weights", "hull", "tri"} \cup {"badpal", "badhull"} \cup Onshared
Order == <<"badhull", "badpal", "badtri", "badweights", "decomp", "gray", "hull", "locate", "pal", "recon", "spal", "sweights", "tri", "weights">>
Num(x) == CHOOSE i \in 1..Len(Order) : Order[i] = x
RECURSIVE Leq(_, _)
Leq(a, b) == IF a = <<>> THEN TRUE
             ELSE IF Num(Head(a)) # Num(Head(b)) THEN Num(Head(a)) < Num(Head(b)) ELSE Leq(Tail(a), Tail(b))
Init == prog = <<>>
\* requests are added thread by thread
Next == /\ Len(prog) < Depth * (IF Mode = "par" THEN Threads ELSE 1)
        /\ \E x \in Kinds : prog' = Append(prog, x)
Part(p, t) == SubSeq(p, (t - 1) * Depth + 1, t * Depth)
Full == Len(prog) = Depth * (IF Mode = "par" THEN Threads ELSE 1)
Mixed == Mode = "seq" => (\E i \in 1..Len(prog) : prog[i] \in Bad) /\ (\E i \in 1..Len(prog) : prog[i] \in Good)
Ordered == Mode = "par" => \A t \in 1..(Threads - 1) : Leq(Part(prog, t), Part(prog, t + 1))
Emit == Full /\ Mixed /\ Ordered => PrintT(<<"GEN", ToJson(prog)>>)
Spec == Init /\ [][Next]_prog
=============================================================================
