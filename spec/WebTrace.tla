------------------------------ MODULE WebTrace ------------------------------
(* Checks recorded behaviors of the real page and worker against Web. The  *)
(* first step of a session says which images there are.                    *)
EXTENDS Web, Json, IOUtils
CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st
Steps == Sessions[s].steps
Ev == Steps[k + 1]
Images == Steps[1].images
Init == s \in 1..Len(Sessions) /\ k = 0 /\ st = Start
StepOk(x) == \A p \in {"W01", "W02", "W03"} : On(p) => p \notin x.bad
Run == /\ k < Len(Steps)
       /\ LET x == Step(st, Ev, Images) IN StepOk(x) = TRUE /\ st' = x
       /\ k' = k + 1
       /\ s' = s
Done == k = Len(Steps) /\ UNCHANGED <<s, k, st>>
Next == Run \/ Done
Spec == Init /\ [][Next]_<<s, k, st>>
TypeOk == /\ st.want \subseteq {"load", "out", "pal"}
          /\ DOMAIN st.wl \cap DOMAIN st.dl = {}
=============================================================================
