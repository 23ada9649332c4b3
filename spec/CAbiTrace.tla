------------------------------ MODULE CAbiTrace -----------------------------
(* Checks behaviors recorded by the C driver against CAbi.                 *)
EXTENDS CAbi, Json, IOUtils
CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st
Steps == Sessions[s].steps
Lib == Sessions[s].lib
Ev == Steps[k + 1]
Init == s \in 1..Len(Sessions) /\ k = 0 /\ st = Fresh
StepOk(x, e) ==
    /\ e.ev \notin {"crash", "hang"}
    /\ Allowed(x, Lib, e)
    /\ On("C01") => ResultOk(x, Lib, e) /\ BuffersOk(e)
    /\ On("C02") => HeapOk(x, e) /\ ResultOk(x, Lib, e)
Take(names) ==
    /\ k < Len(Steps)
    /\ Ev.ev \in names
    /\ StepOk(st, Ev) = TRUE
    /\ st' = After(st, Ev)
    /\ k' = k + 1
    /\ s' = s
Create == Take({"newW", "newD", "newP"})
Use == Take({"size", "rec", "gray", "seeP"})
Release == Take({"freeW", "freeD", "freeP"})
Other == Take({"data", "base", "audit"})
Done == k = Len(Steps) /\ UNCHANGED <<s, k, st>>
Next == Create \/ Use \/ Release \/ Other \/ Done
Spec == Init /\ [][Next]_<<s, k, st>>
TypeOk == /\ DOMAIN st.foot = {<<"W", h>> : h \in DOMAIN st.W} \cup {<<"D", h>> : h \in DOMAIN st.D} \cup {<<"P", h>> : h \in DOMAIN st.P}
          /\ k = Len(Steps) => DOMAIN st.foot = {}
=============================================================================
