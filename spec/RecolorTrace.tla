---------------------------- MODULE RecolorTrace ----------------------------
(* Checks behaviors recorded from the real library against Recolor: every  *)
(* recorded step must be a step of the specification. A session that gets  *)
(* stuck is a deadlock, which TLC reports.                                 *)
EXTENDS Recolor, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st
Steps == Sessions[s].steps
Init == s \in 1..Len(Sessions) /\ k = 0 /\ st = Fresh
Ev == Steps[k + 1]
Take(name) ==
    /\ k < Len(Steps)
    /\ Ev.ev = name
    /\ StepOk(st, Ev) = TRUE   \* a value, not an action: TLC must not branch on witnesses
    /\ st' = After(st, Ev)
    /\ k' = k + 1
    /\ s' = s
Image == Take("img")
LargeImage == Take("big")
Decompose == Take("dec")
Reconstruct == Take("rec")
Layer == Take("gray")
LargeReconstruct == Take("recbig")
LargeLayers == Take("sums")
Directed == Take("dirs")
Skip == Take("skip")
Done == k = Len(Steps) /\ UNCHANGED <<s, k, st>>
Next == Image \/ LargeImage \/ LargeReconstruct \/ LargeLayers \/ Decompose \/ Reconstruct \/ Layer \/ Directed \/ Skip \/ Done
Spec == Init /\ [][Next]_<<s, k, st>>
(* The client's state makes sense.                                         *)
TypeOk ==
    /\ HasDec(st) => st.usable
    /\ DOMAIN st.layers \subseteq 0..(Len(st.pal) - 1)
    /\ st.sure \subseteq 1..Len(st.img.px)
=============================================================================
