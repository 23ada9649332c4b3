---------------------------- MODULE PaletteTrace ----------------------------
(* Checks behaviors recorded from the real library against Palette.        *)
EXTENDS Palette, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st
Steps == Sessions[s].steps
Init == s \in 1..Len(Sessions) /\ k = 0 /\ st = Fresh
Ev == Steps[k + 1]
Take(names) ==
    /\ k < Len(Steps)
    /\ Ev.ev \in names
    /\ StepOk(st, Ev) = TRUE
    /\ st' = After(st, Ev)
    /\ k' = k + 1
    /\ s' = s
Picture == Take({"pic", "img"})
Compute == Take({"pal"})
Certify == Take({"wit"})
Use == Take({"use", "skip"})
Done == k = Len(Steps) /\ UNCHANGED <<s, k, st>>
Next == Picture \/ Compute \/ Certify \/ Use \/ Done
Spec == Init /\ [][Next]_<<s, k, st>>
TypeOk == \A m \in DOMAIN st.F : m >= 4 /\ Len(st.F[m]) >= 4
=============================================================================
