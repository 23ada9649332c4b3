------------------------------ MODULE CliTrace ------------------------------
(* Checks recorded runs of the command line program against Cli. A session *)
(* starts with the contents of its directory; each run records the files   *)
(* that changed, appeared (e.changed) or vanished (e.gone) by it.          *)
EXTENDS Cli, Json, IOUtils
CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, fs
Steps == Sessions[s].steps
Ev == Steps[k + 1]
RECURSIVE PutAll(_, _, _)
PutAll(f, list, i) == IF i > Len(list) THEN f ELSE PutAll(Put(f, list[i].name, list[i].content), list, i + 1)
Init == s \in 1..Len(Sessions) /\ k = 0 /\ fs = <<>>
Observed(f, e) == LET g == PutAll(f, e.changed, 1) IN [n \in DOMAIN g \ {e.gone[i] : i \in DOMAIN e.gone} |-> g[n]]
(* Sizes of the input belong to what the file at that name contains.       *)
InputOk(f, e) == e.ev \in {"gen", "rec"} /\ e.i \in DOMAIN f => f[e.i] = e.input
StepOk(f, e) ==
    LET x == Step(f, e) IN x.ok /\ InputOk(f, e) /\ Observed(f, e) = x.fs
Setup == k < Len(Steps) /\ Ev.ev = "setup" /\ fs' = PutAll(<<>>, Ev.changed, 1) /\ k' = k + 1 /\ s' = s
Run == /\ k < Len(Steps)
       /\ Ev.ev \in {"gen", "rec", "probe"}
       /\ StepOk(fs, Ev) = TRUE
       /\ fs' = Step(fs, Ev).fs
       /\ k' = k + 1
       /\ s' = s
Done == k = Len(Steps) /\ UNCHANGED <<s, k, fs>>
Next == Setup \/ Run \/ Done
Spec == Init /\ [][Next]_<<s, k, fs>>
TypeOk == \A n \in DOMAIN fs : fs[n].k \in {"image", "other"}
=============================================================================
