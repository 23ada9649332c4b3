------------------------------- MODULE Contexts -----------------------------
(***************************************************************************)
(* Design model behind T01 and E01: threads build hulls with qhull. A call *)
(* makes a context, sets the context's jump target, computes in several    *)
(* steps that depend on the context only, and either finishes or jumps to  *)
(* the jump target with an error; then the context is released. With       *)
(* Private = FALSE, jump targets and scratch memory are shared by all      *)
(* contexts (as in qhull's non-reentrant form): then Own fails, which      *)
(* shows that the model can tell the difference.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Calls, Private
VARIABLES pc, left, arg, ctx, jump, scratch, res, log
vars == <<pc, left, arg, ctx, jump, scratch, res, log>>
Args == {"good", "flat"}
Slot(t) == IF Private THEN t ELSE 0
Slots == 0..Cardinality(Threads)
Init == /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Calls]
        /\ arg = [t \in Threads |-> "good"] /\ ctx = {}
        /\ jump = [i \in Slots |-> 0] /\ scratch = [i \in Slots |-> "none"]
        /\ res = [t \in Threads |-> "none"] /\ log = {}
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ ctx' = ctx \cup {t} /\ pc' = [pc EXCEPT ![t] = "made"]
           /\ UNCHANGED <<jump, scratch, res, log>>
SetJump(t) == /\ pc[t] = "made" /\ jump' = [jump EXCEPT ![Slot(t)] = t]
              /\ pc' = [pc EXCEPT ![t] = "armed"] /\ UNCHANGED <<left, arg, ctx, scratch, res, log>>
Load(t) == /\ pc[t] = "armed" /\ scratch' = [scratch EXCEPT ![Slot(t)] = arg[t]]
           /\ pc' = [pc EXCEPT ![t] = "loaded"] /\ UNCHANGED <<left, arg, ctx, jump, res, log>>
\* computes from the scratch memory; an error jumps to whoever set the target
Compute(t) ==
    /\ pc[t] = "loaded"
    /\ IF scratch[Slot(t)] = "good"
       THEN /\ res' = [res EXCEPT ![t] = "hull"] /\ pc' = [pc EXCEPT ![t] = "done"]
       ELSE LET u == jump[Slot(t)] IN
            /\ res' = [res EXCEPT ![u] = "error"] /\ pc' = [pc EXCEPT ![u] = "done"]
    /\ UNCHANGED <<left, arg, ctx, jump, scratch, log>>
Return(t) == /\ pc[t] = "done"
             /\ log' = log \cup {<<arg[t], res[t]>>}
             /\ ctx' = ctx \ {t} /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ jump' = [jump EXCEPT ![Slot(t)] = 0]
             /\ UNCHANGED <<left, arg, scratch, res>>
Next == \E t \in Threads : Call(t) \/ SetJump(t) \/ Load(t) \/ Compute(t) \/ Return(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Spec == Init /\ [][Next \/ (Finished /\ UNCHANGED vars)]_vars /\ WF_vars(Next)
(* Results are a function of the arguments.                                *)
Own == log \subseteq {<<"good", "hull">>, <<"flat", "error">>}
JumpsOwn == \A t \in Threads : pc[t] = "loaded" => jump[Slot(t)] = t
Released == \A t \in Threads : (pc[t] = "idle") = (t \notin ctx)
Ends == <>Finished
=============================================================================
