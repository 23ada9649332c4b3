------------------------------ MODULE MemoTrace -----------------------------
(* Checks behaviors recorded from the real library against Memo.           *)
EXTENDS Memo, Json, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, memo, running
vars == <<s, k, memo, running>>
Steps == Sessions[s].steps
Reqs == Sessions[s].reqs
Ev == Steps[k + 1]
(* What the requests gave in processes of their own.                       *)
Init == s \in 1..Len(Sessions) /\ k = 0 /\ memo = Sessions[s].alone
        /\ running = <<>>
More(name) == k < Len(Steps) /\ Ev.ev = name /\ k' = k + 1 /\ s' = s
Known(r) == r \in 1..Len(memo)
(* The memo itself: refusals are orderly.                                  *)
Check == /\ More("check") /\ (\A r \in 1..Len(memo) : On("E01") => OrderlyOk(Reqs[r], memo[r])) = TRUE
         /\ UNCHANGED <<memo, running>>
(* Shared objects are made and threads are prepared by the main thread.    *)
Share == More("share") /\ Ev.res = "ok" /\ UNCHANGED <<memo, running>>
Add == More("add") /\ UNCHANGED <<memo, running>>
Begin == /\ More("begin")
         /\ Ev.t \notin DOMAIN running
         /\ Known(Ev.r)
         /\ running' = (Ev.t :> Ev.r) @@ running
         /\ memo' = memo
End == /\ More("end")
       /\ Ev.t \in DOMAIN running /\ running[Ev.t] = Ev.r
       /\ Ev.res = memo[Ev.r]
       /\ running' = [t \in DOMAIN running \ {Ev.t} |-> running[t]]
       /\ memo' = memo
One == /\ More("one") /\ running = <<>>
       /\ Known(Ev.r) /\ Ev.res = memo[Ev.r]
       /\ UNCHANGED <<memo, running>>
Many == /\ More("many") /\ running = <<>>
        /\ Known(Ev.r) /\ Ev.all = <<memo[Ev.r]>>
        /\ (On("E01") /\ memo[Ev.r] = "panic" => GrowthOk(Ev.n, Ev.grown)) = TRUE
        /\ UNCHANGED <<memo, running>>
Done == k = Len(Steps) /\ UNCHANGED vars
Next == Check \/ Share \/ Add \/ Begin \/ End \/ One \/ Many \/ Done
Spec == Init /\ [][Next]_vars
TypeOk == /\ DOMAIN running \subseteq 1..8
          /\ \A t \in DOMAIN running : running[t] \in 1..Len(memo)
=============================================================================
