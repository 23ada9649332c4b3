------------------------------ MODULE WebModel ------------------------------
(* Design model of the page: the operations it performs, one after the     *)
(* other, as sequences of requests to the worker, with every interleaving  *)
(* of the user's actions, loads of images, and answers, of which any may   *)
(* fail. The histories of WebGen are behaviors of this model.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Images, MaxUser, MaxFail, MaxRows
(* p: the page, m: the module's live handles.                              *)
VARIABLES p, m, user, fail, fetch
NoReq == [r |-> "none", h |-> 0, i |-> 0]
Init == /\ p = [src |-> 0, loading |-> FALSE, cur |-> 0, q |-> <<>>, req |-> NoReq, wts |-> 0, dec |-> 0, rows |-> 0, off |-> FALSE]
        /\ m = [lw |-> {}, ld |-> {}, n |-> 0, bad |-> FALSE, wimg |-> 0]
        /\ user = 0 /\ fail = 0 /\ fetch = "pending"
(* ---- operations of the page                                             *)
RECURSIVE Go(_, _, _), Begin(_)
Finish(x) == LET y == [x EXCEPT !.req = NoReq, !.off = FALSE, !.q = Tail(@)] IN IF y.q = <<>> THEN y ELSE Begin(y)
Begin(x) ==
    CASE Head(x.q) = "load" -> Go([x EXCEPT !.off = TRUE, !.cur = IF x.loading THEN @ ELSE x.src], "freeW", 0)
      [] Head(x.q) = "pal" -> IF x.cur = 0 THEN Finish(x) ELSE Go(x, "pal", 0)
      [] Head(x.q) = "out" -> Go(x, "recon", 0)
Ask(x, r, h, i) == [x EXCEPT !.req = [r |-> r, h |-> h, i |-> i]]
Go(x, ph, i) ==
    CASE ph = "freeW" -> IF x.wts # 0 THEN Ask([x EXCEPT !.wts = 0], "freeW", x.wts, 0) ELSE Go(x, "freeD", 0)
      [] ph = "freeD" -> IF x.dec # 0 THEN Ask([x EXCEPT !.dec = 0], "freeD", x.dec, 0) ELSE Go(x, "mkW", 0)
      [] ph = "mkW" -> IF x.cur = 0 THEN Finish(x) ELSE Ask(x, "mkW", 0, 0)
      [] ph = "pal" -> Ask(x, "pal", 0, 0)
      [] ph = "recon" -> IF x.wts = 0 THEN Finish(x) ELSE IF x.dec # 0 THEN Ask([x EXCEPT !.dec = 0], "freeD2", x.dec, 0) ELSE Go(x, "mkD", 0)
      [] ph = "mkD" -> Ask(x, "mkD", x.wts, 0)
      [] ph = "gray" -> IF i >= x.rows THEN Ask(x, "rec", x.dec, 0) ELSE Ask(x, "gray", x.dec, i)
Submit(x, op) == LET y == [x EXCEPT !.q = Append(@, op)] IN IF Len(y.q) = 1 THEN Begin(y) ELSE y
(* ---- the module                                                         *)
Use(y, set, h) == [y EXCEPT !.bad = @ \/ h \notin set]
Serve(y, r, o) ==
    CASE r.r = "freeW" -> [Use(y, y.lw, r.h) EXCEPT !.lw = @ \ {r.h}]
      [] r.r \in {"freeD", "freeD2"} -> [Use(y, y.ld, r.h) EXCEPT !.ld = @ \ {r.h}]
      [] r.r = "mkW" -> IF o = "ok" THEN [y EXCEPT !.n = @ + 1, !.lw = @ \cup {y.n + 1}, !.wimg = p.cur] ELSE y
      [] r.r = "mkD" -> LET z == Use(y, y.lw, r.h) IN IF o = "ok" THEN [z EXCEPT !.n = @ + 1, !.ld = @ \cup {z.n + 1}] ELSE z
      [] r.r \in {"gray", "rec"} -> Use(y, y.ld, r.h)
      [] OTHER -> y
Continue(x, r, n, k) ==     \* the page after a good answer; n: a new handle, k: size of a new palette
    CASE r.r = "freeW" -> Go(x, "freeD", 0)
      [] r.r = "freeD" -> Go(x, "mkW", 0)
      [] r.r = "mkW" -> Go([x EXCEPT !.wts = n], "pal", 0)
      [] r.r = "pal" -> Go([x EXCEPT !.rows = k], "recon", 0)
      [] r.r = "freeD2" -> Go(x, "mkD", 0)
      [] r.r = "mkD" -> Go([x EXCEPT !.dec = n], "gray", 0)
      [] r.r = "gray" -> Go(x, "gray", r.i + 1)
      [] r.r = "rec" -> Finish(x)
Outcomes(r) == CASE r.r \in {"freeW", "freeD", "freeD2"} -> {"ok"}
                 [] r.r \in {"mkW", "pal"} -> {"ok", "throw"}
                 [] OTHER -> {"ok", "refuse", "throw"}
Answer(o, k) ==
    /\ p.req # NoReq
    /\ o \in Outcomes(p.req)
    /\ (o # "ok" => fail < MaxFail)
    /\ fail' = fail + (IF o = "ok" THEN 0 ELSE 1)
    /\ m' = Serve(m, p.req, o)
    /\ p' = IF o = "ok" THEN Continue(p, p.req, m.n + 1, k) ELSE Finish(p)
    /\ UNCHANGED <<user, fetch>>
(* ---- the environment                                                    *)
Act == user < MaxUser /\ user' = user + 1
Fetched(i) == /\ fetch = "pending" /\ fetch' = IF i = 0 THEN "failed" ELSE "done"
              /\ p' = IF i = 0 \/ p.src # 0 THEN p ELSE [p EXCEPT !.src = i, !.loading = TRUE]
              /\ (i = 0 => fail < MaxFail) /\ fail' = fail + (IF i = 0 THEN 1 ELSE 0)
              /\ UNCHANGED <<m, user>>
Load == p.loading /\ p' = Submit([p EXCEPT !.loading = FALSE], "load") /\ UNCHANGED <<m, user, fail, fetch>>
Pick(i) == /\ ~p.off /\ Act
           /\ p' = IF i = 0 THEN p ELSE [p EXCEPT !.src = i, !.loading = TRUE]
           /\ UNCHANGED <<m, fail, fetch>>
Click(b) == ~p.off /\ Act /\ p' = Submit(p, b) /\ UNCHANGED <<m, fail, fetch>>
Next == \/ \E o \in {"ok", "refuse", "throw"}, k \in 1..MaxRows : Answer(o, k)
        \/ \E i \in {0, 1} : Fetched(i)
        \/ Load
        \/ \E i \in 0..Images : Pick(i)
        \/ \E b \in {"out", "pal"} : Click(b)
vars == <<p, m, user, fail, fetch>>
Spec == Init /\ [][Next]_vars /\ WF_vars(\E o \in {"ok", "refuse", "throw"}, k \in 1..MaxRows : Answer(o, k)) /\ WF_vars(Load)
(* ---- W01                                                                *)
IdleP == p.req = NoReq
HandlesLive == ~m.bad
IdleOk == IdleP => /\ Cardinality(m.lw) <= 1 /\ Cardinality(m.ld) <= 1 /\ ~p.off /\ p.q = <<>>
                   /\ m.lw \subseteq {p.wts} /\ m.ld \subseteq {p.dec}
                   /\ (~p.loading /\ m.lw # {} => m.wimg = p.src)
BusyOk == Cardinality(m.lw) <= 1 /\ Cardinality(m.ld) <= 1
ComesBack == []<>IdleP
=============================================================================
