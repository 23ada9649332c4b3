-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* Results depend on the arguments only (T01), and degenerate requests are *)
(* refused without any other effect (E01).                                 *)
(*                                                                         *)
(* Clients on several threads make requests. The state that may matter is  *)
(* a function from requests to results which never changes: it is what     *)
(* each request gives when a fresh process makes no other request. A       *)
(* thread begins a request and later ends it with that result, whatever    *)
(* the others are doing.                                                   *)
(*                                                                         *)
(* A request is [k |-> kind, d, pts] or [k, w, h, px]; it is refused, i.e. *)
(* ends in a panic, iff the points it gives to qhull do not span their     *)
(* space: the points themselves, the pixels' colors ("rgb") or the colors  *)
(* with positions ("rgbxy").                                               *)
(***************************************************************************)
EXTENDS Hull
CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"

PointsOf(q) ==
    CASE q.k = "points" -> q.pts
      [] q.k = "rgb" -> q.px
      [] q.k = "rgbxy" -> TLCEval([i \in 1..Len(q.px) |-> q.px[i] \o <<(i - 1) % q.w, (i - 1) \div q.w>>])
DimOf(q) == CASE q.k = "points" -> q.d [] q.k = "rgb" -> 3 [] q.k = "rgbxy" -> 5
Spans(P, D) == IF Len(P) <= D THEN FALSE
               ELSE Rank({SubN(p, P[1]) : p \in Ran(P)}, D) = D
Refused(q) == q.k # "free" /\ ~Spans(PointsOf(q), DimOf(q))
Judged(q) == q.k # "free"
(* Results are opaque, except for how requests fail.                       *)
OrderlyOk(q, res) == Judged(q) => (res = "panic") = Refused(q)

(* A refused request that is repeated doesn't use up memory.               *)
GrowthOk(n, grown) == grown <= 1500 + 40 * n
=============================================================================
