------------------------------ MODULE GeoTrace ------------------------------
(***************************************************************************)
(* Checks recorded hulls, triangulations and searches against Hull and     *)
(* Tri. The state is the current triangulation and the tolerance of the    *)
(* searcher; nothing else may matter for an answer.                        *)
(***************************************************************************)
EXTENDS Tri, Vast, Json, IOUtils
CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, k, st
Steps == Sessions[s].steps
Ev == Steps[k + 1]
Fresh == [ok |-> FALSE, P |-> <<>>, ss |-> <<>>, rss |-> <<>>, outer |-> {}, eps |-> 0]
Init == s \in 1..Len(Sessions) /\ k = 0 /\ st = Fresh

Solid(e) == Span(e.pts, e.d) = e.d
HullOk(e) ==
    IF e.res = "ok"
    THEN /\ On("H01") \/ On("E01") => Solid(e)
         /\ On("H01") => H01Ok(e)
         /\ On("H02") => H02Ok(e)
         /\ On("D04") => HullDistancesOk(e)
    ELSE e.res = "panic" /\ ~Solid(e)
TriOk(e) ==
    IF e.res = "ok"
    THEN /\ On("D01") \/ On("E01") => Solid(e)
         /\ On("D01") => D01Ok(e)
         /\ On("D04") => D04TriOk(e)
    ELSE e.res = "panic" /\ ~Solid(e)
AfterTri(e) ==
    IF e.res = "ok"
    THEN [ok |-> TRUE, P |-> e.pts, ss |-> e.sv, rss |-> e.rsv, eps |-> 0,
          outer |-> IF On("D02") \/ On("D03") THEN TLCEval({pl \in OuterPlanes(e.pts, e.sv, e.sn) : ~IsZero(pl.n)}) ELSE {}]
    ELSE Fresh
StepOk(x, e) ==
    CASE e.ev = "hull" -> HullOk(e)
      [] e.ev = "tri" -> TriOk(e)
      [] e.ev = "eps" -> e.back = 1
      [] e.ev = "brute" -> e.back = e.b
      [] e.ev \in {"clear", "new"} -> TRUE
      [] e.ev = "skip" -> ~x.ok
      [] e.ev = "vasthull" -> /\ e.res = "ok"
                              /\ On("H01") => VastCorners(e)
                              /\ On("H02") => VastHullNeighbors(e)
      [] e.ev = "vasttri" -> /\ e.res = "ok"
                             /\ On("D01") => VastTri(e)
                             /\ On("D02") => VastSearch(e.side, e.qs)
                             /\ On("D03") => VastSearch(e.side, e.rqs)
      [] e.ev = "q" -> On("D02") => LocateOk(x.P, x.ss, x.outer, x.eps, e)
      [] e.ev = "bc" -> On("D02") => AskOk(x.P, x.ss, e)
      [] e.ev = "bs" -> On("D03") => SolversOk(x.P, x.rss, e)
      [] e.ev = "rq" -> On("D03") => LocateOk(x.P, x.rss, x.outer, e.e, e)
      [] OTHER -> FALSE
After(x, e) ==
    CASE e.ev = "tri" -> AfterTri(e)
      [] e.ev = "eps" -> [x EXCEPT !.eps = e.e]
      [] e.ev = "new" -> [x EXCEPT !.eps = 0]
      [] OTHER -> x
Take(names) ==
    /\ k < Len(Steps)
    /\ Ev.ev \in names
    /\ StepOk(st, Ev) = TRUE
    /\ st' = After(st, Ev)
    /\ k' = k + 1
    /\ s' = s
Build == Take({"hull", "tri"})
Set == Take({"eps", "brute", "clear", "new"})
Locate == Take({"q", "bc", "bs", "rq"})
Skip == Take({"skip"})
Done == k = Len(Steps) /\ UNCHANGED <<s, k, st>>
Many == Take({"vasthull", "vasttri"})
Next == Build \/ Many \/ Set \/ Locate \/ Skip \/ Done
Spec == Init /\ [][Next]_<<s, k, st>>
TypeOk == st.ok => Len(st.ss) >= 1
=============================================================================
