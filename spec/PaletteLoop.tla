------------------------------ MODULE PaletteLoop ---------------------------
(***************************************************************************)
(* Design model behind P01 and P02: the simplification as a loop over the  *)
(* hulls of a chain, for every chain of hulls there can be: each hull has  *)
(* a number of corners, its palette may be unusable (clamped colors make   *)
(* others redundant), and a usable one has an error. TLC shows that the    *)
(* loop always ends, and ends where Palette!SelectionOk says that it has   *)
(* to, given only what the chain calls (no limits) return. So SelectionOk  *)
(* neither allows too little (no false alarms) nor, since errors and bounds *)
(* are farther apart than its margins, more than one stage.                *)
(***************************************************************************)
EXTENDS Palette
CONSTANTS N0, Errs
Bs == {-1, 5, 15, 25, Unlimited}
VARIABLES chain,     \* sequence of [n, ok, err]: the hulls that merging gives
          lim,       \* [min, max, b]
          pos, pal, pc
lvars == <<chain, lim, pos, pal, pc>>

(* All chains: each merge removes at least one corner; it ends anywhere.    *)
Hulls == {h \in [n : 4..N0, ok : BOOLEAN, err : Errs] : h.ok \/ h.err = CHOOSE x \in Errs : TRUE}
RECURSIVE Chains(_)
Chains(h) == {<<h>>} \cup UNION {{<<h>> \o c : c \in Chains(g)} : g \in {g \in Hulls : g.n < h.n}}

(* The palette of the i-th hull, as something to be told from the others.   *)
PalOf(c, i) == [k \in 1..c[i].n |-> i]
AtLeast4(s) == Max2(s, 4)

(* What the loop gives, as a function, to observe the chain calls.          *)
RECURSIVE Walk(_, _, _, _)
Walk(c, l, i, j) ==      \* at hull i, the last usable one being j
    IF i = Len(c) \/ c[i].n <= AtLeast4(l.min) THEN PalOf(c, j)
    ELSE IF c[i + 1].n < AtLeast4(l.min) THEN PalOf(c, j)
    ELSE IF c[i + 1].ok /\ c[j].n <= l.max /\ c[i + 1].err > l.b THEN PalOf(c, j)
    ELSE Walk(c, l, i + 1, IF c[i + 1].ok THEN i + 1 ELSE j)

Init == /\ chain \in Chains([n |-> N0, ok |-> TRUE, err |-> 0])
        /\ lim \in [min : 0..(N0 + 1), max : 0..(N0 + 1), b : Bs]
        /\ pos = 1 /\ pal = 1 /\ pc = "loop"
(* One turn of the loop.                                                    *)
Stop == pc' = "done" /\ UNCHANGED <<pos, pal>>
Turn == /\ pc = "loop"
        /\ UNCHANGED <<chain, lim>>
        /\ IF chain[pos].n <= AtLeast4(lim.min) \/ pos = Len(chain) THEN Stop
           ELSE LET h == chain[pos + 1] IN
                IF h.n < AtLeast4(lim.min) THEN Stop
                ELSE IF h.ok /\ chain[pal].n <= lim.max /\ h.err > lim.b THEN Stop
                ELSE /\ pos' = pos + 1
                     /\ pal' = IF h.ok THEN pos + 1 ELSE pal
                     /\ pc' = "loop"
Next == Turn
Spec == Init /\ [][Next]_lvars /\ WF_lvars(Turn)

(* What a client observes of this chain: F, and certificates of the errors  *)
(* (one pixel; errors and bounds in quarter levels).                        *)
Observed ==
    [Fresh EXCEPT !.px = <<1>>,
        !.F = TLCEval([k \in 4..(N0 + 1) |-> Walk(chain, [min |-> k, max |-> 255, b |-> Unlimited], 1, 1)]),
        !.wit = {[pal |-> PalOf(chain, i), hi |-> chain[i].err * chain[i].err, lo |-> chain[i].err * chain[i].err, fine |-> FALSE] : i \in 1..Len(chain)}]
Answer == [min |-> lim.min, max |-> lim.max, b |-> lim.b, u |-> 4, pal |-> PalOf(chain, pal)]

Selected == pc = "done" => \E st \in {Observed} :
    /\ ChainKnown(st) /\ ShrinkOk(st) /\ SelectionOk(st, Answer)
    /\ Cardinality(Ends(st, Stages(st, MinOf(Answer)), 1, Answer)) = 1
Sized == pc = "done" => Len(Answer.pal) >= Min2(AtLeast4(lim.min), N0) /\ chain[pal].ok
Function == pc = "done" => Answer.pal = Walk(chain, lim, 1, 1)
Finishes == <>(pc = "done")
=============================================================================
