------------------------------- MODULE Palette -------------------------------
(***************************************************************************)
(* Computing palettes. For an image there is one chain of palettes, from   *)
(* the corners of the hull of its colors to ever simpler ones; the limits  *)
(* only decide where on this chain the simplification stops:               *)
(*                                                                         *)
(*   Stage 0 -> Stage 1 -> ... -> Stage m        (sizes never grow)        *)
(*                                                                         *)
(* The chain itself is observed: F(k) is the palette for minimum k without *)
(* any other limit. The specification says what F may be (P01, P03), and   *)
(* for all other limits which stage is the result (P02).                   *)
(***************************************************************************)
EXTENDS Geom, Merge

CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"
Unlimited == 1000000     \* an error bound that is never exceeded

Fresh == [w |-> 0, h |-> 0, px |-> <<>>, cols |-> {},
          corners |-> 0,                 \* number of corners of the colors' hull
          F |-> [k \in {} |-> <<>>],     \* the chain, by minimum size
          wit |-> {}]                    \* distance certificates

Range2(s) == {s[i] : i \in 1..Len(s)}

(* ------------------------- corners of the colors ----------------------- *)
RECURSIVE SetToSeq2(_)
SetToSeq2(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq2(S \ {x})
CornersOf(cols) ==
    Let(SetToSeq2(cols), LAMBDA P : Let(SupportTris(P),
        LAMBDA S : {P[i] : i \in {i \in 1..Len(P) : ExtremeAt(P, S, i)}}))

(* ------------------------- P01: a usable palette ----------------------- *)
MinOf(e) == Max2(e.min, 4)
UsableOk(st, e) ==
    /\ ConvexPosition3(e.pal)
    /\ Len(e.pal) >= Min2(MinOf(e), Cardinality(st.corners))
    /\ Len(e.pal) <= Cardinality(st.corners)

(* ------------------- P03: the colors are enclosed ---------------------- *)
(* A corner with a component 0 or 255 may stand for an imaginary color     *)
(* that was clamped, even if the image has this very color: the real one   *)
(* lies anywhere beyond. So a plane only bounds the image's colors if      *)
(* moving these corners outward, along the clamped axes, never crosses it. *)
Movable(v, n) == \E i \in 1..3 : (v[i] = 255 /\ n[i] > 0) \/ (v[i] = 0 /\ n[i] < 0)
EnclosedOk(st, e) ==
    \E S \in {SupportTris(e.pal)} :
        \A f \in S :
            (~ \E i \in 1..Len(e.pal) : Movable(e.pal[i], f.n)) =>
                \A x \in st.cols : Dot3(f.n, x) - f.o <= (51 * Norm1(f.n)) \div 100
(* No simplification: exactly the corners.                                 *)
CornersOk(st, e) ==
    MinOf(e) >= Cardinality(st.corners) =>
        /\ Range2(e.pal) = st.corners
        /\ Len(e.pal) = Cardinality(st.corners)

(* --------------------- P02: where to stop on the chain ----------------- *)
ChainKnown(st) == \E k \in DOMAIN st.F : Len(st.F[k]) < k
                  \* (sessions begin with F(4), F(5), ... until k exceeds
                  \* the number of corners)
Ks(st) == DOMAIN st.F
Top(st) == CHOOSE k \in Ks(st) : \A j \in Ks(st) : j <= k
(* The stages down to minimum mn, without repetitions.                     *)
RECURSIVE StagesFrom(_, _, _)
StagesFrom(st, k, mn) ==
    IF k < mn \/ k \notin Ks(st) THEN <<>>
    ELSE IF k - 1 >= mn /\ k - 1 \in Ks(st) /\ st.F[k - 1] = st.F[k]
         THEN StagesFrom(st, k - 1, mn)
    ELSE <<st.F[k]>> \o StagesFrom(st, k - 1, mn)
Stages(st, mn) == IF mn >= Top(st) THEN <<st.F[Top(st)]>> ELSE StagesFrom(st, Top(st), mn)

(* The squared distances of a color to the hull of a palette lie between   *)
(* two bounds that a convex combination close to it certifies: the color   *)
(* is no farther than that point of the hull, and the palette lies beyond  *)
(* a plane orthogonal to the connection. The gap is in 1/128 level.        *)
Gap(pal, c) ==
    LET R(a) == LET RECURSIVE Acc(_)
                    Acc(k) == IF k > Len(c.i) THEN 0 ELSE c.w[k] * pal[c.i[k]][a] + Acc(k + 1)
                IN Acc(1)
    IN [a \in 1..3 |-> (4194304 * c.c[a] - R(a)) \div 32768]
GoodWitness(c, n) ==
    /\ Len(c.i) = Len(c.w) /\ SumSeq(c.w) = 4194304
    /\ \A k \in 1..Len(c.i) : c.i[k] \in 1..n /\ c.w[k] >= 0
    /\ Len(c.d) = 3 /\ MaxAbs3(c.d) <= 8000
Beyond(pal, n, c) ==          \* by how much c is beyond the plane
    Let([k \in 1..Len(pal) |-> Dot3(n, pal[k])],
        LAMBDA v : Dot3(n, c) - (CHOOSE m \in {v[k] : k \in 1..Len(pal)} : \A k \in 1..Len(pal) : v[k] <= m))
(* Coarse bounds for all distances, in (1/4 level)^2                       *)
Bounds(pal, c, fine) ==
    Let([a \in 1..3 |-> fine[a] \div 8], LAMBDA g : Let(16 * Beyond(pal, g, c.c), LAMBDA far :
        LET gg == Dot3(g, g)
        IN [hi |-> (gg + 2 * Norm1(g) + 3) \div 16 + 1,
            lo |-> Max2(0, gg - 2 * Max2(0, gg - far) - 2 * Norm1(g) - 3) \div 16]))
(* Fine bounds for short ones, in (1/32 level)^2; the plane's normal c.d   *)
(* comes with the witness.                                                 *)
Short(g) == MaxAbs3(g) <= 5000
Square(x) == x * x
FineBounds(pal, c, g) ==
    [hi |-> (Dot3(g, g) + 2 * Norm1(g) + 3) \div 16 + 1,
     lo |-> IF MaxAbs3(c.d) < 100 THEN 0
            ELSE Let(Beyond(pal, c.d, c.c), LAMBDA far :
                     IF far <= 0 \/ far > 4000000 THEN 0
                     ELSE Square((128 * far) \div (1 + SqrtIn(Dot3(c.d, c.d), 0, 14000))) \div 16)]
(* Sums over all pixels                                                    *)
RECURSIVE SumHi(_, _, _)
SumHi(b, cs, k) == IF k > Len(cs) THEN 0 ELSE cs[k].n * b[k].hi + SumHi(b, cs, k + 1)
RECURSIVE SumLo(_, _, _)
SumLo(b, cs, k) == IF k > Len(cs) THEN 0 ELSE cs[k].n * b[k].lo + SumLo(b, cs, k + 1)
FEW == 120                    \* so many pixels can't make the sums too large
Certificate(st, e) ==
    Let(TLCEval([k \in 1..Len(e.cs) |-> Gap(e.pal, e.cs[k])]), LAMBDA g :
    Let(TLCEval([k \in 1..Len(e.cs) |-> Bounds(e.pal, e.cs[k], g[k])]), LAMBDA b :
    Let(Len(st.px) <= FEW /\ \A k \in 1..Len(e.cs) : Short(g[k]), LAMBDA fine :
    Let(TLCEval(IF fine THEN [k \in 1..Len(e.cs) |-> FineBounds(e.pal, e.cs[k], g[k])] ELSE <<>>), LAMBDA f :
        [pal |-> e.pal, hi |-> SumHi(b, e.cs, 1), lo |-> SumLo(b, e.cs, 1), fine |-> fine,
         fhi |-> IF fine THEN SumHi(f, e.cs, 1) ELSE 0, flo |-> IF fine THEN SumLo(f, e.cs, 1) ELSE 0]))))
WitnessOk(st, e) ==
    /\ {e.cs[k].c : k \in 1..Len(e.cs)} = st.cols
    /\ SumSeq([k \in 1..Len(e.cs) |-> e.cs[k].n]) = Len(st.px)
    /\ \A k \in 1..Len(e.cs) : GoodWitness(e.cs[k], Len(e.pal))

(* The error of a stage may exceed, or not exceed, the bound b (in 1/u     *)
(* level), give or take one such part.                                     *)
Certified(st, pal, u) == {c \in st.wit : c.pal = pal /\ (u = 32 => c.fine)}
MayExceed(st, pal, b, u) ==
    \/ b < 0
    \/ b < Unlimited /\ \A c \in Certified(st, pal, u) :
            (IF u = 32 THEN c.fhi ELSE c.hi) >= Len(st.px) * Square(Max2(0, b - 1))
MayNotExceed(st, pal, b, u) ==
    \/ b = Unlimited
    \/ b >= 0 /\ \A c \in Certified(st, pal, u) :
            (IF u = 32 THEN c.flo ELSE c.lo) <= Len(st.px) * Square(b + 1)
RECURSIVE Ends(_, _, _, _)
Ends(st, sg, j, e) ==
    IF j = Len(sg) THEN {sg[j]}
    ELSE IF Len(sg[j]) > e.max THEN Ends(st, sg, j + 1, e)
    ELSE (IF MayExceed(st, sg[j + 1], e.b, e.u) THEN {sg[j]} ELSE {})
         \cup (IF MayNotExceed(st, sg[j + 1], e.b, e.u) THEN Ends(st, sg, j + 1, e) ELSE {})
SelectionOk(st, e) == \E sg \in {Stages(st, MinOf(e))} : e.pal \in Ends(st, sg, 1, e)
(* Fewer colors are asked for, but the chain ends at m: then it ends there  *)
(* as well if m are asked for.                                             *)
ShrinkOk(st) ==
    \A k \in Ks(st) : /\ k - 1 \in Ks(st) => Len(st.F[k - 1]) <= Len(st.F[k])
                      /\ Len(st.F[k]) \in Ks(st) => st.F[Len(st.F[k])] = st.F[k]

(* ---------------- P04: each step of the chain is a merge ---------------- *)
(* The chain becomes known when more colors are asked for than there are.   *)
MergesOk(st, e) ==
    (Len(e.pal) < e.min /\ e.min - 1 \in DOMAIN st.F) => ChainExplained(st.F[e.min - 1], st.F)

(* ------------------------------ transitions ---------------------------- *)
IsChainCall(e) == e.max = 255 /\ e.b = Unlimited /\ e.min >= 4
PictureOk(st, e) == TRUE
AfterPicture(st, e) ==
    Let({e.px[i] : i \in 1..Len(e.px)}, LAMBDA cols :
        [Fresh EXCEPT !.w = e.w, !.h = e.h, !.px = e.px, !.cols = cols,
                      !.corners = IF Prop = "P02" THEN {} ELSE CornersOf(cols)])
ComputeOk(st, e) ==
    /\ e.res = "ok"
    /\ Len(e.pal) >= 4
    /\ On("P01") => UsableOk(st, e)
    /\ On("P03") => EnclosedOk(st, e) /\ CornersOk(st, e)
    /\ (On("P04") /\ IsChainCall(e)) =>
           MergesOk(st, e) /\ ShrinkOk([st EXCEPT !.F = (e.min :> e.pal) @@ @])
    /\ On("P02") =>
         IF IsChainCall(e) /\ ~ChainKnown(st)
         THEN ShrinkOk([st EXCEPT !.F = (e.min :> e.pal) @@ @])
         ELSE SelectionOk(st, e)
AfterCompute(st, e) ==
    IF IsChainCall(e) /\ ~ChainKnown(st)
    THEN [st EXCEPT !.F = TLCEval((e.min :> e.pal) @@ @)] ELSE st
(* A computed palette can be used for the image.                           *)
UseOk(st, e) == On("P01") => e.res = "ok"

StepOk(st, e) ==
    CASE e.ev \in {"pic", "img"} -> PictureOk(st, e)
      [] e.ev = "pal" -> ComputeOk(st, e)
      [] e.ev = "wit" -> WitnessOk(st, e)
      [] e.ev = "use" -> UseOk(st, e)
      [] e.ev = "skip" -> TRUE
      [] OTHER -> FALSE
After(st, e) ==
    CASE e.ev \in {"pic", "img"} -> AfterPicture(st, e)
      [] e.ev = "pal" -> AfterCompute(st, e)
      [] e.ev = "wit" -> [st EXCEPT !.wit = @ \cup {Certificate(st, e)}]
      [] OTHER -> st
=============================================================================
