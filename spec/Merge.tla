-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* The simplification itself (P04). The state is the real hull of the      *)
(* image's colors, whose corners may be imaginary colors; a palette is     *)
(* only its rounded and clamped picture. One step merges two neighbouring  *)
(* corners into a new one, which lies on the outer side of all faces at    *)
(* the two; of all such points, the one whose distances to these faces     *)
(* have the smallest sum; of all pairs, the one whose merging adds the     *)
(* least volume. Corners the new one makes redundant disappear as well. If *)
(* no pair can be merged, or too few corners would remain, this is the end.*)
(*                                                                         *)
(* The best point of a pair is the solution of a linear program, so it is  *)
(* found where three of the planes meet. All of this is computed in fixed  *)
(* point arithmetic with explicit tolerances: a pair is "clear" if its     *)
(* best point is so by a margin, "blocked" if there certainly is no point, *)
(* and "open" otherwise. If an open pair may be the least one, the rest of *)
(* the chain is unknown and nothing is demanded of it.                     *)
(*                                                                         *)
(* Points are in 1/16 levels and relative to the center of the first hull; *)
(* directions have the length ONE.                                         *)
(***************************************************************************)
EXTENDS Geom

ONE == 4096
RECURSIVE SqrtIn(_, _, _)   \* the largest r in lo..hi with r * r <= x
SqrtIn(x, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF m * m <= x THEN SqrtIn(x, m, hi) ELSE SqrtIn(x, lo, m - 1)
Shrink3(v, d) == <<v[1] \div d, v[2] \div d, v[3] \div d>>
MaxAbs3(n) == Max2(Max2(Abs(n[1]), Abs(n[2])), Abs(n[3]))
Unit(n) ==
    Let(Shrink3(n, 1 + (MaxAbs3(n) \div 262144)), LAMBDA s : Let(MaxAbs3(s), LAMBDA m :
    Let([i \in 1..3 |-> (s[i] * ONE) \div m],
        LAMBDA u : Let(SqrtIn(Dot3(u, u), ONE - 4, 2 * ONE),
            LAMBDA l : <<(u[1] * ONE) \div l, (u[2] * ONE) \div l, (u[3] * ONE) \div l>>))))
CrossU(a, b) == Shrink3(Cross3(a, b), ONE)
RECURSIVE MaxIn(_, _)
MaxIn(M, m) == IF M = {} THEN m ELSE LET x == CHOOSE x \in M : TRUE IN MaxIn(M \ {x}, Max2(m, x))
RECURSIVE SeqOf(_)
SeqOf(F) == IF F = {} THEN <<>> ELSE LET x == CHOOSE x \in F : TRUE IN <<x>> \o SeqOf(F \ {x})

(* ------------------------------ the hull ------------------------------- *)
Center(P) == [i \in 1..3 |-> SumSeq([k \in 1..Len(P) |-> P[k][i]]) \div Len(P)]
Points(P, c) == TLCEval([k \in 1..Len(P) |-> [i \in 1..3 |-> 16 * (P[k][i] - c[i])]])

(* A face: its corners, outward direction, offset, and twice its area (in  *)
(* levels squared).                                                        *)
Dist(f, x) == (Dot3(f.n, x) - f.o) \div ONE
FaceAt(Q, t, cr) ==
    Let(Unit(cr), LAMBDA u :
        [v |-> {t[1], t[2], t[3]}, n |-> u, o |-> Dot3(u, Q[t[1]]),
         size |-> Abs(Dot3(u, Shrink3(cr, 1024))) \div (ONE \div 4)])
Flip(f) == [f EXCEPT !.n = <<-f.n[1], -f.n[2], -f.n[3]>>, !.o = -f.o]
(* The triples of corners with all others on one side, with what is nearer *)
(* to the plane than the margin counting as being in the plane.            *)
SideOf(Q, f, m) ==
    Let({Dist(f, Q[k]) : k \in (1..Len(Q)) \ f.v}, LAMBDA ds :
        IF \A d \in ds : d < -m THEN {f}
        ELSE IF \A d \in ds : d > m THEN {Flip(f)}
        ELSE {})
Triples(n) == {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3]}
Faces(Q, m) ==
    UNION {UNION {IF MaxAbs3(cr) < 256 THEN {} ELSE SideOf(Q, FaceAt(Q, t, cr), m)
                  : cr \in {Cross3(Sub3(Q[t[2]], Q[t[1]]), Sub3(Q[t[3]], Q[t[1]]))}}
           : t \in Triples(Len(Q))}
(* The first hull has whole levels, so that its faces are known exactly.   *)
ExactFaces(Q) ==
    Let(TLCEval([k \in 1..Len(Q) |-> Shrink3(Q[k], 16)]), LAMBDA P :
        {LET f == FaceAt(Q, s.v, Cross3(Sub3(Q[s.v[2]], Q[s.v[1]]), Sub3(Q[s.v[3]], Q[s.v[1]])))
         IN IF Dot3(f.n, s.n) > 0 THEN f ELSE Flip(f) : s \in SupportTris(P)})
(* All corners are corners by a margin, in triangles that are triangles by *)
(* a margin and not too narrow.                                            *)
Longest(Q, f) == MaxIn({LET d == Shrink3(Sub3(Q[e[1]], Q[e[2]]), 16) IN Dot3(d, d) : e \in {e \in f.v \X f.v : e[1] < e[2]}}, 1)
Wide(Q, f, h) == (f.size \div h) * (f.size \div h) >= Longest(Q, f)
Simplicial(Q, F, h) ==
    /\ Cardinality(F) = 2 * Len(Q) - 4
    /\ \A f \in F : Wide(Q, f, h)

(* ---------------------------- one pair ---------------------------------- *)
(* What is tolerated: the first hull is known exactly, later ones only     *)
(* with the rounding errors made here.                                     *)
Tol(exact) == IF exact THEN 12 ELSE 32
Far(exact) == IF exact THEN 16 * 300 ELSE 16 * 250
Margin(exact) == IF exact THEN ONE \div 20 ELSE ONE \div 8
Steep(exact) == IF exact THEN ONE \div 12 ELSE ONE \div 8

Pairs(F) == UNION {{e \in SUBSET f.v : Cardinality(e) = 2} : f \in F}
Around(F, e) == {f \in F : f.v \cap e # {}}
Sum3(A) == [i \in 1..3 |-> SumSeq([k \in 1..Len(A) |-> A[k].n[i]])]
(* The best point is where three planes meet: it is on the outer side of   *)
(* all others, and no other point has a smaller sum (both by a margin).    *)
Meeting(A, c, t, exact) ==
    LET a == A[t[1]]
        b == A[t[2]]
        d == A[t[3]]
    IN Let(<<CrossU(b.n, d.n), CrossU(d.n, a.n), CrossU(a.n, b.n)>>, LAMBDA x :
       Let(Dot3(x[3], d.n) \div ONE, LAMBDA det :
       IF Abs(det) < Steep(exact) \/ \E k \in 1..3 : ((Dot3(c, x[k]) \div det) <= Margin(exact)) THEN {}
       ELSE Let([i \in 1..3 |-> ((a.o \div 256) * x[1][i] + (b.o \div 256) * x[2][i] + (d.o \div 256) * x[3][i]) \div (16 * det)],
       LAMBDA p :
           IF \E i \in 1..3 : Abs(p[i]) > Far(exact) THEN {}
           ELSE IF \A k \in (1..Len(A)) \ {t[1], t[2], t[3]} : Dist(A[k], p) > Tol(exact) THEN {p} ELSE {})))
Grown(A, p) == SumSeq([k \in 1..Len(A) |-> Max2(0, Min2(6000, Dist(A[k], p))) * (A[k].size \div 32)])
SizeOf(A) == SumSeq([k \in 1..Len(A) |-> A[k].size \div 32])
(* Is there any point on the outer side of all planes? Then there is one    *)
(* where three of them meet, and some two of these meet in a line at a      *)
(* sufficient angle, unless all three are almost parallel. On this line the *)
(* other planes leave an interval. (Give or take the tolerances.) The best  *)
(* point grows the hull at least as much as the best end of an interval.    *)
RECURSIVE MinIn(_, _)
MinIn(M, m) == IF M = {} THEN m ELSE LET x == CHOOSE x \in M : TRUE IN MinIn(M \ {x}, Min2(m, x))
Reach == 16000
Along(p, u, s) == [a \in 1..3 |-> p[a] + ((s * u[a]) \div ONE)]
LineEnds(A, i, j, x, exact) ==
    Let(Dot3(x, x) \div ONE, LAMBDA nn :
    Let(<<CrossU(A[j].n, x), CrossU(x, A[i].n)>>, LAMBDA y :
    Let([a \in 1..3 |-> ((A[i].o \div 256) * y[1][a] + (A[j].o \div 256) * y[2][a]) \div (16 * nn)], LAMBDA p :
    IF MaxAbs3(p) > Reach THEN {}
    ELSE Let(Unit(x), LAMBDA u :
    Let({[a |-> Dot3(A[k].n, u) \div ONE, g |-> Dist(A[k], p) + Tol(exact)] : k \in (1..Len(A)) \ {i, j}}, LAMBDA C :
        IF \E c \in C : Abs(c.a) < ONE \div 64 /\ c.g <= -300 THEN {}
        ELSE Let(MaxIn({(-c.g * ONE) \div c.a : c \in {c \in C : c.a >= ONE \div 64}}, -Reach), LAMBDA lo :
             Let(MinIn({(c.g * ONE) \div (-c.a) : c \in {c \in C : -c.a >= ONE \div 64}}, Reach), LAMBDA hi :
               IF lo <= hi + 32 THEN {Along(p, u, lo), Along(p, u, hi)} ELSE {})))))))
PairOf(F, e, exact) ==
    Let(SeqOf(Around(F, e)), LAMBDA A : Let(Sum3(A), LAMBDA c :
    Let(UNION {Meeting(A, c, t, exact) : t \in Triples(Len(A))}, LAMBDA M :
        IF M # {}
        THEN Let(CHOOSE p \in M : TRUE,
                 LAMBDA p : [e |-> e, kind |-> "clear", at |-> p, grown |-> Grown(A, p), size |-> SizeOf(A)])
        ELSE
        Let([ij \in {ij \in (1..Len(A)) \X (1..Len(A)) : ij[1] < ij[2]} |-> CrossU(A[ij[1]].n, A[ij[2]].n)], LAMBDA X :
        Let({ij \in DOMAIN X : Dot3(X[ij], X[ij]) >= (ONE \div 4) * (ONE \div 4)}, LAMBDA L :
            IF \E t \in Triples(Len(A)) : {<<t[1], t[2]>>, <<t[1], t[3]>>, <<t[2], t[3]>>} \cap L = {}
            THEN [e |-> e, kind |-> "open", grown |-> 0, size |-> SizeOf(A)]
            ELSE Let(UNION {LineEnds(A, ij[1], ij[2], X[ij], exact) : ij \in L}, LAMBDA V :
                IF V = {} THEN [e |-> e, kind |-> "blocked"]
                ELSE [e |-> e, kind |-> "open", size |-> SizeOf(A), grown |-> MinIn({Grown(A, p) : p \in V}, 2000000000)]))))))
(* "Blocked" pairs may still meet in a point more than 1000 levels away.    *)
(* That would grow the hull by more than 3/2 of its volume, because no      *)
(* shadow of the hull is smaller than its volume divided by its diameter.   *)
Trusted(c, G, K) ==
    \/ \A d \in K : d.kind # "blocked"
    \/ c.grown \div 64 < Let(SeqOf(G), LAMBDA A :
          SumSeq([k \in 1..Len(A) |-> (Max2(0, -Dist(A[k], Zero3)) * (A[k].size \div 32)) \div 128]))
(* Least, give or take the tolerances. (Of an open pair, `grown` is a      *)
(* lower bound.)                                                           *)
Least(c, K, exact) ==
    /\ c.kind # "blocked"
    /\ \A d \in K : d.kind = "clear" =>
        c.grown \div 64 <= (d.grown \div 64) + ((d.grown \div 64) \div (IF exact THEN 50 ELSE 20))
                      + (IF exact THEN 2 ELSE 6) * ((c.size + d.size) \div 64 + 1)

(* ------------------------------ one step -------------------------------- *)
(* Which corners remain next to the new one? Those that are more than the  *)
(* margin away from the hull of all others. "unknown" if some are neither  *)
(* clearly inside nor clearly outside of it.                               *)
Position(T, x) ==       \* T: the other points
    Let(Faces(T, 4), LAMBDA G :
        IF Cardinality(G) # 2 * Cardinality(UNION {g.v : g \in G}) - 4 THEN "unknown"
        ELSE IF \E g \in G : Dist(g, x) > 48 THEN "out"
        ELSE IF \A g \in G : Dist(g, x) < -48 THEN "in"
        ELSE "unknown")
Without(Q, D) == Let(SeqOf((1..Len(Q)) \ D), LAMBDA r : TLCEval([k \in 1..Len(r) |-> Q[r[k]]]))

(* The palette a hull gives, and whether its colors are clamped.           *)
Fits(x, p, cen) == \A i \in 1..3 : Abs(16 * x[i] - Max2(0, Min2(255 * 16, p[i] + 16 * cen[i]))) <= 40
Shows(R, Q, cen) ==
    /\ Len(R) = Len(Q)
    /\ \A k \in 1..Len(Q) : \E m \in 1..Len(R) : Fits(R[m], Q[k], cen)
    /\ \A m \in 1..Len(R) : \E k \in 1..Len(Q) : Fits(R[m], Q[k], cen)
Imaginary(Q, cen) == \E k \in 1..Len(Q) : \E i \in 1..3 : ~(Q[k][i] + 16 * cen[i] \in 16 .. 254 * 16)

(* ------------------------------ the chain ------------------------------- *)
(* F[k]: the palette for minimum k. `last` is that of the hull Q.          *)
RECURSIVE Explains(_, _, _, _, _)
Explains(Q, cen, exact, last, F) ==
    IF Len(Q) <= 4 THEN TRUE
    ELSE Let(IF exact THEN ExactFaces(Q) ELSE Faces(Q, 24), LAMBDA G :
    IF ~Simplicial(Q, G, IF exact THEN 4 ELSE 15) THEN TRUE
    ELSE Let({PairOf(G, e, exact) : e \in Pairs(G)}, LAMBDA K : Let({c \in K : Least(c, K, exact)}, LAMBDA B :
    IF \E c \in B : c.kind = "open" THEN TRUE
    ELSE IF \E c \in B : ~Trusted(c, G, K) THEN TRUE
    ELSE IF B = {} THEN TRUE
    ELSE \E c \in B :
        Let(Without(Q, c.e) \o <<c.at>>, LAMBDA T :
        Let([k \in 1..(Len(T) - 1) |-> Position(Without(T, {k}), T[k])], LAMBDA w :
            IF \E k \in DOMAIN w : w[k] = "unknown" THEN TRUE
            ELSE Let(Without(T, {k \in DOMAIN w : w[k] = "in"}), LAMBDA N :
                 /\ \A k \in (Max2(4, Len(N) + 1))..(Len(Q) - 1) : F[k] = last
                 /\ Len(N) >= 4 =>
                      \/ /\ Shows(F[Len(N)], N, cen)
                         /\ Explains(N, cen, FALSE, F[Len(N)], F)
                      \/ /\ Imaginary(N, cen) /\ F[Len(N)] = last
                         /\ Explains(N, cen, FALSE, last, F)))))))
ChainExplained(P, F) == Let(Center(P), LAMBDA cen : Explains(Points(P, cen), cen, TRUE, P, F))
=============================================================================
