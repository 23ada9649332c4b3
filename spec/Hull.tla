-------------------------------- MODULE Hull --------------------------------
(***************************************************************************)
(* Convex hulls of integer points in 2 to 5 dimensions: what a reported    *)
(* hull has to be (H01), how its facets are connected (H02), and what the  *)
(* distances to its planes are (D04).                                      *)
(*                                                                         *)
(* A report numbers the input points from 1 (the first of equal points)    *)
(* and facets from 1. Real numbers come in units of 1/1000000.             *)
(* Good for coordinates up to 20 (2D and 3D), 9 (4D) and 5 (5D).           *)
(***************************************************************************)
EXTENDS Geom

Ran(s) == {s[i] : i \in 1..Len(s)}
Uniq(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

(* ------------------------------ exact planes --------------------------- *)
(* Cofactor expansion: unlike elimination it never forms products of two   *)
(* minors, so it cannot overflow where its result and its terms fit.       *)
RECURSIVE DetC(_)
RECURSIVE Expand(_, _)
DetC(M) ==
    CASE Len(M) = 1 -> M[1][1]
      [] Len(M) = 2 -> M[1][1] * M[2][2] - M[1][2] * M[2][1]
      [] Len(M) = 3 -> M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2])
                       - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1])
                       + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
      [] OTHER -> Expand(M, 1)
Minor(M, c) == TLCEval([r \in 1..(Len(M) - 1) |-> DropCol(M[r + 1], c)])
Expand(M, c) ==
    IF c > Len(M) THEN 0
    ELSE (IF M[1][c] = 0 THEN 0
          ELSE (IF c % 2 = 1 THEN M[1][c] ELSE -M[1][c]) * DetC(Minor(M, c)))
         + Expand(M, c + 1)
(* A normal of D-1 vectors in D dimensions (zero if they are dependent).   *)
NormalC(V) ==
    IF Len(V) = 1 THEN <<V[1][2], -V[1][1]>>
    ELSE TLCEval([c \in 1..(Len(V) + 1) |->
            Let(TLCEval([r \in 1..Len(V) |-> DropCol(V[r], c)]),
                LAMBDA M : IF c % 2 = 1 THEN DetC(M) ELSE -DetC(M))])
RECURSIVE GcdSeq(_, _)
GcdSeq(s, i) == IF i > Len(s) THEN 0 ELSE Gcd(Abs(s[i]), GcdSeq(s, i + 1))
Primitive(n) == Let(GcdSeq(n, 1), LAMBDA g : IF g = 0 THEN n ELSE TLCEval([i \in 1..Len(n) |-> n[i] \div g]))
(* The plane through D points, turned so that the points P are not above   *)
(* it: n = 0 if the points are dependent, o = "none" if P is on both sides *)
IsZero(n) == \A i \in 1..Len(n) : n[i] = 0
Neg(n) == TLCEval([i \in 1..Len(n) |-> -n[i]])
PlaneThrough(Q) ==      \* Q: sequence of D points
    Let(Primitive(NormalC(TLCEval([i \in 1..(Len(Q) - 1) |-> SubN(Q[i + 1], Q[1])]))),
        LAMBDA n : [n |-> n, o |-> DotN(n, Q[1])])
Supporting(pl, P) ==
    Let({DotN(pl.n, P[i]) - pl.o : i \in 1..Len(P)}, LAMBDA s :
        CASE \A x \in s : x <= 0 -> [n |-> pl.n, o |-> pl.o, ok |-> TRUE]
          [] \A x \in s : x >= 0 -> [n |-> Neg(pl.n), o |-> -pl.o, ok |-> TRUE]
          [] OTHER -> [n |-> pl.n, o |-> pl.o, ok |-> FALSE])
Points(P, f) == TLCEval([i \in 1..Len(f) |-> P[f[i]]])

(* --------------------------------- rank -------------------------------- *)
RECURSIVE PowM(_, _, _)
PowM(b, e, p) == IF e = 0 THEN 1
                 ELSE Let(PowM(b, e \div 2, p), LAMBDA h :
                          Let((h * h) % p, LAMBDA s : IF e % 2 = 1 THEN (s * b) % p ELSE s))
RECURSIVE RankM(_, _, _, _)
RankM(rows, c, D, p) ==
    IF c > D \/ rows = {} THEN 0
    ELSE LET piv == {r \in rows : r[c] # 0} IN
         IF piv = {} THEN RankM(rows, c + 1, D, p)
         ELSE Let(CHOOSE r \in piv : TRUE, LAMBDA q :
              Let(PowM(q[c], p - 2, p), LAMBDA inv :
                  LET Elim(r) == Let((r[c] * inv) % p, LAMBDA f :
                                     TLCEval([k \in 1..D |-> ((r[k] + p) - ((f * q[k]) % p)) % p]))
                  IN 1 + RankM({Elim(r) : r \in rows \ {q}} \ {[k \in 1..D |-> 0]}, c + 1, D, p)))
RankMod(V, D, p) == RankM({TLCEval([k \in 1..D |-> v[k] % p]) : v \in V} \ {[k \in 1..D |-> 0]}, 1, D, p)
(* The rank modulo a prime never exceeds the true rank; it falls short     *)
(* only if all maximal minors are divisible by both primes.                *)
Rank(V, D) == Let(RankMod(V, D, 46337), LAMBDA r : IF r = D THEN D ELSE Max2(r, RankMod(V, D, 46327)))
Span(P, D) == Rank({SubN(P[i], P[1]) : i \in 2..Len(P)}, D)

(* -------------------------- a reported surface ------------------------- *)
First(P, i) == CHOOSE j \in 1..i : P[j] = P[i] /\ \A k \in 1..(j - 1) : P[k] # P[i]
IsFirst(P, i) == i \in 1..Len(P) /\ \A k \in 1..(i - 1) : P[k] # P[i]

Ridge(f, k) == Ran(f) \ {f[k]}
Ridges(fs) == {<<i, k>> : i \in 1..Len(fs), k \in 1..Len(fs[1])}

(* The exact planes of the facets; facets without area (which appear when  *)
(* facets with many corners are cut into simplices) have none.             *)
Planes(P, fs) ==
    TLCEval([i \in 1..Len(fs) |->
        Let(PlaneThrough(Points(P, fs[i])), LAMBDA pl :
            IF IsZero(pl.n) THEN [n |-> pl.n, o |-> 0, ok |-> TRUE] ELSE Supporting(pl, P))])

(* Facets are simplices of distinct points; they support the points; each  *)
(* ridge belongs to exactly two of them: the surface is closed, so it is   *)
(* the whole boundary of the hull. (Where a flat piece of four dimensional *)
(* or higher hulls was cut into simplices, facets without area can meet    *)
(* others at a ridge, in pairs.)                                           *)
SurfaceOk(P, D, fs, pls) ==
    /\ Len(fs) >= D + 1
    /\ \A i \in 1..Len(fs) : Len(fs[i]) = D /\ Uniq(fs[i]) /\ \A k \in 1..D : IsFirst(P, fs[i][k])
    /\ \A i \in 1..Len(fs) : pls[i].ok
    /\ Cardinality({Ran(fs[i]) : i \in 1..Len(fs)}) = Len(fs)
    /\ \E R \in {TLCEval([x \in Ridges(fs) |-> Ridge(fs[x[1]], x[2])])} :
         \A r \in {R[x] : x \in DOMAIN R} :
            \E at \in {{x \in DOMAIN R : R[x] = r}} :
               /\ Cardinality(at) % 2 = 0
               /\ Cardinality({x \in at : ~IsZero(pls[x[1]].n)}) <= 2

(* The corners: points whose supporting planes leave them no line to move. *)
(* Facets whose corners all touch a plane are among those checked above.   *)
Corner(P, D, pls, i) ==
    Rank({pls[f].n : f \in {f \in 1..Len(pls) : ~IsZero(pls[f].n) /\ DotN(pls[f].n, P[i]) = pls[f].o}}, D) = D
Corners(P, D, pls) == {i \in 1..Len(P) : IsFirst(P, i) /\ Corner(P, D, pls, i)}

(* ------------------- reported normals and distances -------------------- *)
RECURSIVE Abs1(_, _)
Abs1(p, i) == IF i > Len(p) THEN 0 ELSE Abs(p[i]) + Abs1(p, i + 1)
Tol(p) == Abs1(p, 1) + 60
RECURSIVE SumSq(_, _)
SumSq(n, i) == IF i > Len(n) THEN 0 ELSE (n[i] \div 100) * (n[i] \div 100) + SumSq(n, i + 1)
Unit(n) == Abs(SumSq(n, 1) - 100000000) <= 60000
\* a and b point to the same side
MaxIdx(n) == CHOOSE k \in 1..Len(n) : \A j \in 1..Len(n) : Abs(n[j]) <= Abs(n[k])
RECURSIVE Micro(_, _, _)
Micro(n, p, i) == IF i > Len(p) THEN 0 ELSE n[i] * p[i] + Micro(n, p, i + 1)
PlaneOk(P, f, pl, n, o) ==
    /\ Unit(n)
    /\ \A k \in 1..Len(f) : Abs(Micro(n, P[f[k]], 1) + o) <= Tol(P[f[k]])
    /\ \A i \in 1..Len(P) : Micro(n, P[i], 1) + o <= Tol(P[i])
    /\ IsZero(pl.n) \/ \E k \in {MaxIdx(pl.n)} : (n[k] > 0) = (pl.n[k] > 0) /\ n[k] # 0

(* ----------------------------- neighbours ------------------------------ *)
(* The k-th neighbour is across the ridge opposite the k-th vertex, and    *)
(* has this facet in the corresponding place.                              *)
NeighborsOk(fs, nb) ==
    /\ Len(nb) = Len(fs)
    /\ \A i \in 1..Len(fs) :
        /\ Len(nb[i]) = Len(fs[i])
        /\ \A k \in 1..Len(fs[i]) :
            \E g \in {nb[i][k]} :
                /\ g \in 1..Len(fs) /\ g # i
                /\ Ridge(fs[i], k) \subseteq Ran(fs[g])
                /\ \E m \in 1..Len(fs[g]) : nb[g][m] = i /\ Ridge(fs[g], m) = Ridge(fs[i], k)
(* Three dimensions: the turning direction gives the outward normal.       *)
TurnOk(P, fs, pls) ==
    \A i \in 1..Len(fs) : IsZero(pls[i].n) \/
        Dot3(pls[i].n, Cross3(Sub3(P[fs[i][2]], P[fs[i][1]]), Sub3(P[fs[i][3]], P[fs[i][1]]))) > 0

(* ------------------------------ the report ----------------------------- *)
VerticesOk(P, vx, corners) == Len(vx) = Cardinality(corners) /\ Ran(vx) = corners
ReportOk(P, D, vx, fs, nrm, off, pls) ==
    /\ SurfaceOk(P, D, fs, pls)
    /\ Len(nrm) = Len(fs) /\ Len(off) = Len(fs)
    /\ \A i \in 1..Len(fs) : PlaneOk(P, fs[i], pls[i], nrm[i], off[i])
    /\ VerticesOk(P, vx, Corners(P, D, pls))
    /\ UNION {Ran(fs[i]) : i \in 1..Len(fs)} \subseteq Ran(vx)
H01Ok(e) ==
    /\ e.same = 1
    /\ \E pls \in {Planes(e.pts, e.fv)} : ReportOk(e.pts, e.d, e.vx, e.fv, e.nrm, e.off, pls)
    /\ \E pls \in {Planes(e.pts, e.rfv)} : ReportOk(e.pts, e.d, e.rvx, e.rfv, e.rnrm, e.roff, pls)
    /\ Ran(e.vx) = Ran(e.rvx)
    /\ \A w \in 1..Len(e.ways) : Len(e.ways[w]) = Len(e.vx) /\ Ran(e.ways[w]) = Ran(e.vx)
(* Around a vertex are the facets that it is a corner of.                  *)
AroundOk(vx, fs, around) ==
    /\ Len(around) = Len(vx)
    /\ \A v \in 1..Len(vx) :
        /\ Uniq(around[v])
        /\ Ran(around[v]) = {i \in 1..Len(fs) : vx[v] \in Ran(fs[i])}
HandlesOk(e) == e.hs = <<Len(e.vx), Len(e.vx), Len(e.fv), e.d, e.d, 0, 0>>
H02Ok(e) ==
    /\ NeighborsOk(e.fv, e.fn)
    /\ HandlesOk(e)
    /\ NeighborsOk(e.rfv, e.rfn)
    /\ AroundOk(e.rvx, e.rfv, e.rvn)
    /\ e.d = 3 => TurnOk(e.pts, e.fv, Planes(e.pts, e.fv))
(* Distances: as the reported plane says, zero for its own corners,        *)
(* positive for no input point; proportional to the exact distance.        *)
ProportionOk(P, pl, ds) ==
    \* the farthest point serves as the unit
    IsZero(pl.n) \/
    \E x \in {TLCEval([i \in 1..Len(P) |-> pl.o - DotN(pl.n, P[i])])} :
    \E m \in {CHOOSE i \in 1..Len(P) : \A j \in 1..Len(P) : x[j] <= x[i]} :
       \A i \in 1..Len(P) :
          \* |d_i / d_m - x_i / x_m| is small
          Abs((-ds[i]) \div 1000 - (((-ds[m]) \div 1000) * ((x[i] * 100) \div x[m])) \div 100)
             <= 3 + (-ds[m]) \div 90000
HullDistancesOk(e) ==
    \A i \in 1..Len(e.rfv) :
        /\ Len(e.rpd[i]) = Len(e.pts)
        /\ \A p \in 1..Len(e.pts) :
             /\ e.rpd[i][p] <= 60
             /\ Abs(e.rpd[i][p] - (Micro(e.rnrm[i], e.pts[p], 1) + e.roff[i])) <= Tol(e.pts[p])
             /\ p \in Ran(e.rfv[i]) => Abs(e.rpd[i][p]) <= 60
        /\ \E pl \in {PlaneThrough(Points(e.pts, e.rfv[i]))} :
             IsZero(pl.n) \/ \E s \in {Supporting(pl, e.pts)} : s.ok => ProportionOk(e.pts, s, e.rpd[i])
=============================================================================
