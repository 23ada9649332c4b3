--------------------------------- MODULE Tri ---------------------------------
(***************************************************************************)
(* Delaunay triangulations of integer points in 2 to 5 dimensions (D01),   *)
(* their lifted planes (D04), and locating points in them (D02, D03).      *)
(***************************************************************************)
EXTENDS Hull

(* ------------------------- simplices and faces ------------------------- *)
Face(s, k) == TLCEval([i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]])
(* Oriented volume of simplex s over P (times D!) as the distance of its   *)
(* first corner from the plane of the others, not reduced.                 *)
RawPlane(Q) ==
    Let(NormalC(TLCEval([i \in 1..(Len(Q) - 1) |-> SubN(Q[i + 1], Q[1])])),
        LAMBDA n : [n |-> n, o |-> DotN(n, Q[1])])
Vol(P, s) == Let(RawPlane(Points(P, Face(s, 1))), LAMBDA pl : Abs(DotN(pl.n, P[s[1]]) - pl.o))
VolFrom(P, x, f) == Let(RawPlane(Points(P, f)), LAMBDA pl : Abs(DotN(pl.n, P[x]) - pl.o))

(* The simplices as points on the paraboloid: planes in one dimension more *)
Lift(p) == Append(p, DotN(p, p))
(* Upward normal of the lifted simplex' plane, zero if it has no volume;   *)
(* the last component is the volume.                                       *)
LiftedPlane(P, s) ==
    Let(RawPlane(TLCEval([i \in 1..Len(s) |-> Lift(P[s[i]])])), LAMBDA pl :
        IF pl.n[Len(pl.n)] < 0 THEN [n |-> Neg(pl.n), o |-> -pl.o] ELSE pl)
LiftedPlanes(P, ss) == TLCEval([i \in 1..Len(ss) |-> LiftedPlane(P, ss[i])])
(* Height (times the volume) of p over the plane: negative iff p is inside *)
(* of the circumscribed sphere.                                            *)
Power(pl, p) == DotN(pl.n, Lift(p)) - pl.o
HasVolume(pl) == pl.n[Len(pl.n)] # 0

BoundaryFaces(ss, nb) ==
    {<<i, k>> : i \in 1..Len(ss), k \in 1..Len(ss[1])} \ {<<i, k>> \in (1..Len(ss)) \X (1..Len(ss[1])) : nb[i][k] # 0}

(* Simplices without volume (which appear where a flat piece of the lifted *)
(* hull was cut into simplices) can share a ridge in more than one pair.   *)
Flat(P, s) == Vol(P, s) = 0
TriNeighborsOk(P, ss, nb) ==
    /\ Len(nb) = Len(ss)
    /\ \A i \in 1..Len(ss) :
        /\ Len(nb[i]) = Len(ss[i])
        /\ \A k \in 1..Len(ss[i]) :
            IF nb[i][k] = 0
            THEN \A j \in 1..Len(ss) : (j # i /\ Ridge(ss[i], k) \subseteq Ran(ss[j])) => Flat(P, ss[i]) \/ Flat(P, ss[j])
            ELSE \E g \in {nb[i][k]} :
                 /\ g \in 1..Len(ss) /\ g # i
                 /\ \E m \in 1..Len(ss[g]) : nb[g][m] = i /\ Ridge(ss[g], m) = Ridge(ss[i], k)
                 /\ \A j \in 1..Len(ss) : (j \notin {i, g} /\ Ridge(ss[i], k) \subseteq Ran(ss[j]))
                      => Cardinality({x \in {i, j, g} : ~Flat(P, ss[x])}) <= 2

(* The planes of the outer faces. All of them have to support the points.  *)
OuterPlanes(P, ss, nb) ==
    {Let(PlaneThrough(Points(P, Face(ss[x[1]], x[2]))), LAMBDA pl :
        IF IsZero(pl.n) THEN [n |-> pl.n, o |-> 0, ok |-> TRUE] ELSE Supporting(pl, P))
     : x \in BoundaryFaces(ss, nb)}
(* ss is the Delaunay triangulation of P:                                  *)
(*  - its simplices have points as corners and empty circumscribed spheres,*)
(*  - neighbours match, and where there is none is the outer boundary,     *)
(*  - the volumes add up to that of the hull: no overlap and no hole.      *)
TriangulationOk(P, D, ss, nb) ==
    /\ Len(ss) >= 1
    /\ \A i \in 1..Len(ss) : Len(ss[i]) = D + 1 /\ Uniq(ss[i]) /\ \A k \in 1..(D + 1) : IsFirst(P, ss[i][k])
    /\ Cardinality({Ran(ss[i]) : i \in 1..Len(ss)}) = Len(ss)
    /\ UNION {Ran(ss[i]) : i \in 1..Len(ss)} = {i \in 1..Len(P) : IsFirst(P, i)}
    /\ TriNeighborsOk(P, ss, nb)
    /\ \A pl \in OuterPlanes(P, ss, nb) : pl.ok
    /\ \E pls \in {LiftedPlanes(P, ss)} :
        /\ \A i \in 1..Len(ss) : HasVolume(pls[i]) =>
              \A p \in 1..Len(P) : Power(pls[i], P[p]) >= 0
        /\ SumSeq(TLCEval([i \in 1..Len(ss) |-> pls[i].n[D + 1]]))
           = SumSeq(TLCEval([i \in 1..Len(ss) |->
                SumSeq(TLCEval([k \in 1..(D + 1) |->
                    IF nb[i][k] # 0 THEN 0 ELSE VolFrom(P, 1, Face(ss[i], k))]))]))
SameSimplices(a, b) == Len(a) = Len(b) /\ {Ran(a[i]) : i \in 1..Len(a)} = {Ran(b[i]) : i \in 1..Len(b)}
D01Ok(e) ==
    /\ e.same = 1
    /\ e.hs = <<Len(e.vx), Len(e.sv), e.d + 1, e.d + 1>>
    /\ TriangulationOk(e.pts, e.d, e.sv, e.sn)
    /\ SameSimplices(e.sv, e.rsv)
    /\ TriNeighborsOk(e.pts, e.rsv, e.rsn)
    /\ AroundOk(e.rvx, e.rsv, e.rvn)
    /\ Len(e.vx) = Cardinality(Ran(e.vx)) /\ Ran(e.vx) = {i \in 1..Len(e.pts) : IsFirst(e.pts, i)}
    /\ \A w \in 1..Len(e.ways) : SameSimplices(e.ways[w], e.sv)

(* ---------------------- D04: distances from the planes ----------------- *)
(* Column c of the distances belongs to the point e.rvx[c].                *)
LiftedOk(P, s, cols, ds) ==
    /\ Len(ds) = Len(cols)
    /\ \A c \in 1..Len(cols) :
         /\ ds[c] <= 100
         /\ cols[c] \in Ran(s) => Abs(ds[c]) <= 100
    /\ \E pl \in {LiftedPlane(P, s)} : HasVolume(pl) =>
        \E x \in {TLCEval([c \in 1..Len(cols) |-> Power(pl, P[cols[c]])])} :
        \E m \in {CHOOSE c \in 1..Len(cols) : \A j \in 1..Len(cols) : x[j] <= x[c]} :
            IF x[m] = 0 THEN TRUE
            ELSE \E u \in {1 + x[m] \div 10000000} :
                 \* powers and distances have constant proportion
                 \A c \in 1..Len(cols) :
                    Abs((-ds[c]) \div 1000 - (((-ds[m]) \div 1000) * (((x[c] \div u) * 100) \div (1 + (x[m] - 1) \div u))) \div 100)
                        <= 3 + (-ds[m]) \div 60000
D04TriOk(e) ==
    /\ Ran(e.rvx) = {i \in 1..Len(e.pts) : IsFirst(e.pts, i)}
    /\ Len(e.pd) = Len(e.sv) /\ Len(e.rpd) = Len(e.rsv)
    /\ \A i \in 1..Len(e.sv) : LiftedOk(e.pts, e.sv[i], e.rvx, e.pd[i])
    /\ \A i \in 1..Len(e.rsv) : LiftedOk(e.pts, e.rsv[i], e.rvx, e.rpd[i])
    /\ \A i \in 1..Len(e.sv) : \E j \in 1..Len(e.rsv) :
          Ran(e.sv[i]) = Ran(e.rsv[j]) /\ \A c \in 1..Len(e.rvx) : Abs(e.pd[i][c] - e.rpd[j][c]) <= 10

(* ------------------- D02, D03: locating a point ------------------------ *)
(* Query points come in quarters.                                          *)
Special(q) == \E i \in 1..Len(q) : Abs(q[i]) > 90000
InOuter(outer, q) == \A pl \in outer : DotN(pl.n, q) <= 4 * pl.o
(* Barycentric coordinates of q in s: numerators over 4 volumes. Sequence  *)
(* of <<numerator, denominator>> with positive denominators.               *)
Bary(P, s, q) ==
    TLCEval([k \in 1..Len(s) |->
        Let(RawPlane(Points(P, Face(s, k))), LAMBDA pl :
            Let(DotN(pl.n, P[s[k]]) - pl.o, LAMBDA v :
                IF v > 0 THEN <<DotN(pl.n, q) - 4 * pl.o, 4 * v>>
                ELSE <<4 * pl.o - DotN(pl.n, q), -4 * v>>))])
(* Inside, up to the (broadest) tolerance.                                 *)
Contains(bc) == \A k \in 1..Len(bc) : bc[k][2] > 0 /\ bc[k][1] >= -(bc[k][2] \div 2500) /\ bc[k][1] <= bc[k][2] + bc[k][2] \div 2500
Robust(bc) == \A k \in 1..Len(bc) : bc[k][2] > 0 /\ bc[k][1] > bc[k][2] \div 10000
CoordsOk(bc, c) ==      \* c in 1/10000
    /\ Len(c) = Len(bc)
    /\ \A k \in 1..Len(bc) :
        \E u \in {1 + bc[k][2] \div 100000} :
            \* c * den = num * 10000 give or take; scaled down against overflow
            Abs(c[k] - ((bc[k][1] \div u) * 10000) \div (bc[k][2] \div u)) <= 4 + (IF u > 1 THEN 1 ELSE 0)
    /\ Abs(SumSeq(c) - 10000) <= Len(c) + 1
(* tri: the triangulation (P, ss, outer planes); eps: the exponent of the  *)
(* tolerance, 0 if it is the default, which is as small as rounding errors *)
LocateOk(P, ss, outer, eps, e) ==
    CASE Special(e.p) -> e.res = "none"
      [] e.res = "ok" ->
            /\ e.sx \in 1..Len(ss)
            /\ \E bc \in {Bary(P, ss[e.sx], e.p)} : Contains(bc) /\ CoordsOk(bc, e.bc)
      [] e.res = "none" ->
            \/ ~InOuter(outer, e.p)
            \/ eps = 0 /\ ~ \E i \in 1..Len(ss) : Robust(Bary(P, ss[i], e.p))
      [] OTHER -> FALSE
(* Coordinates on request, for any simplex.                                *)
AskOk(P, ss, e) ==
    /\ e.res = "ok"
    /\ \E bc \in {Bary(P, ss[e.sx], e.p)} : bc[1][2] > 0 => CoordsOk(bc, e.bc)
(* The low-level solvers: one made of the corners, and the prepared one.   *)
SolversOk(P, ss, e) ==
    \E bc \in {Bary(P, ss[e.sx], e.p)} : bc[1][2] > 0 =>
        /\ e.res = "ok" /\ CoordsOk(bc, e.bc) /\ CoordsOk(bc, e.bm)
        /\ e.kres = "ok" /\ CoordsOk(bc, e.kc)
=============================================================================
