-------------------------------- MODULE Vast --------------------------------
(***************************************************************************)
(* Hulls and triangulations of tens of thousands of points: their numbers  *)
(* of facets follow from Euler's formula, and a sample of facets is judged *)
(* with their neighbors. Distances are in 1e-9.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VSet(q) == {q[i] : i \in 1..Len(q)}
VProper(c, n) == Len(c) = 3 /\ Cardinality(VSet(c)) = 3 /\ VSet(c) \subseteq 1..n
\* the neighbor opposite of each corner shares all other corners
VOpposite(c, nb) == \A i \in 1..3 : Cardinality(VSet(nb[i])) = 3 /\ VSet(nb[i]) \cap VSet(c) = VSet(c) \ {c[i]}

\* Points on a sphere: all are corners, no point is above a facet
VTol == 10
VAbs(x) == IF x < 0 THEN -x ELSE x
VFacet(f, n) ==
    /\ VProper(f.c, n)
    /\ \A i \in 1..3 : VAbs(f.own[i]) <= VTol
    /\ f.most <= VTol
VastCorners(e) ==
    /\ e.nv = e.n /\ e.rnv = e.n
    /\ e.nf = 2 * e.n - 4 /\ e.rnf = 2 * e.n - 4 /\ e.ids = e.rnf
    /\ \A i \in 1..Len(e.fs) : VFacet(e.fs[i], e.n)
    /\ \A i \in 1..Len(e.rfs) : VFacet(e.rfs[i], e.n)
VNext(f) == Len(f.nb) = 3 /\ VOpposite(f.c, f.nb) /\ \A i \in 1..3 : f.far[i] <= VTol
VastHullNeighbors(e) ==
    /\ \A i \in 1..Len(e.fs) : VNext(e.fs[i]) /\ e.fs[i].turn = 1
    /\ \A i \in 1..Len(e.rfs) : VNext(e.rfs[i])

\* Triangulations of different points in a square, given with its corners
VTurn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
VSign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
VRow(a, q) == <<a[1] - q[1], a[2] - q[2], (a[1] - q[1]) * (a[1] - q[1]) + (a[2] - q[2]) * (a[2] - q[2])>>
VDet(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
VNear(a, q) == VAbs(a[1] - q[1]) <= 100 /\ VAbs(a[2] - q[2]) <= 100
\* q isn't inside of the circle through the triangle's corners; undecided (in 32 bits) for long edges
VOutside(p, q) ==
    (\A i \in 1..3 : VNear(p[i], q)) => VSign(VDet(VRow(p[1], q), VRow(p[2], q), VRow(p[3], q))) * VSign(VTurn(p[1], p[2], p[3])) <= 0
VSimplex(f, n) ==
    /\ VProper(f.c, n) /\ Len(f.nb) = 3
    /\ VTurn(f.p[1], f.p[2], f.p[3]) # 0
    /\ \A i \in 1..3 :
         IF f.nb[i] = <<>> THEN TRUE
         ELSE LET a == f.p[(i % 3) + 1]
                  b == f.p[((i + 1) % 3) + 1]
              IN /\ Cardinality(VSet(f.nb[i])) = 3
                 /\ VSet(f.nb[i]) \cap VSet(f.c) = VSet(f.c) \ {f.c[i]}
                 /\ VSign(VTurn(a, b, f.p[i])) = -VSign(VTurn(a, b, f.far[i]))
                 /\ VOutside(f.p, f.far[i])
\* an edge without neighbor is on the rim of the square
VRim(f, side) ==
    \A i \in 1..3 : f.nb[i] = <<>> =>
        LET a == f.p[(i % 3) + 1]
            b == f.p[((i + 1) % 3) + 1]
        IN \E x \in 1..2 : a[x] = b[x] /\ a[x] \in {0, side}
VastTri(e) ==
    /\ e.nv = e.n
    /\ e.ns = 2 * e.n - 2 - e.rim /\ e.rns = 2 * e.n - 2 - e.rrim
    /\ \A i \in 1..Len(e.fs) : VSimplex(e.fs[i], e.n) /\ VRim(e.fs[i], e.side)
    /\ \A i \in 1..Len(e.rfs) : VSimplex(e.rfs[i], e.n) /\ VRim(e.rfs[i], e.side)

VInSquare(q, side) == q[1] \in 0..side /\ q[2] \in 0..side
VIn(p, q) ==
    LET o == VSign(VTurn(p[1], p[2], p[3]))
    IN \A i \in 1..3 : VSign(VTurn(p[i], p[(i % 3) + 1], q)) * o >= 0
VastSearch(side, qs) ==
    \A i \in 1..Len(qs) :
        IF VInSquare(qs[i].q, side) THEN qs[i].res = "ok" /\ VIn(qs[i].p, qs[i].q)
        ELSE qs[i].res = "none"
=============================================================================
