-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact integer geometry, shared by all specifications.                   *)
(*                                                                         *)
(* TLC's integers have 32 bits (and overflow is an error, never a silent   *)
(* wrap), so every operator notes the coordinate range it is good for.     *)
(* Points are tuples of integers.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* TLC evaluates a LET definition anew wherever it is used. Bound variables *)
(* hold values, so Let(v, F) evaluates v once.                             *)
Let(v, F(_)) == CHOOSE r \in {F(x) : x \in {v}} : TRUE

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* ---------------------------- three dimensions ------------------------- *)
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2],
                  a[3] * b[1] - a[1] * b[3],
                  a[1] * b[2] - a[2] * b[1]>>
Det3(a, b, c) == Dot3(a, Cross3(b, c))
Norm1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
Zero3 == <<0, 0, 0>>

(* Six times the signed volume of a tetrahedron. Good for 8-bit points.    *)
Orient3(a, b, c, d) == Det3(Sub3(b, a), Sub3(c, a), Sub3(d, a))

(* All points of the sequence lie in one plane (or are fewer than four).   *)
Flat3(P) ==
    \A i, j, k \in 2..Len(P) :
        i < j /\ j < k => Orient3(P[1], P[i], P[j], P[k]) = 0

(* The supporting triangles of a sequence of points that is not flat: all  *)
(* triples that span a plane with every point on one side, with the normal *)
(* that points outward. Points of the hull satisfy n.x <= o for all of     *)
(* them, and the triangles cover the surface of the hull. 8-bit points.    *)
Support(P, t, n, o) ==
    IF n = Zero3 THEN {}
    ELSE IF \A m \in 1..Len(P) : Dot3(n, P[m]) <= o THEN {[v |-> t, n |-> n, o |-> o]}
    ELSE IF \A m \in 1..Len(P) : Dot3(n, P[m]) >= o
         THEN {[v |-> t, n |-> <<-n[1], -n[2], -n[3]>>, o |-> -o]}
    ELSE {}
SupportTris(P) ==
    UNION {UNION {UNION {Support(P, t, n, o) : o \in {Dot3(n, P[t[1]])}}
                  : n \in {Cross3(Sub3(P[t[2]], P[t[1]]), Sub3(P[t[3]], P[t[1]]))}}
           : t \in {<<i, j, k>> \in (1..Len(P)) \X (1..Len(P)) \X (1..Len(P)) : i < j /\ j < k}}

(* x lies in the hull whose supporting triangles are S.                    *)
InHull3(S, x) == \A f \in S : Dot3(f.n, x) <= f.o

(* x lies within `slack` (in every coordinate) of the hull's planes. The   *)
(* slack is num/den.                                                       *)
NearHull3(S, x, num, den) ==
    \A f \in S : den * (Dot3(f.n, x) - f.o) <= num * Norm1(f.n)

(* p, one of the points of the hull S, is a vertex of it: the planes that  *)
(* pass through it intersect in nothing but p.                             *)
(* Normals are reduced by their gcd first so that the determinant fits.    *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce3(n) ==
    LET g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), Abs(n[3]))
    IN <<n[1] \div g, n[2] \div g, n[3] \div g>>
Parallel(a, b) == a = b \/ a = <<-b[1], -b[2], -b[3]>>

(* Vertex test that avoids large determinants: p is extreme iff no line    *)
(* through p stays on all the planes through p, iff for two non-parallel   *)
(* tight normals a, b there is a tight plane on which the direction a x b  *)
(* does not lie. The direction is checked through points: it is enough     *)
(* that p is not on a segment between two others nor inside a triangle or  *)
(* tetrahedron of others.                                                  *)
OnSegment(p, a, b) ==
    /\ Cross3(Sub3(b, a), Sub3(p, a)) = Zero3
    /\ Dot3(Sub3(p, a), Sub3(p, b)) <= 0
InTriangle(p, a, b, c) ==
    LET n == Cross3(Sub3(b, a), Sub3(c, a))
        s1 == Cross3(Sub3(b, a), Sub3(p, a))
        s2 == Cross3(Sub3(c, b), Sub3(p, b))
        s3 == Cross3(Sub3(a, c), Sub3(p, c))
        \* all parallel to n; compare signs in a coordinate in which n is not 0
        k == CHOOSE i \in 1..3 : n[i] # 0
        g == IF n[k] > 0 THEN 1 ELSE -1
    IN /\ n # Zero3
       /\ Dot3(Reduce3(n), Sub3(p, a)) = 0
       /\ g * s1[k] >= 0 /\ g * s2[k] >= 0 /\ g * s3[k] >= 0
InTetra(p, a, b, c, d) ==
    LET v == Orient3(a, b, c, d)
        g == IF v > 0 THEN 1 ELSE -1
    IN /\ v # 0
       /\ g * Orient3(p, b, c, d) >= 0
       /\ g * Orient3(a, p, c, d) >= 0
       /\ g * Orient3(a, b, p, d) >= 0
       /\ g * Orient3(a, b, c, p) >= 0

(* Caratheodory: p is in the hull of the set Q (of any dimension).         *)
InConv(p, Q) ==
    \/ p \in Q
    \/ \E a, b \in Q : a # b /\ OnSegment(p, a, b)
    \/ \E a, b, c \in Q : InTriangle(p, a, b, c)
    \/ \E a, b, c, d \in Q : InTetra(p, a, b, c, d)

(* Point number i of P is a vertex of the hull of the sequence P of        *)
(* distinct points with supporting triangles S (8-bit): it is on the       *)
(* surface, and not inside of a segment or a triangle of other points.     *)
ExtremeAt(P, S, i) ==
    \E tight \in {{f \in S : Dot3(f.n, P[i]) = f.o}} :
    \* the other points that share a supporting plane with P[i]
    \E Q \in {{P[j] : j \in {j \in (1..Len(P)) \ {i} :
                    \E f \in tight : Dot3(f.n, P[j]) = f.o}}} :
    /\ tight # {}
    /\ P[i] \notin Q
    /\ \A a, b \in Q : a # b => ~OnSegment(P[i], a, b)
    /\ \A a, b, c \in Q : ~InTriangle(P[i], a, b, c)

Distinct(P) == \A i, j \in 1..Len(P) : i # j => P[i] # P[j]

(* Every point is a vertex of the hull of all of them, and the hull is a   *)
(* solid: what it takes to be a decomposition palette.                     *)
ConvexPosition3(P) ==
    /\ Len(P) >= 4
    /\ Distinct(P)
    /\ ~Flat3(P)
    /\ \E S \in {SupportTris(P)} : \A i \in 1..Len(P) : ExtremeAt(P, S, i)

(***************************************************************************)
(* The point of the hull nearest to x, exactly, as [num |-> <<..>>, den]:  *)
(* the point is num / den. Good for coordinates 0..15.                     *)
(***************************************************************************)
\* x projected on a supporting plane lands in the triangle
OnFace(P, f, x) ==
    LET a == P[f.v[1]] b == P[f.v[2]] c == P[f.v[3]] IN
    /\ Dot3(f.n, x) > f.o
    /\ \E m \in {Cross3(Sub3(b, a), Sub3(c, a))} :
        /\ Dot3(m, Cross3(Sub3(b, a), Sub3(x, a))) >= 0
        /\ Dot3(m, Cross3(Sub3(c, b), Sub3(x, b))) >= 0
        /\ Dot3(m, Cross3(Sub3(a, c), Sub3(x, c))) >= 0
FaceProj(f, x, nn, d) ==
    [num |-> <<x[1] * nn - d * f.n[1], x[2] * nn - d * f.n[2], x[3] * nn - d * f.n[3]>>,
     den |-> nn]
\* variational inequality: q is the nearest point of the hull
Scaled(v, q) == <<v[1] * q.den - q.num[1], v[2] * q.den - q.num[2], v[3] * q.den - q.num[3]>>
NearestIs(P, x, q) ==
    \E r \in {Scaled(x, q)} : \A i \in 1..Len(P) : Dot3(r, Scaled(P[i], q)) <= 0
SegPoint(a, e, t, dd) ==
    IF t <= 0 THEN [num |-> a, den |-> 1]
    ELSE IF t >= dd THEN [num |-> <<a[1] + e[1], a[2] + e[2], a[3] + e[3]>>, den |-> 1]
    ELSE [num |-> <<a[1] * dd + t * e[1], a[2] * dd + t * e[2], a[3] * dd + t * e[3]>>,
          den |-> dd]
SegNearest(a, b, x) == Let(Sub3(b, a), LAMBDA e : SegPoint(a, e, Dot3(Sub3(x, a), e), Dot3(e, e)))
NearestOutside(P, S, x) ==
    Let({f \in S : OnFace(P, f, x)}, LAMBDA faces :
        IF faces # {}
        THEN Let(CHOOSE f \in faces : TRUE,
                 LAMBDA f : FaceProj(f, x, Dot3(f.n, f.n), Dot3(f.n, x) - f.o))
        ELSE CHOOSE q \in {SegNearest(P[i], P[j], x) : <<i, j>> \in
                              {<<i, j>> \in (1..Len(P)) \X (1..Len(P)) : i < j}} :
                NearestIs(P, x, q))
Nearest(P, S, x) ==
    IF InHull3(S, x) THEN [num |-> x, den |-> 1] ELSE NearestOutside(P, S, x)

(* ---------------------------- any dimension ---------------------------- *)
SubN(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
RECURSIVE DotFrom(_, _, _)
DotFrom(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + DotFrom(a, b, i + 1)
DotN(a, b) == DotFrom(a, b, 1)

(* Determinant by Bareiss' fraction-free elimination: every intermediate   *)
(* value is a minor of the matrix, so nothing grows beyond them (times     *)
(* one product). M is a sequence of rows.                                  *)
RECURSIVE Bareiss(_, _, _)
Bareiss(M, prev, sign) ==
    LET n == Len(M) IN
    IF n = 0 THEN sign * prev
    ELSE IF n = 1 THEN sign * M[1][1]
    ELSE LET piv == {r \in 1..n : M[r][1] # 0} IN
      IF piv = {} THEN 0
      ELSE LET p == CHOOSE r \in piv : TRUE
               R == [M EXCEPT ![1] = M[p], ![p] = M[1]]
               sg == IF p = 1 THEN sign ELSE -sign
               Rest == [r \in 1..(n - 1) |->
                          [c \in 1..(n - 1) |->
                            (R[r + 1][c + 1] * R[1][1] - R[r + 1][1] * R[1][c + 1]) \div prev]]
           IN Bareiss(Rest, R[1][1], sg)
Det(M) == Bareiss(M, 1, 1)

(* Orientation of D+1 points in D dimensions.                              *)
OrientN(P) == Det([i \in 1..(Len(P) - 1) |-> SubN(P[i + 1], P[1])])

(* The generalised cross product of D-1 vectors in D dimensions: a normal. *)
DropCol(row, c) == [j \in 1..(Len(row) - 1) |-> IF j < c THEN row[j] ELSE row[j + 1]]
NormalN(V) ==
    LET D == Len(V) + 1 IN
    [c \in 1..D |->
        LET m == Det([r \in 1..(D - 1) |-> DropCol(V[r], c)])
        IN IF c % 2 = 1 THEN m ELSE -m]

(* Rank of a set of integer points' affine hull, modulo a prime below      *)
(* 2^15.5: never more than the true rank.                                  *)
Prime == 46337
RECURSIVE PowMod(_, _)
PowMod(b, e) == IF e = 0 THEN 1
                ELSE LET h == PowMod(b, e \div 2) s == (h * h) % Prime
                     IN IF e % 2 = 1 THEN (s * b) % Prime ELSE s
InvMod(a) == PowMod(a, Prime - 2)
RECURSIVE RankRows(_, _, _)
RankRows(rows, c, D) ==
    IF c > D THEN 0
    ELSE LET piv == {r \in rows : r[c] # 0} IN
         IF piv = {} THEN RankRows(rows, c + 1, D)
         ELSE LET p == CHOOSE r \in piv : TRUE
                  inv == InvMod(p[c])
                  Elim(r) == LET f == (r[c] * inv) % Prime
                             IN [k \in 1..D |-> ((r[k] + Prime) - ((f * p[k]) % Prime)) % Prime]
              IN 1 + RankRows({Elim(r) : r \in rows \ {p}} \ {[k \in 1..D |-> 0]}, c + 1, D)
AffineRank(P) ==
    LET D == Len(P[1]) IN
    RankRows({[k \in 1..D |-> (P[i][k] - P[1][k]) % Prime] : i \in 2..Len(P)}
             \ {[k \in 1..D |-> 0]}, 1, D)
=============================================================================
