---- MODULE GeomTest ----
EXTENDS Geom
Cube == <<<<0,0,0>>,<<15,0,0>>,<<0,15,0>>,<<0,0,15>>,<<15,15,0>>,<<15,0,15>>,<<0,15,15>>,<<15,15,15>>>>
ASSUME ConvexPosition3(Cube)
ASSUME ~ConvexPosition3(Cube \o <<<<7,7,0>>>>)
ASSUME ~ConvexPosition3(Cube \o <<<<7,0,0>>>>)
ASSUME ~ConvexPosition3(Cube \o <<<<7,7,7>>>>)
ASSUME ~ConvexPosition3(<<<<0,0,0>>,<<1,0,0>>,<<0,1,0>>,<<1,1,0>>>>)
ASSUME Det(<<<<2,1,0>>,<<0,3,1>>,<<1,0,1>>>>) = 7
ASSUME OrientN(<<<<0,0,0>>,<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>) = 1
ASSUME AffineRank(Cube) = 3
ASSUME NormalN(<<<<1,0,0>>,<<0,1,0>>>>) = <<0,0,1>>
T == <<<<0,0,0>>,<<15,0,0>>,<<0,15,0>>,<<0,0,15>>>>
ASSUME PrintT(Nearest(T, SupportTris(T), <<15,15,15>>))
ASSUME PrintT(Nearest(T, SupportTris(T), <<15,15,0>>))
ASSUME PrintT(Nearest(T, SupportTris(T), <<3,4,0>>))
VARIABLE x
Init == x = 0
Next == x' = x

Spec == Init /\ [][Next]_x
====
