------------------------------- MODULE Recolor -------------------------------
(***************************************************************************)
(* The recoloring pipeline as a user sees it:                              *)
(*                                                                         *)
(*   image --> weights --(palette)--> decomposition --(palette')--> image  *)
(*                                        \--(n)--> grayscale layer        *)
(*                                                                         *)
(* The state is what a client holds: the image its weights were made from  *)
(* and the palette of its current decomposition, with the layers it has    *)
(* seen of it. Each transition is one call with its result. A call's       *)
(* result is not computed here but constrained: XxxOk(st, e) is the        *)
(* relation between the state, the arguments and the result that the       *)
(* properties R01..R06 demand (the constant `Prop` selects which one of    *)
(* them is being decided), and After(st, e) is the client's next state.    *)
(***************************************************************************)
EXTENDS Geom

CONSTANT Prop
On(p) == Prop = p \/ Prop = "all"

(* ------------------------------ palettes ------------------------------- *)
IsColor(c) == Len(c) = 3 /\ \A i \in 1..3 : c[i] \in 0..255
UsablePalette(pal) == ConvexPosition3(pal)
(* For long palettes witnesses decide: the environment knows a direction    *)
(* for each color (st.dirs) in which no other color is as far out; a color  *)
(* that occurs twice, or is the middle of two others, is redundant.         *)
IsLong(pal) == Len(pal) > 24
MustAccept(st, pal) ==
    IF ~IsLong(pal) THEN UsablePalette(pal)
    ELSE /\ Cardinality({pal[i] : i \in 1..Len(pal)}) = Len(pal)
         /\ \A i \in 1..Len(pal) : pal[i] \in DOMAIN st.dirs
         /\ \A i \in 1..Len(pal) : \E d \in {st.dirs[pal[i]]} : \E m \in {Dot3(d, pal[i])} :
                \A j \in 1..Len(pal) : j = i \/ Dot3(d, pal[j]) < m
MustRefuse(st, pal) ==
    IF ~IsLong(pal) THEN ~UsablePalette(pal)
    ELSE \E S \in {{pal[i] : i \in 1..Len(pal)}} :
            \/ Cardinality(S) < Len(pal)
            \/ \E c \in S : \E b \in S \ {c} : <<2 * c[1] - b[1], 2 * c[2] - b[2], 2 * c[3] - b[3]>> \in S

(* -------------------------------- state -------------------------------- *)
NoImage == [w |-> 0, h |-> 0, px |-> <<>>]
Fresh == [img |-> NoImage,      \* image of the weights, if any
          usable |-> FALSE,     \* it has weights
          pal |-> <<>>,         \* palette of the current decomposition
          faces |-> {},         \* supporting triangles of the palette
          cols |-> {},          \* colors of a large image
          dirs |-> [c \in {} |-> <<>>],  \* witnesses for colors of long palettes
          inside |-> FALSE,     \* the palette's hull encloses the image
          sure |-> {},          \* pixels that are corners of the RGBXY hull
          layers |-> [c \in {} |-> <<>>]]  \* layers seen so far

HasDec(st) == st.pal # <<>>

(* ---------------- pixels that are certainly hull corners --------------- *)
(* A pixel is a corner of the image's RGBXY hull if no other pixel beats   *)
(* it in some lexicographic order of linear functionals. Two such orders   *)
(* are decided here: position first (the corners of the picture), and      *)
(* "color is a corner of the color hull, position is a corner of the       *)
(* positions that have this color".                                        *)
XY(img, i) == <<(i - 1) % img.w, (i - 1) \div img.w>>
CornerPixels(img) == {1, img.w, (img.h - 1) * img.w + 1, img.h * img.w}

(* Color c maximises one of a fixed family of functionals over all pixels, *)
(* strictly: only pixels of this very color attain the maximum.            *)
Directions == {d \in {-2, -1, 0, 1, 2} \X {-2, -1, 0, 1, 2} \X {-2, -1, 0, 1, 2} : d # <<0, 0, 0>>}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Tops(cols, d) == CHOOSE r \in {{c \in cols : Dot3(d, c) = m}
                                : m \in {MaxOf({Dot3(d, c) : c \in cols})}} : TRUE
ExtremeColorsOf(cols) == UNION {{c \in cols : top = {c}} : top \in {Tops(cols, d) : d \in Directions}}
ExtremeColors(cols) == Let(cols, ExtremeColorsOf)
(* Among the pixels I (of one color) those that are first or last in       *)
(* reading order: corners of their positions' hull.                        *)
EndsOf(I) == {CHOOSE i \in I : \A j \in I : i <= j, CHOOSE i \in I : \A j \in I : i >= j}
SurePixels(img) ==
    LET cols == {img.px[i] : i \in 1..Len(img.px)} IN
       CornerPixels(img)
       \cup UNION {EndsOf({i \in 1..Len(img.px) : img.px[i] = c}) : c \in ExtremeColors(cols)}

(* ------------------------------- results ------------------------------- *)
Within(a, b, tol) == \A i \in 1..3 : Abs(a[i] - b[i]) <= tol

ShapeOk(st, e) == e.w = st.img.w /\ e.h = st.img.h /\ Len(e.px) = st.img.w * st.img.h

(* R01: the identity, if the palette encloses the image.                   *)
IdentityOk(st, e) ==
    (st.inside /\ e.pal = st.pal) =>
        \A i \in 1..Len(e.px) : Within(e.px[i], st.img.px[i], 1)

(* R02: nothing leaves the hull, and hull corners go to the nearest point. *)
(* Pixels come truncated: r <= true < r + 1 in each component.             *)
NoneOutside(st, e) ==
    e.pal = st.pal =>
        \A i \in 1..Len(e.px) : NearHull3(st.faces, e.px[i], 21, 20)

(* The nearest point, exactly, for colors on the 16-level grid 17 * 0..15. *)
OnGrid(c, g) == \A i \in 1..3 : c[i] % g = 0
Shrink(c, g) == <<c[1] \div g, c[2] \div g, c[3] \div g>>
GridPal(st) == \A i \in 1..Len(st.pal) : OnGrid(st.pal[i], 17)
NearestOk(st, e, i) ==
    LET x == st.img.px[i]
        r == e.px[i]
    IN IF InHull3(st.faces, x) THEN Within(r, x, 1)
       ELSE IF GridPal(st) /\ OnGrid(x, 17)
       THEN \E P \in {TLCEval([k \in 1..Len(st.pal) |-> Shrink(st.pal[k], 17)])} :
            \E S \in {SupportTris(P)} :
            \E q \in {Nearest(P, S, Shrink(x, 17))} :
            \A c \in 1..3 :
                 Abs(r[c] * q.den - 17 * q.num[c]) <= q.den + (q.den \div 8)
       ELSE \* Variational inequality, relaxed by the rounding of r
            LET d == Sub3(x, r) IN
            \A k \in 1..Len(st.pal) :
              LET v == Sub3(st.pal[k], r) IN
              Dot3(d, v) <= Norm1(v) + Norm1(d) + 3
NearestsOk(st, e) == e.pal = st.pal => \A i \in st.sure : NearestOk(st, e, i)

(* R03: convex weights, linear reconstruction.                             *)
N(st) == Len(st.pal)
AllLayers(st) == DOMAIN st.layers = 0..(N(st) - 1)
LayerSum(st, i) ==
    LET RECURSIVE S(_)
        S(c) == IF c = N(st) THEN 0 ELSE st.layers[c][i] + S(c + 1)
    IN S(0)
UnityOk(st) ==
    AllLayers(st) =>
        \A i \in 1..Len(st.img.px) :
            LayerSum(st, i) \in (255 - N(st))..256
MixedSum(st, i, q, c) ==
    LET RECURSIVE S(_)
        S(k) == IF k > N(st) THEN 0 ELSE st.layers[k - 1][i] * q[k][c] + S(k + 1)
    IN S(1)
MixtureOk(st, e) ==
    AllLayers(st) =>
        LET q == e.pal
            top == [c \in 1..3 |-> MaxOf({q[k][c] : k \in 1..N(st)})]
        IN \A i \in 1..Len(e.px) :
             LET rest == 255 - LayerSum(st, i) IN
             \A c \in 1..3 :
                LET d == 255 * e.px[i][c] - MixedSum(st, i, q, c)
                IN d >= -258 /\ d <= top[c] * Max2(rest, 0) + 3
RangeOk(st, e) ==
    \A c \in 1..3 :
        LET vals == {e.pal[k][c] : k \in 1..N(st)}
            hi == MaxOf(vals)
            lo == -MaxOf({-v : v \in vals})
        IN \A i \in 1..Len(e.px) : e.px[i][c] >= lo - 1 /\ e.px[i][c] <= hi
(* Replacing the colors of some layers only moves pixels that these layers *)
(* contribute to: follows from MixtureOk, and is checked on its own for    *)
(* pixels in whose other layers all the weight is.                         *)
UniformOk(st, e) ==
    (\A k \in 1..N(st) : e.pal[k] = e.pal[1]) =>
        \A i \in 1..Len(e.px) : Within(e.px[i], e.pal[1], 1)

(* R04: the star mixture of hull corners.                                  *)
Norm2(c) == Dot3(c, c)
Darkest(pal) == {k \in 1..Len(pal) : \A j \in 1..Len(pal) : Norm2(pal[k]) <= Norm2(pal[j])}
(* g is 255 * num / den, truncated, give or take one.                      *)
GrayIs(g, num, den) ==
    LET k == IF den > 4000000 THEN 16 ELSE 1
        n2 == num \div k
        d2 == den \div k
    IN Abs(255 * n2 - g * d2) <= 2 * d2 /\ 255 * n2 - g * d2 >= -d2
(* The layers at pixel i are the barycentric coordinates of the point      *)
(* q/den in the tetrahedron of the palette colors s, a, b, c.              *)
MixIs(st, g, P, q, den, t, s) ==
    LET a == P[t[1]] b == P[t[2]] c == P[t[3]] z == P[s]
        M(v) == <<v[1] * den, v[2] * den, v[3] * den>>
        \* determinants with the point scaled by den in one row
        Dt(o, u, v, w) == Det3(Sub3(u, o), Sub3(v, o), w)
        vol == Det3(Sub3(a, z), Sub3(b, z), Sub3(c, z))
        sg == IF vol > 0 THEN 1 ELSE -1
        rel == <<q[1] - den * z[1], q[2] - den * z[2], q[3] - den * z[3]>>
        ba == sg * Det3(rel, Sub3(b, z), Sub3(c, z))
        bb == sg * Det3(Sub3(a, z), rel, Sub3(c, z))
        bc == sg * Det3(Sub3(a, z), Sub3(b, z), rel)
        dd == sg * vol * den
        bs == dd - ba - bb - bc
        own == {s, t[1], t[2], t[3]}
    IN /\ vol # 0
       /\ ba >= 0 /\ bb >= 0 /\ bc >= 0 /\ bs >= 0
       /\ GrayIs(g[t[1]], ba, dd) /\ GrayIs(g[t[2]], bb, dd)
       /\ GrayIs(g[t[3]], bc, dd) /\ GrayIs(g[s], bs, dd)
       /\ \A k \in 1..Len(P) : k \notin own => g[k] <= 1
StarOk(st, i) ==
    LET g == [k \in 1..N(st) |-> st.layers[k - 1][i]]
        x == st.img.px[i]
        in == InHull3(st.faces, x)
        grid == (\A k \in 1..Len(st.pal) : OnGrid(st.pal[k], 51)) /\ OnGrid(x, 51)
    IN (in \/ grid) =>
       \* (bound by quantifiers so that TLC evaluates them once)
       \E P \in {TLCEval(IF grid THEN [k \in 1..N(st) |-> Shrink(st.pal[k], 51)] ELSE st.pal)} :
       \E S \in {IF in THEN {} ELSE SupportTris(P)} :
       \E q \in {IF in THEN [num |-> IF grid THEN Shrink(x, 51) ELSE x, den |-> 1]
                 ELSE Nearest(P, S, Shrink(x, 51))} :
       \E gg \in {TLCEval(g)} :
       \E s \in Darkest(st.pal) : \E f \in st.faces :
            \* (the faces are index triples, the same for P and the palette)
            MixIs(st, gg, P, q.num, q.den, f.v, s)
StarsOk(st) ==
    AllLayers(st) =>
        \A i \in st.sure : StarOk(st, i)
(* A pixel that has a palette color is that layer alone.                   *)
AnchorsOk(st) ==
    AllLayers(st) =>
        \A i \in st.sure : \A k \in 1..N(st) :
            st.img.px[i] = st.pal[k] =>
                /\ st.layers[k - 1][i] >= 254
                /\ \A m \in 1..N(st) : m # k => st.layers[m - 1][i] <= 1

(* ------------------------------ transitions ---------------------------- *)
ImageOk(st, e) ==
    /\ e.res \in {"ok", "panic"}
    \* Only an image whose RGBXY hull is not solid may be refused
    /\ e.res = "panic" =>
         AffineRank([i \in 1..Len(e.px) |->
             <<e.px[i][1], e.px[i][2], e.px[i][3], (i - 1) % e.w, (i - 1) \div e.w>>]) < 5
    /\ On("R06") => (e.res = "ok" => e.ww = e.w /\ e.wh = e.h)
AfterImage(st, e) ==
    IF e.res = "ok"
    THEN LET img == [w |-> e.w, h |-> e.h, px |-> e.px] IN
         [Fresh EXCEPT !.img = img, !.usable = TRUE,
            !.sure = IF Prop \in {"R02", "R04", "all"} THEN SurePixels(img) ELSE {}]
    ELSE Fresh

DecomposeOk(st, e) ==
    /\ e.res \in {"ok", "err", "panic"}
    /\ On("R05") => /\ e.res \in {"ok", "err"}
                    /\ MustAccept(st, e.pal) => e.res = "ok"
                    /\ MustRefuse(st, e.pal) => e.res = "err"
    /\ On("R06") => (e.res = "ok" => e.n = Len(e.pal) /\ e.w = st.img.w /\ e.h = st.img.h)
    \* the others may rely on usable palettes being accepted
    /\ Prop \notin {"R05"} => (e.res # "ok" => ~MustAccept(st, e.pal))
    /\ e.res = "ok" => Len(e.pal) >= 4 /\ ~Flat3(e.pal)
AfterDecompose(st, e) ==
    IF e.res # "ok" THEN [st EXCEPT !.pal = <<>>, !.faces = {}, !.inside = FALSE, !.layers = Fresh.layers]
    ELSE IF IsLong(e.pal)
    THEN [st EXCEPT !.pal = e.pal, !.faces = {}, !.layers = Fresh.layers,
                    !.inside = {st.img.px[i] : i \in 1..Len(st.img.px)} \cup st.cols \subseteq {e.pal[i] : i \in 1..Len(e.pal)}]
    ELSE CHOOSE r \in {
         [st EXCEPT !.pal = e.pal, !.faces = S,
                    !.inside = /\ \A i \in 1..Len(st.img.px) : InHull3(S, st.img.px[i])
                               /\ \A c \in st.cols : InHull3(S, c),
                    !.layers = Fresh.layers] : S \in {SupportTris(e.pal)}} : TRUE

ReconstructOk(st, e) ==
    /\ HasDec(st)
    /\ e.res \in {"ok", "none", "panic"}
    /\ On("R06") =>
         /\ e.res = IF Len(e.pal) = N(st) THEN "ok" ELSE "none"
         /\ e.res = "ok" => ShapeOk(st, e)
         \* Row-major order and channel order show on images that the palette encloses
         /\ e.res = "ok" => IdentityOk(st, e)
    /\ Prop # "R06" => (Len(e.pal) = N(st) => e.res = "ok" /\ ShapeOk(st, e))
    /\ e.res = "ok" =>
         /\ On("R01") => IdentityOk(st, e)
         /\ On("R02") => NoneOutside(st, e) /\ NearestsOk(st, e)
         /\ On("R03") => MixtureOk(st, e) /\ RangeOk(st, e) /\ UniformOk(st, e)

SeeLayer(st, e) == [st EXCEPT !.layers = TLCEval([c \in DOMAIN @ \cup {e.c} |-> IF c = e.c THEN e.px ELSE @[c]])]
LayerOk(st, e) ==
    /\ HasDec(st)
    /\ e.res \in {"ok", "none", "panic"}
    /\ On("R06") =>
         /\ e.res = IF e.c < N(st) THEN "ok" ELSE "none"
         /\ e.res = "ok" => ShapeOk(st, e)
         \* Seeing a layer again shows the same layer
         /\ (e.res = "ok" /\ e.c \in DOMAIN st.layers) => st.layers[e.c] = e.px
    /\ Prop # "R06" => (e.c < N(st) => e.res = "ok" /\ ShapeOk(st, e))
    /\ e.res = "ok" =>
         \E st2 \in {SeeLayer(st, e)} :
         /\ On("R03") => UnityOk(st2)
         /\ On("R04") => StarsOk(st2) /\ AnchorsOk(st2)
AfterLayer(st, e) == IF e.res = "ok" THEN SeeLayer(st, e) ELSE st

(* Large images: of these only the colors are kept, and what is seen of a  *)
(* reconstruction is what becomes of the pixels of each color.             *)
LargeOk(st, e) ==
    /\ e.res = "ok"
    /\ ~Flat3(e.cols)
    /\ On("R06") => e.ww = e.w /\ e.wh = e.h
AfterLarge(st, e) ==
    [Fresh EXCEPT !.img = [w |-> e.w, h |-> e.h, px |-> <<>>], !.usable = TRUE,
                  !.cols = {e.cols[i] : i \in 1..Len(e.cols)}]
Spread(o, c) == Within(o.lo, c, 1) /\ Within(o.hi, c, 1)
(* Palettes that are affine images of the decomposition palette give the   *)
(* affine image of every color, if the palette encloses the image:         *)
(* inversion of all components, and exchange of components.                *)
Turned == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<3, 2, 1>>, <<1, 3, 2>>}
Affine(t, inv, c) == [i \in 1..3 |-> IF inv THEN 255 - c[t[i]] ELSE c[t[i]]]
LargeAffineOk(st, e) ==
    st.inside =>
        \A t \in Turned : \A inv \in BOOLEAN :
            (\A k \in 1..N(st) : e.pal[k] = Affine(t, inv, st.pal[k])) =>
                \A k \in 1..Len(e.out) : Spread(e.out[k], Affine(t, inv, e.out[k].c))
LargeRangeOk(st, e) ==
    \A c \in 1..3 :
        LET vals == {e.pal[k][c] : k \in 1..N(st)} IN
        \A k \in 1..Len(e.out) :
            /\ \E v \in vals : e.out[k].lo[c] >= v - 1
            /\ \E v \in vals : e.out[k].hi[c] <= v
LargeReconstructOk(st, e) ==
    /\ HasDec(st)
    /\ e.res = IF Len(e.pal) = N(st) THEN "ok" ELSE "none"
    /\ e.res = "ok" =>
         /\ e.w = st.img.w /\ e.h = st.img.h /\ e.len = 3 * e.w * e.h
         /\ {e.out[k].c : k \in 1..Len(e.out)} = st.cols
         /\ (On("R01") \/ On("R06")) /\ st.inside /\ e.pal = st.pal =>
                \A k \in 1..Len(e.out) : Spread(e.out[k], e.out[k].c)
         /\ On("R03") => LargeAffineOk(st, e) /\ LargeRangeOk(st, e)
SumsOk(st, e) ==
    /\ HasDec(st)
    /\ e.res = "ok"
    /\ On("R03") => e.lo >= 255 - N(st) /\ e.hi <= 256

(* One observed step.                                                      *)
StepOk(st, e) ==
    CASE e.ev = "img" -> ImageOk(st, e)
      [] e.ev = "dec" -> DecomposeOk(st, e)
      [] e.ev = "rec" -> ReconstructOk(st, e)
      [] e.ev = "gray" -> LayerOk(st, e)
      [] e.ev = "big" -> LargeOk(st, e)
      [] e.ev = "recbig" -> LargeReconstructOk(st, e)
      [] e.ev = "sums" -> SumsOk(st, e)
      [] e.ev \in {"skip", "dirs"} -> TRUE
      [] OTHER -> FALSE      \* "crash", or something unheard of
After(st, e) ==
    CASE e.ev = "img" -> AfterImage(st, e)
      [] e.ev = "big" -> AfterLarge(st, e)
      [] e.ev = "dec" -> AfterDecompose(st, e)
      [] e.ev = "dirs" -> [st EXCEPT !.dirs = [c \in {x[1] : x \in {e.dirs[i] : i \in 1..Len(e.dirs)}} |->
                              (CHOOSE x \in {e.dirs[i] : i \in 1..Len(e.dirs)} : x[1] = c)[2]]]
      [] e.ev = "gray" -> AfterLayer(st, e)
      [] OTHER -> st
=============================================================================
