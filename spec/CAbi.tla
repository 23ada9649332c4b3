-------------------------------- MODULE CAbi --------------------------------
(***************************************************************************)
(* The C interface: handles, what the functions return, and the heap.      *)
(*                                                                         *)
(* The library itself is a constant table `lib` of results (recorded from  *)
(* the Rust interface): lib.imgs[i] = [w, h], lib.pals[p] = number of      *)
(* colors, lib.dec[i][p] = [ok, gray, rec] where gray[c] are the bytes of  *)
(* layer c - 1 and rec[p2] those of the image recolored with palette p2,   *)
(* and lib.calls[c] = [i, out]: the bytes of computed palettes.            *)
(*                                                                         *)
(* State: W, D, P map handle numbers to what the handles stand for; foot   *)
(* maps handles to their share of the heap (blocks and bytes).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<>>
Fresh == [W |-> <<>>, D |-> <<>>, P |-> <<>>, foot |-> <<>>, base |-> <<0, 0>>]
Has(f, h) == h \in DOMAIN f
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, v) == (h :> v) @@ f

(* ------------------------ rules for the client ------------------------- *)
Allowed(st, lib, e) ==
    CASE e.ev \in {"data", "base", "audit"} -> TRUE
      [] e.ev = "newW" -> ~Has(st.W, e.h)
      [] e.ev = "freeW" -> Has(st.W, e.h)
      [] e.ev = "newD" -> ~Has(st.D, e.h) /\ Has(st.W, e.w)
      [] e.ev = "freeD" -> Has(st.D, e.h)
      [] e.ev = "newP" -> ~Has(st.P, e.h)
      [] e.ev \in {"freeP", "seeP"} -> Has(st.P, e.h)
      [] e.ev = "size" -> Has(st.D, e.h)
      [] e.ev = "gray" -> Has(st.D, e.h)
      [] e.ev = "rec" -> Has(st.D, e.h) /\ lib.pals[e.x] = lib.pals[st.D[e.h].p]
      [] OTHER -> FALSE

(* -------------------------------- results ------------------------------ *)
Of(st, lib, h) == lib.dec[st.D[h].i][st.D[h].p]
ResultOk(st, lib, e) ==
    CASE e.ev \in {"data", "base", "audit", "freeW", "freeD", "freeP"} -> TRUE
      [] e.ev = "newW" -> e.null = 0
      [] e.ev = "newD" -> (e.null = 0) = lib.dec[st.W[e.w]][e.p].ok
      [] e.ev = "newP" -> /\ e.null = 0
                          /\ 3 * e.n = Len(e.out)
                          /\ e.out = lib.calls[e.c].out
      [] e.ev = "seeP" -> e.out = st.P[e.h]
      [] e.ev = "size" -> /\ e.w = lib.imgs[st.D[e.h].i].w /\ e.hh = lib.imgs[st.D[e.h].i].h
                          /\ e.n = lib.pals[st.D[e.h].p]
      [] e.ev = "rec" -> e.ret = 1 /\ e.same = 1 /\ e.out = Of(st, lib, e.h).rec[e.x]
      [] e.ev = "gray" ->
            IF e.x < lib.pals[st.D[e.h].p]
            THEN e.ret = 1 /\ e.same = 1 /\ e.out = Of(st, lib, e.h).gray[e.x + 1]
            ELSE e.ret = 0 /\ e.untouched = 1 /\ e.same = 1

(* --------------------------------- heap -------------------------------- *)
RECURSIVE Sum(_, _, _)
Sum(f, S, j) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x][j] + Sum(f, S \ {x}, j)
Expected(st, j) == st.base[j] + Sum(st.foot, DOMAIN st.foot, j)
Name(e) == CASE e.ev \in {"newW", "freeW"} -> <<"W", e.h>>
             [] e.ev \in {"newD", "freeD"} -> <<"D", e.h>>
             [] e.ev \in {"newP", "freeP"} -> <<"P", e.h>>
Creates(e) == e.ev \in {"newW", "newD", "newP"} /\ e.null = 0
Releases(e) == e.ev \in {"freeW", "freeD", "freeP"}
Foot(st, e) == <<e.live - Expected(st, 1), e.bytes - Expected(st, 2)>>
(* Creating a handle allocates its share, releasing it returns exactly     *)
(* that; nothing else changes the heap. No block is released twice or with *)
(* another size, nothing is written to released blocks or beyond blocks.   *)
HeapOk(st, e) ==
    /\ e.bad = <<0, 0, 0, 0, 0, 0>>
    /\ IF e.ev = "base" THEN TRUE
       ELSE IF Creates(e) THEN Foot(st, e)[1] >= 1
       ELSE IF Releases(e) THEN /\ e.live = Expected(st, 1) - st.foot[Name(e)][1]
                                /\ e.bytes = Expected(st, 2) - st.foot[Name(e)][2]
       ELSE e.live = Expected(st, 1) /\ e.bytes = Expected(st, 2)
(* The part of it that concerns inputs and outputs.                        *)
BuffersOk(e) == e.bad[5] = 0 /\ e.bad[6] = 0 /\ e.bad[3] = 0

(* ------------------------------ transitions ---------------------------- *)
After(st, e) ==
    LET a == CASE e.ev = "newW" /\ e.null = 0 -> [st EXCEPT !.W = With(@, e.h, e.i)]
               [] e.ev = "freeW" -> [st EXCEPT !.W = Without(@, e.h)]
               [] e.ev = "newD" /\ e.null = 0 -> [st EXCEPT !.D = With(@, e.h, [i |-> st.W[e.w], p |-> e.p])]
               [] e.ev = "freeD" -> [st EXCEPT !.D = Without(@, e.h)]
               [] e.ev = "newP" /\ e.null = 0 -> [st EXCEPT !.P = With(@, e.h, e.out)]
               [] e.ev = "freeP" -> [st EXCEPT !.P = Without(@, e.h)]
               [] e.ev = "base" -> [Fresh EXCEPT !.base = <<e.live, e.bytes>>]
               [] OTHER -> st
    IN IF Creates(e) THEN [a EXCEPT !.foot = With(@, Name(e), Foot(st, e))]
       ELSE IF Releases(e) THEN [a EXCEPT !.foot = Without(@, Name(e))]
       ELSE a
=============================================================================
