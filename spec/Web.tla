-------------------------------- MODULE Web --------------------------------
(* The web page with its worker, as the user and the WebAssembly module    *)
(* see it: the actions of the environment (images picked and loaded,       *)
(* buttons, edits, answers of the worker that arrive), and for each of     *)
(* them the calls the module received and what the page shows after it.    *)
(* The messages between page and worker are not part of the specification. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
ToSet(q) == {q[i] : i \in DOMAIN q}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
(* ---- colors: texts are sequences of character codes                     *)
Hex == (48..57) \cup (65..70) \cup (97..102)
ValidText(t) == Len(t) = 7 /\ t[1] = 35 /\ \A i \in 2..7 : t[i] \in Hex
LowerCode(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(t) == [i \in DOMAIN t |-> LowerCode(t[i])]
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE LowerCode(c) - 87
Byte(t, i) == (16 * Digit(t[i])) + Digit(t[i + 1])
Bytes(t) == <<Byte(t, 2), Byte(t, 4), Byte(t, 6)>>
HexCode(d) == IF d < 10 THEN 48 + d ELSE 87 + d
TextOf(r, g, b) == <<35, HexCode(r \div 16), HexCode(r % 16), HexCode(g \div 16), HexCode(g % 16),
                     HexCode(b \div 16), HexCode(b % 16)>>
(* A color field accepts colors only and becomes black otherwise.          *)
Field(t) == IF ValidText(t) THEN Lower(t) ELSE TextOf(0, 0, 0)
RECURSIVE Concat(_, _)
Concat(qs, i) == IF i > Len(qs) THEN <<>> ELSE qs[i] \o Concat(qs, i + 1)
SrcOf(rows) == Concat([i \in DOMAIN rows |-> Bytes(rows[i].src)], 1)
DstOf(rows) == Concat([i \in DOMAIN rows |-> Bytes(rows[i].dst)], 1)
(* ---- pictures                                                           *)
Rgb(px) == [i \in 1..(3 * (Len(px) \div 4)) |-> px[(4 * ((i - 1) \div 3)) + ((i - 1) % 3) + 1]]
Opaque(w, h, out, ch) ==     \* the picture that shows these bytes (ch per pixel)
    [w |-> w, h |-> h,
     px |-> [i \in 1..(4 * w * h) |-> IF i % 4 = 0 THEN 255
                                      ELSE IF ch = 1 THEN out[((i - 1) \div 4) + 1]
                                      ELSE out[(3 * ((i - 1) \div 4)) + ((i - 1) % 4) + 1]]]
PicOf(m) == [w |-> m.w, h |-> m.h, px |-> m.px]
Matches(images, c) == {m \in DOMAIN images : images[m].w = c.w /\ images[m].h = c.ht /\ Rgb(images[m].px) = c.inp}
(* ---- state                                                              *)
(* cur: the image loaded last (0: none), with its URL; wl, dl: live weights (their       *)
(* image) and decompositions; src: URL of the image on display; bufs, pals: live buffers of the module;      *)
(* layer, last: newest answers for the layers and the recolored image;     *)
(* rows: the palette entries; urls: live object URLs; the rest describes   *)
(* what happened since the page was idle last: want (what the user asked   *)
(* for), fail (a call was refused or threw), srcs, dsts, lims (values the  *)
(* fields have had), madeW, madeP (images weights/palettes came from).     *)
Start == [cur |-> 0, curUrl |-> 0, src |-> 0, wl |-> <<>>, dl |-> <<>>, bufs |-> <<>>, pals |-> <<>>, layer |-> <<>>,
          last |-> [some |-> FALSE], rows |-> <<>>, urls |-> <<>>, want |-> {}, fail |-> FALSE,
          srcs |-> {<<>>}, dsts |-> {<<>>}, lims |-> {}, madeW |-> {}, madeP |-> {}, outs |-> {},
          bad |-> {}]
(* ---- calls of the module: the state after it, violations in st.bad      *)
Flag(st, p, cond) == IF cond THEN st ELSE [st EXCEPT !.bad = @ \cup {p}]
(* The palette the module sees is one that is shown: a wrong one has been  *)
(* sent by the page or been spoiled by the worker.                         *)
Palette(st, cond) == Flag(Flag(st, "W02", cond), "W03", cond)
LiveW(st, h) == h \in DOMAIN st.wl
LiveD(st, h) == h \in DOMAIN st.dl
Failing(st, c) == IF c.thr \/ c.ret = 0 THEN [st EXCEPT !.fail = TRUE] ELSE st
Alloc(st, c) == [st EXCEPT !.bufs = Put(@, c.ret, c.n)]
FreeBuf(st, c) ==
    LET ok == c.p \in DOMAIN st.bufs /\ st.bufs[c.p] = c.n
    IN [Flag(st, "W02", ok) EXCEPT !.bufs = Del(@, {c.p})]
FreePal(st, c) ==
    LET ok == c.p \in DOMAIN st.pals /\ st.pals[c.p] = c.n
    IN [Flag(st, "W02", ok) EXCEPT !.pals = Del(@, {c.p})]
NewWeights(st, c, images) ==
    LET ms == Matches(images, c)
        s1 == Failing(Flag(st, "W02", ms # {}), c)
    IN IF c.thr \/ c.ret = 0 \/ ms = {} THEN s1
       ELSE [s1 EXCEPT !.wl = Put(@, c.ret, ms), !.madeW = @ \cup ms]
NewPalette(st, c, images) ==
    LET ms == Matches(images, c)
        s1 == Flag(Flag(st, "W02", ms # {}), "W03", c.lim \in st.lims)
    IN IF c.thr THEN [s1 EXCEPT !.fail = TRUE]
       ELSE [s1 EXCEPT !.pals = Put(@, c.ret, c.n), !.madeP = @ \cup ms]
NewDecomp(st, c) ==
    LET s1 == Palette(Flag(st, "W01", LiveW(st, c.h)), c.inp \in st.srcs)
        s2 == Failing(s1, c)
    IN IF c.thr \/ c.ret = 0 \/ ~LiveW(st, c.h) THEN s2
       ELSE [s2 EXCEPT !.dl = Put(@, c.ret, [m |-> st.wl[c.h], src |-> c.inp, n |-> c.n]),
                       !.layer = Del(@, {x \in DOMAIN @ : x[1] = c.ret})]
Recolor(st, c) ==
    LET s1 == Failing(Palette(Flag(st, "W01", LiveD(st, c.h)), c.inp \in st.dsts), c)
        pic == Opaque(c.w, c.ht, c.out, 3)
    IN IF c.thr \/ c.ret = 0 \/ ~LiveD(st, c.h) THEN s1
       ELSE [s1 EXCEPT !.last = [some |-> TRUE, d |-> c.h, m |-> st.dl[c.h].m, src |-> st.dl[c.h].src, dst |-> c.inp, pic |-> pic],
                       !.outs = @ \cup {pic}]
Layer(st, c) ==
    LET s1 == Failing(Flag(st, "W01", LiveD(st, c.h)), c)
        pic == Opaque(c.w, c.ht, c.out, 1)
    IN IF c.thr \/ c.ret = 0 \/ ~LiveD(st, c.h) THEN s1
       ELSE [s1 EXCEPT !.layer = Put(@, <<c.h, c.n>>, pic), !.outs = @ \cup {pic}]
Call(st0, c, images) ==
    LET st == Flag(st0, "W02", ~c.oob)
    IN CASE c.f = "create_image_buffer" -> Alloc(st, c)
         [] c.f = "free_image_buffer" -> FreeBuf(st, c)
         [] c.f = "free_computed_palette" -> FreePal(st, c)
         [] c.f = "create_image_weights" -> NewWeights(st, c, images)
         [] c.f = "compute_palette" -> NewPalette(st, c, images)
         [] c.f = "create_decomposed_image" -> NewDecomp(st, c)
         [] c.f = "reconstruct_image" -> Recolor(st, c)
         [] c.f = "grayscale_image_channel" -> Layer(st, c)
         [] c.f = "free_image_weights" -> [Flag(st, "W01", LiveW(st, c.h)) EXCEPT !.wl = Del(@, {c.h})]
         [] c.f = "free_decomposed_image" -> [Flag(st, "W01", LiveD(st, c.h)) EXCEPT !.dl = Del(@, {c.h})]
         [] OTHER -> Flag(st, "W01", LiveD(st, c.h))          \* getters
RECURSIVE Calls(_, _, _, _)
Calls(st, cs, images, i) == IF i > Len(cs) THEN st ELSE Calls(TLCEval(Call(st, cs[i], images)), cs, images, i + 1)
(* ---- the environment                                                    *)
Trigger(st, e) ==
    CASE e.env = "load" -> [st EXCEPT !.cur = e.img, !.curUrl = e.shown.src, !.want = @ \cup {"load"}]
      [] e.env \in {"out", "pal"} -> [st EXCEPT !.want = @ \cup {e.env}]
      [] OTHER -> st
(* ---- the palette entries after the step                                 *)
Palettes(e) == {i \in DOMAIN e.calls : e.calls[i].f = "compute_palette" /\ ~e.calls[i].thr}
Filled(row, out, i) ==
    LET t == TextOf(out[(3 * i) - 2], out[(3 * i) - 1], out[3 * i])
    IN row.src = t /\ row.dst = t /\ Lower(row.srct) = t /\ Lower(row.dstt) = t
Edited(old, new, e) ==
    CASE e.fld = "src" -> new.src = Field(e.text) /\ Lower(new.srct) = new.src /\ new.dst = old.dst /\ new.dstt = old.dstt
      [] e.fld = "dst" -> new.dst = Field(e.text) /\ Lower(new.dstt) = new.dst /\ new.src = old.src /\ new.srct = old.srct
      [] e.fld = "srct" -> new.srct = e.text /\ new.src = (IF ValidText(e.text) THEN Lower(e.text) ELSE old.src)
                           /\ new.dst = old.dst /\ new.dstt = old.dstt
      [] e.fld = "dstt" -> new.dstt = e.text /\ new.dst = (IF ValidText(e.text) THEN Lower(e.text) ELSE old.dst)
                           /\ new.src = old.src /\ new.srct = old.srct
Same(a, b) == a.src = b.src /\ a.srct = b.srct /\ a.dst = b.dst /\ a.dstt = b.dstt
RowsOk(old, e) ==
    LET new == e.rows
        ps == Palettes(e)
    IN IF ps # {}
       THEN LET c == e.calls[CHOOSE i \in ps : \A j \in ps : j <= i]
            IN Len(new) = c.n /\ \A i \in 1..c.n : Filled(new[i], c.out, i)
       ELSE /\ Len(new) = Len(old)
            /\ \A i \in DOMAIN new :
                  IF e.env = "edit" /\ e.row = i THEN Edited(old[i], new[i], e) ELSE Same(old[i], new[i])
(* ---- object URLs                                                        *)
RECURSIVE Made(_, _, _)
Made(urls, q, i) == IF i > Len(q) THEN urls
                    ELSE Made(Put(urls, q[i].u, [file |-> q[i].file, pic |-> PicOf(q[i])]), q, i + 1)
Displayed(e) == ({e.shown.src, e.shown.dst} \cup {e.rows[i].u : i \in DOMAIN e.rows}) \ {0}
Once(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
(* ---- the image on display: the one picked last, before that the example *)
SourceOk(st, urls, e) ==
    LET shows == /\ e.shown.src \in DOMAIN urls
                 /\ urls[e.shown.src].file = e.img
    IN IF e.img # 0 /\ (e.env = "pick" \/ (e.env = "fetched" /\ st.src = 0))
       THEN shows ELSE e.shown.src = st.src
(* ---- when the page is idle                                              *)
Idle(e) == e.wait = 0
Settled(st, e) ==           \* the image shown is the one loaded last
    st.cur # 0 /\ e.shown.src = st.curUrl
Asked(st, e) ==             \* what the user asked for has been done and is shown
    ~st.fail /\ st.want # {} /\ Settled(st, e)
      => /\ "load" \in st.want => st.cur \in st.madeW /\ st.cur \in st.madeP /\ DOMAIN st.wl # {}
         /\ "pal" \in st.want => st.cur \in st.madeP
         /\ (DOMAIN st.wl # {} /\ Len(e.rows) > 0)
              => /\ st.last.some
                 /\ st.cur \in st.last.m /\ st.last.src \in st.srcs /\ st.last.dst \in st.dsts
                 /\ e.shown.dst \in DOMAIN st.urls
                 /\ st.urls[e.shown.dst].pic = st.last.pic
                 /\ \A i \in DOMAIN e.rows :
                       /\ <<st.last.d, i - 1>> \in DOMAIN st.layer
                       /\ e.rows[i].u \in DOMAIN st.urls
                       /\ st.urls[e.rows[i].u].pic = st.layer[<<st.last.d, i - 1>>]
W01Idle(st, e) ==
    /\ Cardinality(DOMAIN st.wl) <= 1 /\ Cardinality(DOMAIN st.dl) <= 1
    /\ Settled(st, e) => \A h \in DOMAIN st.wl : st.cur \in st.wl[h]
    /\ e.off = <<FALSE, FALSE, FALSE>> /\ ~e.spin
(* ---- one step: the state after it, in which `bad` names the properties  *)
(* that the step violates (a page or worker that never comes back: all)    *)
Shown(st, e) ==             \* values the fields have now count for what is sent from now on
    [st EXCEPT !.srcs = @ \cup {SrcOf(e.rows)}, !.dsts = @ \cup {DstOf(e.rows)}, !.lims = @ \cup {e.lim}]
Step(st, e, images) ==
    IF e.env = "hang" THEN [st EXCEPT !.bad = {"W01", "W02", "W03"}] ELSE
    LET a == Calls([Trigger(st, e) EXCEPT !.bad = {}], e.calls, images, 1)
        b == Flag(Flag(a, "W02", e.tidy /\ DOMAIN a.bufs = {} /\ DOMAIN a.pals = {}),
                  "W01", e.env = "ans" => Len(e.ans) = 1 /\ e.ans[1].id = e.req)
        c == Flag(b, "W03", RowsOk(st.rows, e))
        urls == Made(c.urls, e.made, 1)
        d == Flag(Flag(c, "W03", Once(e.gone) /\ ToSet(e.gone) \subseteq DOMAIN urls /\ Displayed(e) \subseteq DOMAIN urls \ ToSet(e.gone)),
                  "W02", \A i \in DOMAIN e.made : e.made[i].file = 0 => PicOf(e.made[i]) \in c.outs)
        v == Flag(d, "W03", SourceOk(st, urls, e))
        f == Shown([v EXCEPT !.urls = Del(urls, ToSet(e.gone)), !.rows = e.rows, !.src = e.shown.src], e)
    IN IF ~Idle(e) THEN f
       ELSE LET g == Flag(f, "W01", W01Idle(f, e))
                h == Flag(g, "W03", DOMAIN f.urls = Displayed(e) /\ Asked(f, e))
            IN [h EXCEPT !.want = {}, !.fail = FALSE, !.srcs = {SrcOf(e.rows)}, !.dsts = {DstOf(e.rows)},
                         !.lims = {e.lim}, !.madeW = {}, !.madeP = {}, !.outs = {},
                         !.layer = [k \in {x \in DOMAIN h.layer : x[1] \in DOMAIN h.dl} |-> h.layer[k]]]
=============================================================================
