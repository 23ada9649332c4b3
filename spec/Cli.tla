--------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line program: what its arguments mean, and what its runs    *)
(* do to a directory. The state is the directory: a function from names    *)
(* (sequences of bytes) to contents. All texts are sequences of bytes.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* --------------------------- lists of colors --------------------------- *)
Comma == 44
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
Digit(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
(* A list is well formed iff its length is that of n colors with n - 1     *)
(* commas between, every seventh byte is a comma and all others are digits *)
WellFormed(t) == /\ Len(t) % 7 = 6
                 /\ \A i \in 1..Len(t) : IF i % 7 = 0 THEN t[i] = Comma ELSE IsHex(t[i])
Byte(t, i) == 16 * Digit(t[i]) + Digit(t[i + 1])
Parse(t) == [j \in 1..((Len(t) + 1) \div 7) |-> [c \in 1..3 |-> Byte(t, 7 * (j - 1) + 2 * c - 1)]]
NumColors(t) == (Len(t) + 1) \div 7

(* The same said another way: split at the commas, then look at each item. *)
RECURSIVE Split(_, _, _)
Split(t, i, item) == IF i > Len(t) THEN <<item>>
                     ELSE IF t[i] = Comma THEN <<item>> \o Split(t, i + 1, <<>>)
                     ELSE Split(t, i + 1, Append(item, t[i]))
WellFormed2(t) == LET it == Split(t, 1, <<>>) IN
    \A j \in DOMAIN it : Len(it[j]) = 6 /\ \A i \in 1..6 : IsHex(it[j][i])
Parse2(t) == LET it == Split(t, 1, <<>>) IN [j \in DOMAIN it |-> [c \in 1..3 |-> Byte(it[j], 2 * c - 1)]]

LowerHex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
UpperHex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
ShowColor(c, up) == [i \in 1..6 |-> LET b == c[(i + 1) \div 2]
                                        d == IF i % 2 = 1 THEN b \div 16 ELSE b % 16
                                    IN IF up THEN UpperHex(d) ELSE LowerHex(d)]
RECURSIVE ShowList(_, _)
ShowList(p, j) == IF j > Len(p) THEN <<>>
                  ELSE (IF j = 1 THEN <<>> ELSE <<Comma>>) \o ShowColor(p[j], FALSE) \o ShowList(p, j + 1)

(* ------------------------------ file names ----------------------------- *)
Slash == 47
Dot == 46
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
After0(t, S) == IF S = {} THEN 0 ELSE Last(S)
DirEnd(t) == After0(t, {i \in DOMAIN t : t[i] = Slash})
BaseName(t) == SubSeq(t, DirEnd(t) + 1, Len(t))
DirName(t) == SubSeq(t, 1, DirEnd(t))
DotAt(b) == After0(b, {i \in 2..Len(b) : b[i] = Dot})
Stem(b) == IF DotAt(b) = 0 THEN b ELSE SubSeq(b, 1, DotAt(b) - 1)
Extension(b) == IF DotAt(b) = 0 THEN <<>> ELSE SubSeq(b, DotAt(b) + 1, Len(b))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
Channel == <<95, 99, 104, 97, 110, 110, 101, 108, 95>>  \* _channel_
LayerName(out, i, c) ==
    LET b == BaseName(out)
    IN DirName(out) \o Stem(b) \o Channel \o Decimal(i) \o <<95>> \o ShowColor(c, TRUE) \o <<Dot>> \o Extension(b)

(* --------------------------------- runs -------------------------------- *)
Put(fs, n, v) == (n :> v) @@ fs
RECURSIVE PutLayers(_, _, _, _, _)
PutLayers(fs, out, p, layers, i) ==
    IF i > Len(p) THEN fs ELSE PutLayers(Put(fs, LayerName(out, i - 1, p[i]), layers[i]), out, p, layers, i + 1)

Image(w, h, px) == [k |-> "image", w |-> w, h |-> h, px |-> px]

(* `e` describes a run: e.cmd, its arguments, the content e.input of its   *)
(* input file at its start, what the library says (e.lib) about just these *)
(* arguments, the exit status e.code, whether it ended by a signal, and    *)
(* what it printed.                                                        *)
Fails(e) == e.code # 0 /\ e.signal = 0
Succeeds(e) == e.code = 0 /\ e.signal = 0

(* Computing a palette: min in 4..255 and max in 0..255, with defaults     *)
(* 4, 10 and 2/255 (index 0 of the bounds).                                *)
Min(e) == IF e.min = -1 THEN 4 ELSE e.min
Max(e) == IF e.max = -1 THEN 10 ELSE e.max
LimitsOk(e) == Min(e) \in 4..255 /\ Max(e) \in 0..255 /\ e.boundok = 1
Readable(e) == e.input.k = "image"
GenGood(e) == LimitsOk(e) /\ Readable(e) /\ e.lib.res = "ok"
GenOk(e) ==
    IF GenGood(e)
    THEN /\ e.lib.min = Min(e) /\ e.lib.max = Max(e)
         /\ Succeeds(e)
         /\ e.out = ShowList(e.lib.pal, 1) \o <<10>>
    ELSE Fails(e)

(* Recoloring.                                                             *)
ArgsOk(e) == WellFormed(e.d) /\ WellFormed(e.r) /\ NumColors(e.d) = NumColors(e.r)
(* Outputs can be written to directories that exist, in known formats.     *)
Lower(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Formats == {<<112, 110, 103>>, <<98, 109, 112>>, <<116, 103, 97>>, <<116, 105, 102>>, <<116, 105, 102, 102>>}
PlaceOk(e) == /\ \E i \in DOMAIN e.dirs : e.dirs[i] = DirName(e.o)
              /\ \A i \in DOMAIN e.dirs : e.dirs[i] # Append(e.o, Slash)
              /\ Lower(Extension(BaseName(e.o))) \in Formats
RecGood(e) == ArgsOk(e) /\ Readable(e) /\ e.lib.res = "ok" /\ PlaceOk(e)
LibOk(e) == e.lib.d = Parse(e.d) /\ e.lib.r = Parse(e.r)
RecOk(e) == IF RecGood(e) THEN LibOk(e) /\ Succeeds(e) ELSE Fails(e)

RecFs(fs, e) ==
    IF ~RecGood(e) THEN fs
    ELSE LET a == Put(fs, e.o, Image(e.input.w, e.input.h, e.lib.rec))
         IN IF e.c = 0 THEN a ELSE PutLayers(a, e.o, Parse(e.d), e.lib.layers, 1)

(* A probe: the input is a pipe nobody writes to, and e.read says whether  *)
(* the program has opened it. Lists are refused before that.               *)
ProbeOk(e) ==
    IF WellFormed(e.d) /\ WellFormed(e.r)
    THEN (NumColors(e.d) = NumColors(e.r)) => e.read = 1
    ELSE e.read = 0 /\ Fails(e)

Step(fs, e) ==
    CASE e.ev = "gen" -> [ok |-> GenOk(e), fs |-> fs]
      [] e.ev = "rec" -> [ok |-> RecOk(e), fs |-> RecFs(fs, e)]
      [] e.ev = "probe" -> [ok |-> ProbeOk(e), fs |-> fs]
      [] OTHER -> [ok |-> FALSE, fs |-> fs]
=============================================================================
