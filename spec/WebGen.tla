------------------------------- MODULE WebGen -------------------------------
(* Histories of the page's environment: behaviors of WebModel with the     *)
(* answers' contents, edits and settings added. A history ends when its    *)
(* budget of user actions and failures is used up (the rest is answered).  *)
EXTENDS WebModel, Json
CONSTANTS Mode, Depth, Random, Edits
VARIABLES hist, budget
Pick1(S) == IF S = {} THEN {} ELSE IF Random THEN {RandomElement(S)} ELSE S
Size == IF Random THEN RandomElement(1..MaxRows) ELSE 1 + ((Len(hist) * 2 + budget.u + user) % MaxRows)
ToTextD(d) == IF d < 10 THEN 48 + d ELSE IF Random /\ RandomElement(1..2) = 1 THEN 55 + d ELSE 87 + d
Digits(S) == [i \in 1..7 |-> IF i = 1 THEN 35 ELSE ToTextD(RandomElement(S))]
BadTexts == {<<>>, <<35>>, <<35, 49, 50, 51>>, <<49, 50, 51, 52, 53, 54, 55>>, <<35, 49, 50, 51, 52, 53>>,
             <<35, 49, 50, 51, 52, 53, 54, 55>>, <<35, 49, 50, 51, 52, 53, 103>>, <<35, 71, 50, 51, 52, 53, 48>>,
             <<32, 49, 50, 51, 52, 53, 48>>, <<35, 49, 32, 51, 52, 53, 48>>, <<35, 49, 50, 51, 52, 45, 49>>,
             <<35, 48, 120, 49, 49, 49, 49>>, <<35, 35, 49, 50, 51, 52, 53>>}
Text(fld) == IF fld \in {"src", "dst"} \/ RandomElement(1..3) > 1 THEN Digits(0..15) ELSE RandomElement(BadTexts)
FixedText == <<35, 49 + (Len(hist) % 8), 65 + (user % 6), 50, 102, 48, 54>>
GInit == /\ Init /\ hist = <<>>
         /\ budget \in [u : IF Random THEN {MaxUser} ELSE 0..MaxUser, f : IF Random THEN {RandomElement(0..MaxFail)} ELSE 0..MaxFail]
Add(x) == hist' = Append(hist, x) /\ UNCHANGED budget
CanUser == user < budget.u /\ (~Random \/ p.req = NoReq \/ RandomElement(1..12) = 1)
CanFail == fail < budget.f
GAnswer == \E o \in Pick1({x \in {"ok", "refuse", "throw"} : x \in Outcomes(p.req) /\ (x # "ok" => CanFail /\ (~Random \/ RandomElement(1..6) = 1))}) :
              LET k == Size IN Answer(o, k) /\ Add(<<"ans", o, k>>)
GFetched == \E i \in Pick1(IF CanFail THEN {0, 1} ELSE {1}) : Fetched(i) /\ Add(<<"fetched", i>>)
GLoad == Load /\ Add(<<"load">>)
GPick == CanUser /\ \E i \in Pick1(0..Images) : Pick(i) /\ Add(<<"pick", i>>)
GClick == CanUser /\ \E b \in Pick1({"out", "pal"}) : Click(b) /\ Add(<<b>>)
GEdit == /\ Edits /\ CanUser /\ p.rows > 0 /\ Act
         /\ \E fld \in Pick1(IF Random THEN {"src", "srct", "dst", "dstt"} ELSE {"src", "dstt"}), i \in Pick1(IF Random THEN 1..p.rows ELSE {p.rows}) :
               Add(<<"edit", i, fld, IF Random THEN Text(fld) ELSE FixedText>>)
         /\ UNCHANGED <<p, m, fail, fetch>>
GSet == /\ Edits /\ Random /\ CanUser /\ Act /\ UNCHANGED <<p, m, fail, fetch>>
        /\ \E f \in Pick1(0..2) : Add(<<"set", f, IF f = 2 THEN RandomElement({0, 500, 1000, 1250, 12500}) ELSE RandomElement(4..40)>>)
Spent == user = budget.u /\ fail = budget.f
GNext == /\ (Random \/ ~Spent) /\ Len(hist) < Depth
         /\ GAnswer \/ GFetched \/ GLoad \/ GPick \/ GClick \/ GEdit \/ GSet
GSpec == GInit /\ [][GNext]_<<vars, hist, budget>>
Emit == (IF Random THEN Len(hist) = Depth ELSE Spent \/ Len(hist) = Depth) => PrintT(<<"GEN", ToJson([script |-> hist])>>)
(* ---- texts: every character at every place of each field                *)
Chars == <<32, 35, 43, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 64, 65, 66, 67, 68, 69, 70, 71, 90, 91, 96,
           97, 98, 99, 100, 101, 102, 103, 120, 122, 233, 8364>>
Prelude == <<<<"fetched", 1>>, <<"load">>, <<"ans", "ok", 1>>, <<"ans", "ok", 2>>, <<"ans", "ok", 1>>, <<"ans", "ok", 1>>,
             <<"ans", "ok", 1>>, <<"ans", "ok", 1>>>>
Base == <<35, 97, 66, 48, 57, 99, 54>>
TextScript(fld, pos) ==
    Prelude \o [i \in 1..(2 * Len(Chars)) |->
                  IF i % 2 = 1 THEN <<"edit", 1 + (i % 2), fld, [Base EXCEPT ![pos] = Chars[(i + 1) \div 2]]>>
                  ELSE <<"edit", 1, fld, Base>>]
            \o [n \in 1..9 |-> <<"edit", 2, fld, [j \in 1..(n - 1) |-> IF j = 1 THEN 35 ELSE 49 + ((j + n) % 9)]>>]
            \o <<<<"out">>>>
TInit == /\ Init /\ budget = [u |-> 0, f |-> 0]
         /\ \E fld \in {"src", "srct", "dst", "dstt"}, pos \in 1..7 : hist = TextScript(fld, pos)
TNext == FALSE /\ UNCHANGED <<vars, hist, budget>>
TSpec == TInit /\ [][TNext]_<<vars, hist, budget>>
TEmit == PrintT(<<"GEN", ToJson([script |-> hist])>>)
=============================================================================
