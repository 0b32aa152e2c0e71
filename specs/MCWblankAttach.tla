---------------------------- MODULE MCWblankAttach ----------------------------
EXTENDS Wblank, Json
CONSTANTS MaxItems, Rich

Ids == {<<"a">>, <<"b">>, <<"c">>}
Opens == {<<<<"a">>>>, <<<<"b">>>>, <<<<"a">>, <<"b">>>>, <<<<"b">>, <<"c">>>>} \cup (IF Rich THEN {<< >>, <<<<"c">>, <<"c">>>>, <<<<"x", BSL, "]">>>>} ELSE {})
Texts == {<<" ">>, <<"[", "/", "]">>} \cup (IF Rich THEN {<<BSL, "[">>, <<"]">>, <<"[", BSL, "[", "]">>} ELSE {})
Units == {<<"^", "u", "$">>} \cup (IF Rich THEN {<<"^", "[", "[", "a", "]", "]", "$">>, <<"^", BSL, "$", "[", "$">>} ELSE {})
Itm == [k : {"open"}, ids : Opens, v : IF Rich THEN {0, 1} ELSE {0}] \cup [k : {"close"}] \cup [k : {"unit"}, x : Units] \cup [k : {"text"}, x : Texts] \cup [k : {"nul"}]

OpenTx(ids, v) == <<"[", "[">> \o (IF v = 1 THEN <<";", " ">> ELSE << >>)
   \o Cat([i \in 1..Len(ids) |-> (IF i > 1 THEN (IF v = 1 THEN <<";">> ELSE <<";", " ">>) ELSE << >>) \o ids[i]])
   \o (IF v = 1 THEN <<" ", ";">> ELSE << >>) \o <<"]", "]">>
Render(u) == CASE u.k = "open" -> OpenTx(u.ids, u.v) [] u.k = "close" -> <<"[", "[", "/", "]", "]">> [] u.k = "nul" -> <<NUL>> [] OTHER -> u.x

VARIABLES hist, st, inp, out
vars == <<hist, st, inp, out>>
Init == hist = << >> /\ inp = << >> /\ out = << >> /\ st = AStart(0)
Run(s, tx) == FoldLeft(LAMBDA a, c : LET q == AStep(a.s, c, 0) IN [s |-> q.s, e |-> a.e \o q.e], [s |-> s, e |-> << >>], tx)
Next == /\ Len(hist) < MaxItems
        /\ \E u \in Itm : LET r == Run(st, Render(u)) IN
             /\ hist' = Append(hist, u) /\ st' = r.s /\ inp' = inp \o Render(u) /\ out' = out \o r.e

(* The property, stated over the structure: a unit's header is the ordered,   *)
(* duplicate-free union of the spans that enclose it since the last flush.    *)
RECURSIVE Spans(_)      \* open spans after a history: sequence of id sequences
Spans(h) ==
  IF h = << >> THEN << >> ELSE
  LET p == Spans(SubSeq(h, 1, Len(h) - 1))  u == Last1(h) IN
  CASE u.k = "open"  -> Append(p, u.ids)
    [] u.k = "close" -> IF p = << >> THEN p ELSE SubSeq(p, 1, Len(p) - 1)
    [] u.k = "nul"   -> << >>
    [] OTHER         -> p
EnclosingIds(h) == AddNew(<< >>, Cat(Spans(h)))
RECURSIVE Want(_)
Want(h) ==
  IF h = << >> THEN << >> ELSE
  LET p == SubSeq(h, 1, Len(h) - 1)  u == Last1(h) IN
  Want(p) \o (CASE u.k = "unit" -> Header(EnclosingIds(p)) \o u.x
                [] u.k \in {"text"} -> u.x [] u.k = "nul" -> <<NUL>> [] OTHER -> << >>)
Attached == out = Want(hist) /\ st.mode = "text"
NoDup == \A i, j \in 1..Len(st.open) : st.open[i] = st.open[j] => i = j
Dump == (Len(hist) = MaxItems) => PrintT(ToJson([i |-> Str(inp), o |-> Str(out)]))
=============================================================================
