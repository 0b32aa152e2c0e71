---------------------------- MODULE MCWblankDetach ----------------------------
EXTENDS Wblank, Json
CONSTANTS MaxItems
WBs == {<< >>, <<<<"a">>>>, <<<<"a">>, <<"b">>>>, <<<<"x", BSL, "]">>>>}
Units == {<<"^", "u", "$">>, <<"^", BSL, "$", "[", "$">>, <<"^", "$">>}
Texts == {<<" ">>, <<BSL, "^">>, <<"$">>, <<"[", "/", "^", "$", "]">>, <<"[", BSL, "]", "]">>, <<"]">>}
Itm == [k : {"unit"}, wb : WBs, x : Units] \cup [k : {"text"}, x : Texts] \cup [k : {"nul"}]
Render(u) == CASE u.k = "unit" -> Header(u.wb) \o u.x [] u.k = "nul" -> <<NUL>> [] OTHER -> u.x
VARIABLES hist, st, inp, out
Init == hist = << >> /\ inp = << >> /\ out = << >> /\ st = DStart(0)
Run(s, tx) == FoldLeft(LAMBDA a, c : LET q == DStep(a.s, c, 0) IN [s |-> q.s, e |-> a.e \o q.e], [s |-> s, e |-> << >>], tx)
RunA(tx) == FoldLeft(LAMBDA a, c : LET q == AStep(a.s, c, 0) IN [s |-> q.s, e |-> a.e \o q.e], [s |-> AStart(0), e |-> << >>], tx).e
Next == /\ Len(hist) < MaxItems
        /\ \E u \in Itm : LET r == Run(st, Render(u)) IN
             /\ hist' = Append(hist, u) /\ st' = r.s /\ inp' = inp \o Render(u) /\ out' = out \o r.e
Want(h) == Cat([i \in 1..Len(h) |-> Render(h[i]) \o (IF h[i].k = "unit" /\ h[i].wb # << >> THEN <<"[", "[", "/", "]", "]">> ELSE << >>)])
Detached  == out = Want(hist)
RoundTrip == RunA(out) = inp        \* attaching again gives the stream back
Dump == (Len(hist) = MaxItems) => PrintT(ToJson([i |-> Str(inp), o |-> Str(out)]))
=============================================================================
