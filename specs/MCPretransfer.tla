---------------------------- MODULE MCPretransfer -----------------------------
(***************************************************************************)
(* All streams of up to MaxItems items over a small vocabulary, read one   *)
(* character at a time; the property (the declarative Expected output of   *)
(* each item) is checked against the character machine.                    *)
(***************************************************************************)
EXTENDS Pretransfer, Json

CONSTANTS MaxItems, Rich

Tx(s) == s
Lemmas == IF Rich THEN {<<"a">>, <<BSL, "+">>, <<BSL, "$", "b">>, << >>} ELSE {<<"a">>, <<BSL, "+">>}
Tags   == {<<"<", "n", ">">>, <<"<", "x", "+", "~", ">", "<", "y", ">">>}
Heads  == {<<"a">>, <<"*", "u", "+", "v">>, <<"@", "w", "~">>}
Seps   == {"+", "~"}
Queues == {<< >>, <<"#", " ", "q">>}
WBs    == IF Rich THEN {<< >>, <<"[", "[", "w", "]", "]">>, <<"[", "[", BSL, "]", ";", "[", "]", "]">>}
                  ELSE {<< >>, <<"[", "[", "w", "]", "]">>}
Piece  == [lem : Lemmas, tags : Tags]
Unit1  == [k : {"u"}, wb : WBs, ps : {<<p>> : p \in Piece}, sep : {"+"}, q : Queues, q1 : {FALSE}, sf : {<<"s">>, <<BSL, "/">>}]
Unit2  == [k : {"u"}, wb : WBs, ps : {<<p, r>> : p \in Piece, r \in Piece}, sep : Seps, q : Queues, q1 : BOOLEAN, sf : {<<"S", BSL, BSL>>}]
UnitU  == [k : {"u"}, wb : WBs, ps : {<<[lem |-> h, tags |-> << >>]>> : h \in Heads}, sep : {"+"}, q : {<< >>}, q1 : {FALSE}, sf : {<<"s">>}]
Texts  == {<<" ">>, <<BSL, "^">>, <<"+">>, <<"#", "~">>, <<NUL>>, <<"[", "b", "^", "+", "$", BSL, "]", "]">>, <<"[", "]">>}
TextI  == [k : {"t"}, x : Texts]
Items  == IF Rich THEN Unit1 \cup Unit2 \cup UnitU \cup TextI
          ELSE {u \in Unit1 \cup Unit2 \cup UnitU : u.sf[1] # BSL} \cup TextI
\* q1: the queue sits right after the first piece (followed by the joined words), as in ^a<n># q+b<m>$
Legal(u) == IF u.k = "t" THEN TRUE ELSE (~(u.q1 /\ u.q = << >>) /\ ~(u.q1 /\ u.sep = "~") /\ ~(Len(u.ps) = 2 /\ u.sep = "~" /\ u.q # << >> /\ u.q1))

SepTx(u, opt) == u.wb
Render(u, opt) ==
  IF u.k = "t" THEN u.x
  ELSE u.wb \o <<"^">> \o (IF opt.n THEN u.sf \o <<"/">> ELSE << >>)
       \o Cat([i \in 1..Len(u.ps) |->
            (IF i > 1 THEN <<u.sep>> ELSE << >>) \o u.ps[i].lem \o u.ps[i].tags
            \o (IF u.q # << >> /\ ((u.q1 /\ i = 1) \/ (~u.q1 /\ i = Len(u.ps))) THEN u.q ELSE << >>)])
       \o <<"$">>

\* The property: head word takes the queue, each joined word becomes a unit of its own with the
\* word-bound blank of the whole, everything else is unchanged.
Expected(u, opt) ==
  IF u.k = "t" THEN u.x
  ELSE IF u.sep = "~" /\ ~opt.e /\ Len(u.ps) = 2
  THEN u.wb \o <<"^">> \o u.ps[1].lem \o u.q \o u.ps[1].tags \o <<"~">> \o u.ps[2].lem \o u.ps[2].tags \o <<"$">>
  ELSE Cat([i \in 1..Len(u.ps) |->
            (IF i > 1 /\ u.sep = "+" THEN <<" ">> ELSE << >>) \o u.wb \o <<"^">> \o u.ps[i].lem
            \o (IF i = 1 THEN u.q ELSE << >>) \o u.ps[i].tags \o <<"$">>])

VARIABLES opt, todo, st, inp, out, want, n
vars == <<opt, todo, st, inp, out, want, n>>

Init == /\ opt \in [e : BOOLEAN, n : BOOLEAN]
        /\ todo = << >> /\ inp = << >> /\ out = << >> /\ want = << >> /\ n = 0
        /\ st = PStart(opt)

PickItem == /\ todo = << >> /\ n < MaxItems
            /\ \E u \in Items : /\ Legal(u)
                                /\ todo' = Render(u, opt)
                                /\ want' = want \o Expected(u, opt)
                                /\ inp' = inp \o Render(u, opt)
            /\ n' = n + 1
            /\ UNCHANGED <<opt, st, out>>

ReadChar == /\ todo # << >>
            /\ LET r == FoldLeft(LAMBDA a, c : LET q == PStep(a.s, c, opt) IN [s |-> q.s, e |-> a.e \o q.e],
                                 [s |-> st, e |-> << >>], todo)
               IN st' = r.s /\ out' = out \o r.e
            /\ todo' = << >>
            /\ UNCHANGED <<opt, inp, want, n>>

Next == PickItem \/ ReadChar

SplitsCorrectly == todo = << >> => out = want
BackInText      == todo = << >> => st.mode = "text" /\ st.buf = << >>
\* the case is handed to the replay driver
Dump == (todo = << >> /\ n > 0) => PrintT(ToJson([e |-> opt.e, n |-> opt.n, i |-> Str(inp), o |-> Str(out)]))
=============================================================================
