------------------------------ MODULE WblankMode ------------------------------
(***************************************************************************)
(* apertium-wblank-mode: the command line of a mode with word-bound blanks *)
(* attached after analysis and detached before generation, old calls of    *)
(* the transfer with a bilingual dictionary split in two, and -z given to  *)
(* every program when asked for.                                           *)
(* A pipeline is a sequence of stages; a stage is a sequence of words, a   *)
(* word a text (quoted words with their quotes).                           *)
(***************************************************************************)
EXTENDS StreamBase
CONSTANT W       \* words by name
In(t, p) == \E i \in 1..(Len(t) - Len(p) + 1) : SubSeq(t, i, i + Len(p) - 1) = p
Mention(st, p) == \E i \in 1..Len(st) : In(st[i], p)
SomeStage(pl, Test(_)) == \E i \in 1..Len(pl) : Test(pl[i])

\* lt-proc -b somewhere: the bilingual dictionary is looked up before transfer
Splits(pl) == SomeStage(pl, LAMBDA st : \E i \in 1..(Len(st) - 1) : EndsWith(st[i], W.ltproc) /\ StartsWith(st[i + 1], W.b))
Quoted(w) == Len(w) > 2 /\ w[1] = "'" /\ Last1(w) = "'"
Old(st) == Len(st) >= 4 /\ st[1] = W.transfer /\ Quoted(st[2]) /\ Quoted(st[3]) /\ Quoted(st[4]) /\ EndsWith(st[4], W.autobil)
Split(pl) == IF Splits(pl) THEN pl
             ELSE FlattenSeq([i \in 1..Len(pl) |-> LET st == pl[i] IN
                    IF Old(st) THEN << <<W.ltproc, W.b, st[4]>>, <<W.transfer, W.b, st[2], st[3]>> \o SubSeq(st, 5, Len(st)) >> ELSE <<st>>])
HasZ(st) == \E i \in 2..Len(st) : StartsWith(st[i], W.z)
Flushing(st) == IF HasZ(st) THEN st ELSE <<st[1], W.z>> \o Tail(st)
Flush(pl, z) == IF z THEN [i \in 1..Len(pl) |-> Flushing(pl[i])] ELSE pl
Analyser(st) == Mention(st, W.morfbin) \/ Mention(st, W.morfhfst)
Generator(st) == Mention(st, W.genbin) \/ Mention(st, W.genhfst)
Helped(pl) == SomeStage(pl, LAMBDA st : Mention(st, W.wblank))
Recased(pl) == SomeStage(pl, LAMBDA st : Mention(st, W.restorecaps))
Help(pl) == IF Helped(pl) THEN pl
            ELSE FlattenSeq([i \in 1..Len(pl) |-> IF Analyser(pl[i]) THEN <<pl[i], <<W.attach>> >>
                                                  ELSE IF Generator(pl[i]) /\ ~Recased(pl) THEN << <<W.detach>>, pl[i] >> ELSE <<pl[i]>>])
WMode(pl, z) == Help(Flush(Split(pl), z))

\* what must be so
NoHelpers(pl) == SelectSeq(pl, LAMBDA st : st # <<W.attach>> /\ st # <<W.detach>>)
NoZ(pl) == [i \in 1..Len(pl) |-> SelectSeq(pl[i], LAMBDA w : w # W.z)]
PlText(pl) == FlattenSeq([i \in 1..Len(pl) |-> (IF i > 1 THEN <<" ", "|", " ">> ELSE << >>) \o FlattenSeq([j \in 1..Len(pl[i]) |-> (IF j > 1 THEN <<" ">> ELSE << >>) \o pl[i][j]])])
=============================================================================
