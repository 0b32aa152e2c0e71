----------------------------- MODULE MCDocxRuns -----------------------------
\* every paragraph that can be written with up to MaxLen strokes (a character, a new run, other content), and
\* the paragraphs of a file
EXTENDS DocxRuns, Json, IOUtils, TLC
CONSTANTS MaxLen
Strokes == {"a", "l", "-", "·", " ", "new", "stay", "thin"}
AlphaC == {"a", "b", "l", "L", "é", "ß", "Ж", "中", "x"}
Given == ndJsonDeserialize(IOEnv.CASES)
VARIABLES p, n, given, o
Run(t) == [k |-> "run", t |-> t, pre |-> FALSE, post |-> FALSE]
Init == p = << >> /\ n = 0 /\ given \in -15..0 /\ o = << >>
Write(c) == p # << >> /\ p[Len(p)].k = "run" /\ p' = [p EXCEPT ![Len(p)].t = Append(@, c)]
Next == \/ /\ given = 0 /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED given
           /\ \E s \in Strokes : \/ s = "new" /\ p' = Append(p, Run(<< >>))
                                 \/ s \in {"stay", "thin"} /\ p # << >> /\ p[Len(p)].k = "run" /\ p' = Append(p, [k |-> s])
                                 \/ s \notin {"new", "stay", "thin"} /\ Write(s)
           /\ o' = Adapt(p')
        \/ given < 0 /\ p = << >> /\ (\E i \in 1..Len(Given) : i % 15 = given + 15 /\ p' = Given[i].p /\ given' = i) /\ UNCHANGED n /\ o' = Adapt(p')
O == o
\* nothing of the text is lost, and none of it is moved over other content
RECURSIVE Txt(_, _)
Txt(q, i) == IF i > Len(q) THEN << >> ELSE (IF q[i].k = "run" THEN (IF q[i].pre THEN <<"#">> ELSE << >>) \o q[i].t \o (IF q[i].post THEN <<"#">> ELSE << >>)
                                            ELSE IF q[i].k = "rest" THEN <<"#">> ELSE IF q[i].k = "stay" THEN <<"#">> ELSE << >>) \o Txt(q, i + 1)
SameText == (\A j \in Runs(p) : ~(p[j].pre /\ p[j].post)) => Txt(O, 1) = Txt(p, 1)
\* no run ends inside a word any more
Left == SelectSeq(O, LAMBDA x : x.k # "gone")
NoCut == LET T == TLCEval(Table(Left)) IN \A j \in DOMAIN T : T[j].b # 0 => ~Inside(T[j].x, T[T[j].b].e)
\* text is moved to the left only, and only as far as the end of the word
LeftOnly == LET T == TLCEval(Table(p)) IN \A j \in DOMAIN T : T[j].ne >= T[j].e /\ \A m \in T[j].e..(T[j].ne - 1) : Inside(T[j].x, m)
\* doing it again changes nothing
Again == Adapt(Left) = Left
Dump == (given > 0 \/ (given = 0 /\ p # << >>)) => PrintT(ToJson([g |-> given, p |-> p, o |-> O]))
=============================================================================
