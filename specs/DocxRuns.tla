------------------------------ MODULE DocxRuns ------------------------------
(***************************************************************************)
(* apertium-adapt-docx: the text of a paragraph of an office document is   *)
(* cut into runs of one format each; runs are changed so that none ends    *)
(* inside a word, by moving text to the left only.                         *)
(*                                                                         *)
(* A paragraph is a sequence of items                                      *)
(*   [k |-> "run", t |-> text, pre |-> BOOLEAN, post |-> BOOLEAN]          *)
(*       a run; pre (post): something else, such as a tab, stands in it    *)
(*       before (after) its text                                           *)
(*   [k |-> "stay"]   other content, which text cannot be moved over       *)
(*   [k |-> "thin"]   marks without content, which it can                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT Alpha          \* the letters
A(x, i) == i >= 1 /\ i <= Len(x) /\ x[i] \in Alpha
At(x, i, S) == i >= 1 /\ i <= Len(x) /\ x[i] \in S
Hyphen == {"-"}
Dot == {"·"}
El == {"l", "L"}
\* a run must not end after character i of x
Inside(x, i) ==
  /\ i >= 1 /\ i < Len(x)
  /\ \/ A(x, i) /\ A(x, i + 1)
     \/ A(x, i) /\ At(x, i + 1, Hyphen) /\ A(x, i + 2)
     \/ A(x, i - 1) /\ At(x, i, Hyphen) /\ A(x, i + 1)
     \/ At(x, i, El) /\ At(x, i + 1, Dot) /\ At(x, i + 2, El)
     \/ At(x, i - 1, El) /\ At(x, i, Dot) /\ At(x, i + 1, El)
RECURSIVE Boundary(_, _)
Boundary(x, i) == IF Inside(x, i) THEN Boundary(x, i + 1) ELSE i

Runs(p) == {i \in 1..Len(p) : p[i].k = "run"}
\* text can be moved from run j to the run before it, i
Open(p, i, j) == /\ \A m \in (i + 1)..(j - 1) : p[m].k = "thin"
                 /\ ~p[i].post /\ ~p[j].pre
Before(p, j) == LET S == {i \in Runs(p) : i < j} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A m \in S : m <= i
\* the first run of the group of each item, from left to right
RECURSIVE Firsts(_, _, _, _)
Firsts(p, j, last, f) == IF j > Len(p) THEN f
                         ELSE IF p[j].k # "run" THEN Firsts(p, j + 1, last, Append(f, 0))
                         ELSE Firsts(p, j + 1, j, Append(f, IF last # 0 /\ Open(p, last, j) THEN f[last] ELSE j))
RECURSIVE Text(_, _, _)
Text(p, i, G) == IF i > Len(p) THEN << >> ELSE (IF i \in G THEN p[i].t ELSE << >>) \o Text(p, i + 1, G)
\* of each run: the text of its group, where the run ends in it, where it is to end, the run before it in the group
Table(p) == LET fs == TLCEval(Firsts(p, 1, 0, << >>))
            IN [j \in Runs(p) |-> LET G == {i \in Runs(p) : fs[i] = fs[j]}
                                      x == TLCEval(Text(p, 1, G))
                                      e == Len(Text(p, 1, {i \in G : i <= j}))
                                  IN [x |-> x, e |-> e, ne |-> IF e = 0 THEN 0 ELSE Boundary(x, e), g |-> fs[j], b |-> IF fs[j] = j THEN 0 ELSE Before(p, j)]]
AdaptBy(p, T) ==
  LET changed(j) == \E i \in DOMAIN T : T[i].g = T[j].g /\ T[i].ne # T[i].e
      new(j) == SubSeq(T[j].x, (IF T[j].b = 0 THEN 0 ELSE T[T[j].b].ne) + 1, T[j].ne)
  IN [j \in 1..Len(p) |-> IF j \notin Runs(p) \/ ~changed(j) THEN p[j]
                          ELSE IF new(j) # << >> THEN [p[j] EXCEPT !.t = new(j)]
                          \* a run left without text goes, its other content stays
                          ELSE [k |-> IF p[j].pre \/ p[j].post THEN "rest" ELSE "gone"]]
Adapt(p) == LET T == TLCEval(Table(p)) IN AdaptBy(p, T)
=============================================================================
