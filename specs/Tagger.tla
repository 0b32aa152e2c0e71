-------------------------------- MODULE Tagger --------------------------------
(* apertium-tagger with a tagset: the coarse tags of a unit, the HMM and the     *)
(* sliding-window model, and what is written.                                    *)
(*                                                                               *)
(* A tagset is [labels, prefer, discard]; label i has tag number 6 + i (0..6 are *)
(* the built-in ones).  A label is a list of patterns, a pattern a list of items *)
(* [lem, tags] joined by "+".  A unit is [bl, surf, unk, anas]; text is a        *)
(* sequence of symbols as in RuleLang.                                           *)
EXTENDS RuleLang, SequencesExt, Json, IOUtils
SENT == 4
KEOF == 5
KUNDEF == 6
Text(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
Sub(s, a, b) == SubSeq(s, a, b)

(* ------------------------------- coarse tags ---------------------------------- *)
\* "*" stands for one or more tags
RECURSIVE TagsOK(_, _)
TagsOK(p, s) == IF p = << >> THEN s = << >>
                ELSE IF s = << >> THEN FALSE
                ELSE IF p[1] = "*" THEN TagsOK(Tail(p), Tail(s)) \/ TagsOK(p, Tail(s))
                ELSE p[1] = s[1] /\ TagsOK(Tail(p), Tail(s))
\* lemma, tags, and after them the invariable part of a multiword
ItemOK(it, s) ==
  LET T == TagPos(s)
      n == IF T = {} THEN Len(s) ELSE MinS(T) - 1
      H == {i \in n+1..Len(s) : s[i] = "#" /\ i > 1 /\ IsTag(s[i-1])}
      e == IF H = {} THEN Len(s) ELSE MinS(H) - 1
  IN /\ n > 0
     /\ \A i \in n+1..e : IsTag(s[i])
     /\ \A i \in e+1..Len(s) : ~IsTag(s[i])
     /\ it.lem = << >> \/ LowerV(Sub(s, 1, n)) = it.lem
     /\ TagsOK(it.tags, Sub(s, n + 1, e))
RECURSIVE SeqOK(_, _)
SeqOK(its, s) == IF Len(its) = 1 THEN ItemOK(its[1], s)
                 ELSE \E k \in 2..Len(s) : s[k] = "+" /\ ItemOK(its[1], Sub(s, 1, k - 1)) /\ SeqOK(Tail(its), Sub(s, k + 1, Len(s)))
\* the tags every tagset has come first
Builtin == <<"<lpar>", "<rpar>", "<lquest>", "<cm>", "<sent>">>
NoTag == -1
TagOf(ts, s) == LET L == {i \in DOMAIN ts.labels : \E q \in DOMAIN ts.labels[i].pats : SeqOK(ts.labels[i].pats[q], s)}
                    S == {i \in 1..5 : ItemOK([lem |-> << >>, tags |-> <<Builtin[i]>>], s)}
                IN IF S # {} THEN MinS(S) - 1 ELSE IF L = {} THEN NoTag ELSE 6 + MinS(L)
\* the longest part that has a coarse tag and ends at a "+" or at the end, and so on from there
RECURSIVE Cut(_, _)
Cut(ts, s) ==
  LET K == {k \in 1..Len(s) : (IF k = Len(s) THEN TRUE ELSE s[k+1] = "+") /\ TagOf(ts, Sub(s, 1, k)) # NoTag}
  IN IF K = {} THEN <<[t |-> KUNDEF, s |-> s]>>
     ELSE LET k == MaxS(K) IN
          IF k = Len(s) THEN <<[t |-> TagOf(ts, s), s |-> s]>>
          ELSE <<[t |-> TagOf(ts, Sub(s, 1, k)), s |-> Sub(s, 1, k)]>> \o Cut(ts, Sub(s, k + 2, Len(s)))

\* a <prefer> or <discard> rule stands somewhere in the tags
RECURSIVE TagsAt(_, _)
TagsAt(p, s) == IF p = << >> THEN TRUE
                ELSE IF s = << >> THEN FALSE
                ELSE IF p[1] = "*" THEN IsTag(s[1]) /\ (TagsAt(Tail(p), Tail(s)) \/ TagsAt(p, Tail(s)))
                ELSE p[1] = s[1] /\ TagsAt(Tail(p), Tail(s))
HasTags(p, s) == \E i \in DOMAIN s : TagsAt(p, Sub(s, i, Len(s)))

(* one form per coarse tag: the first one, or the last one a <prefer> rule names *)
AddForm(ts, lf, x) ==
  IF x.t \notin DOMAIN lf THEN lf @@ (x.t :> x.s)
  ELSE IF \E i \in DOMAIN ts.prefer : HasTags(ts.prefer[i], x.s) THEN [lf EXCEPT ![x.t] = x.s] ELSE lf
(* <discard-on-ambiguity>: forms a rule names are dropped while there is another *)
RECURSIVE Drop(_, _, _)
Drop(p, lf, from) ==
  LET C == {t \in DOMAIN lf : t >= from /\ HasTags(p, lf[t])}
  IN IF C = {} \/ Cardinality(DOMAIN lf) < 2 THEN lf
     ELSE LET d == MinS(C) IN Drop(p, [t \in DOMAIN lf \ {d} |-> lf[t]], d + 1)
Discard(ts, lf) == FoldLeft(LAMBDA a, p : Drop(p, a, 0), lf, ts.discard)

(* the words the tagger sees of one unit: one, or one per part of the analyses *)
NoLF == [x \in {} |-> << >>]
Words(ts, u) ==
  IF u.unk THEN <<[bl |-> u.bl, surf |-> u.surf, first |-> TRUE, last |-> TRUE, lf |-> NoLF, eof |-> FALSE]>>
  ELSE LET P == [a \in DOMAIN u.anas |-> Cut(ts, u.anas[a])]
           n == Len(P[1])
       IN [j \in 1..n |->
            [bl |-> IF j = 1 THEN u.bl ELSE "", surf |-> u.surf, first |-> j = 1, last |-> j = n, eof |-> FALSE,
             lf |-> Discard(ts, FoldLeft(LAMBDA f, a : AddForm(ts, f, P[a][j]), NoLF, [a \in DOMAIN u.anas |-> a]))]]
EofWord(tail) == [bl |-> tail, surf |-> << >>, first |-> TRUE, last |-> TRUE, lf |-> KEOF :> << >>, eof |-> TRUE]
\* the domain of the specification: what a unit may look like
InDomain(ts, u) == u.unk \/ \A a, b \in DOMAIN u.anas :
                      LET p == Cut(ts, u.anas[a]) q == Cut(ts, u.anas[b]) IN
                      /\ Len(p) = Len(q) 
                      /\ (Len(p) > 1 => \A j \in 2..Len(p) : p[j] = q[j])
TagsOfWord(w) == DOMAIN w.lf

(* ---------------------------------- output ------------------------------------ *)
\* o: [f, p, m] the options
Write(w, t, o) ==
  IF w.eof THEN w.bl
  ELSE w.bl
    \o (IF w.first THEN (IF o.m /\ Cardinality(DOMAIN w.lf) > 1 THEN "^=" ELSE "^") ELSE "")
    \o (IF w.first /\ (o.p \/ o.f) THEN Text(w.surf) \o "/" ELSE "")
    \o (IF w.lf = NoLF THEN "*" \o Text(w.surf) ELSE Text(w.lf[t]))
    \o (IF o.f /\ w.lf # NoLF
        THEN FoldLeft(LAMBDA a, x : IF x \in DOMAIN w.lf /\ x # t THEN a \o "/" \o Text(w.lf[x]) ELSE a, "", [x \in 1..40 |-> x]) ELSE "")
    \o (IF w.last THEN "$" ELSE "+")
Show(u) == u.bl \o "^" \o Text(u.surf) \o (IF u.unk THEN "/*" \o Text(u.surf) ELSE FoldLeft(LAMBDA a, x : a \o "/" \o Text(x), "", u.anas)) \o "$"

(* ----------------------------------- models ----------------------------------- *)
\* m: [open, classes, A, B] ; A[i+1][j+1] and B[i+1][k] are logarithms
Open(m) == {m.open[i] : i \in DOMAIN m.open}
Class(m, k) == {m.classes[k][i] : i \in DOMAIN m.classes[k]}
\* the class of a word: its own, or the smallest that contains it (the first of these), or the open one
ClassOf(m, T) ==
  LET own == {k \in DOMAIN m.classes : Class(m, k) = T}
      S == {k \in DOMAIN m.classes : T \subseteq Class(m, k) /\ Cardinality(Class(m, k)) < Cardinality(Open(m))}
      B == {k \in S : \A l \in S : Cardinality(Class(m, l)) >= Cardinality(Class(m, k))}
  IN IF own # {} THEN MinS(own)
     ELSE IF B # {} THEN MinS(B)
     ELSE CHOOSE k \in DOMAIN m.classes : Class(m, k) = Open(m)
HTags(m, w) == IF w.lf = NoLF THEN Open(m) ELSE DOMAIN w.lf
\* what the model is asked about a word: its possible tags and its class
Ask(m, w) == [T |-> HTags(m, w), k |-> ClassOf(m, HTags(m, w))]
(* a stretch of words ends in a word with one tag; its most probable tag sequences: *)
\* by definition
RECURSIVE Paths(_)
Paths(qs) == IF qs = << >> THEN {<< >>} ELSE {<<t>> \o p : t \in qs[1].T, p \in Paths(Tail(qs))}
Score(m, t0, qs, p) == FoldLeft(LAMBDA a, i : a + m.A[(IF i = 1 THEN t0 ELSE p[i-1]) + 1][p[i] + 1] + m.B[p[i] + 1][qs[i].k], 0, [i \in 1..Len(qs) |-> i])
BestPaths(m, t0, qs) == LET sc == [p \in Paths(qs) |-> Score(m, t0, qs, p)]
                            top == MaxS({sc[p] : p \in DOMAIN sc})
                        IN {p \in DOMAIN sc : sc[p] = top}
\* word by word: the best ways to reach every tag of the last word; best : tag -> [s: score, P: paths]
StartAt(t) == t :> [s |-> 0, P |-> {<< >>}]
Extend(m, best, q) ==
  [t \in q.T |->
     LET sc == [u \in DOMAIN best |-> best[u].s + m.A[u + 1][t + 1] + m.B[t + 1][q.k]]
         top == MaxS({sc[u] : u \in DOMAIN sc})
     IN [s |-> top, P |-> UNION {{Append(p, t) : p \in best[u].P} : u \in {u \in DOMAIN sc : sc[u] = top}}]]

(* sliding window: D[l+1][c+1][r+1]; the tag of a word depends on all the tags of its neighbours *)
WTags(w) == DOMAIN w.lf
RECURSIVE SumThird(_)
SumThird(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[3] + SumThird(S \ {x})
WScore(m, L, c, R) == SumThird({<<x[1], x[2], m.D[x[1] + 1][c + 1][x[2] + 1]>> : x \in L \X R})
BestWindow(m, L, w, R) == IF w.lf = NoLF THEN {KUNDEF} ELSE {c \in WTags(w) : \A d \in WTags(w) : WScore(m, L, d, R) <= WScore(m, L, c, R)}
===============================================================================
