--------------------------------- MODULE Caps ---------------------------------
(* Capitalisation: apertium-extract-caps and apertium-restore-caps.              *)
(*                                                                               *)
(* extract: every unit gets the case of its surface form and of its lemma as a   *)
(* word-bound blank item c:SURF/LEMMA.                                           *)
(* restore: rules (patterns over words) vote for the case of the words they      *)
(* cover; at the end of a segment every word takes the case with the most votes, *)
(* "dix" (leave as generated) winning ties, then aa, Aa, AA.                     *)
(* Symbols are as in RuleLang: characters, escaped characters, tags.             *)
EXTENDS RuleLang, SequencesExt, Json, IOUtils

CatAll(ss) == FlattenSeq(ss)
Text(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
Bare(c) == IF IsTag(c) THEN c ELSE IF Len(c) = 2 /\ SubSeq(c,1,1) = "\\" THEN SubSeq(c,2,2) ELSE c

(* ----------------------------------- extract ---------------------------------- *)
\* the lemma text that decides the case: up to the first tag of the last joined part
LemCase(ana) ==
  LET J == {i \in 2..Len(ana) : ana[i] = "+" /\ IsTag(ana[i-1])}
      from == IF J = {} THEN 1 ELSE MaxS(J)
      T == {i \in from..Len(ana) : IsTag(ana[i])}
  IN GetCase(SubSeq(ana, 1, IF T = {} THEN Len(ana) ELSE MinS(T) - 1))
CaseItem(surf, ana) == "c:" \o GetCase(surf) \o "/" \o LemCase(ana)
WB(items) == IF items = << >> THEN "" ELSE "[[" \o FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "; " \o b, "", items) \o "]]"
\* u: [wb: items, surf: symbols, anas: sequence of symbol sequences]
FirstAna(u) == IF u.anas = << >> THEN << >> ELSE u.anas[1]
ExtractIn(u)  == WB(u.wb) \o "^" \o Text(u.surf) \o FoldLeft(LAMBDA a, x : a \o "/" \o Text(x), "", u.anas) \o "$"
ExtractOut(u, keep) == WB(Append(u.wb, CaseItem(u.surf, FirstAna(u)))) \o "^" \o (IF keep THEN Text(u.surf) \o "/" ELSE "") \o Text(FirstAna(u)) \o "$"

(* ----------------------------------- restore ---------------------------------- *)
\* a case specifier: every symbol stands for a run of characters of its class; equal neighbours are one run
InClass(k, c) == CASE k = "*" -> TRUE [] k = " " -> c = " " [] IsUp(k) -> IsUp(c) [] OTHER -> ~IsUp(c)
SameClass(a, b) == a = b \/ (IsUp(a) /\ IsUp(b)) \/ (a \notin {"*", " "} /\ b \notin {"*", " "} /\ ~IsUp(a) /\ ~IsUp(b))
RECURSIVE Squeeze(_)
Squeeze(sp) == IF Len(sp) < 2 THEN sp
               ELSE IF SameClass(sp[1], sp[2]) THEN Squeeze(Tail(sp)) ELSE <<sp[1]>> \o Squeeze(Tail(sp))
RECURSIVE Runs(_, _)
Runs(sp, s) == IF sp = << >> THEN s = << >>
               ELSE \E k \in 1..Len(s) : (\A x \in 1..k : InClass(sp[1], s[x])) /\ Runs(Tail(sp), SubSeq(s, k + 1, Len(s)))
SpecOK(sp, s) == Runs(Squeeze(sp), s)
RECURSIVE LitOK(_, _)
LitOK(p, s) == IF p = << >> THEN s = << >>
               ELSE IF p[1] = "*" THEN \E k \in 1..Len(s) : LitOK(Tail(p), SubSeq(s, k + 1, Len(s)))
               ELSE s # << >> /\ s[1] = p[1] /\ LitOK(Tail(p), Tail(s))
RECURSIVE TagsOK(_, _)
TagsOK(p, s) == IF p = << >> THEN s = << >>
                ELSE CASE p[1] = "*" -> \E k \in 0..Len(s) : TagsOK(Tail(p), SubSeq(s, k + 1, Len(s)))
                       [] p[1] = "+" -> \E k \in 1..Len(s) : TagsOK(Tail(p), SubSeq(s, k + 1, Len(s)))
                       [] p[1] = "?" -> s # << >> /\ TagsOK(Tail(p), Tail(s))
                       [] OTHER -> s # << >> /\ s[1] = p[1] /\ TagsOK(Tail(p), Tail(s))
BareSeq(s) == [i \in DOMAIN s |-> Bare(s[i])]
\* w: [blank, wb (items: [src, lem] | text), form: symbols, surf: symbols, more: other forms]
Case1(w) == LET I == {i \in DOMAIN w.wb : w.wb[i].k = "case"} IN
            IF I = {} THEN [s |-> "aa", l |-> "aa"] ELSE [s |-> w.wb[MinS(I)].s, l |-> w.wb[MinS(I)].l]
LemOf(w) == LET T == {i \in DOMAIN w.form : IsTag(w.form[i])} IN IF T = {} THEN w.form ELSE SubSeq(w.form, 1, MinS(T) - 1)
TagsOf(w) == LET T == {i \in DOMAIN w.form : IsTag(w.form[i])} IN IF T = {} THEN << >> ELSE SubSeq(w.form, MinS(T), Len(w.form))
WordOK(m, w) ==
  /\ SpecOK(m.srcsurf, CaseSyms(Case1(w).s))
  /\ SpecOK(m.srclem, CaseSyms(Case1(w).l))
  /\ IF m.lemma = <<"*">> THEN SpecOK(m.trglem, BareSeq(LemOf(w))) ELSE LitOK(m.lemma, BareSeq(LemOf(w)))
  /\ TagsOK(m.tags, TagsOf(w))
  /\ IF m.surface = <<"*">> THEN SpecOK(m.trgsurf, BareSeq(w.surf)) ELSE LitOK(m.surface, BareSeq(w.surf))

\* all ways body matches from word p on: [p: next word, v: votes of the words covered]
RECURSIVE Finish(_, _, _)
Node(n, ws, p) ==
  CASE n.k = "match"  -> IF p <= Len(ws) THEN (IF WordOK(n, ws[p]) THEN {[p |-> p + 1, v |-> <<n.select>>]} ELSE {}) ELSE {}
    [] n.k = "begin"  -> IF p = 1 THEN {[p |-> p, v |-> << >>]} ELSE {}
    [] n.k = "or"     -> IF n.ch = << >> THEN {[p |-> p, v |-> << >>]} ELSE UNION {Finish(<<n.ch[i]>>, ws, p) : i \in DOMAIN n.ch}
    [] n.k = "repeat" -> UNION {LET RECURSIVE Rep(_, _)
                                    Rep(k, q) == IF k = 0 THEN {[p |-> q, v |-> << >>]}
                                                 ELSE UNION {{[p |-> y.p, v |-> x.v \o y.v] : y \in Rep(k - 1, x.p)} : x \in Finish(n.ch, ws, q)}
                                IN Rep(c, p) : c \in n.from .. n.upto}
Finish(body, ws, p) ==
  IF body = << >> THEN {[p |-> p, v |-> << >>]}
  ELSE UNION {{[p |-> y.p, v |-> x.v \o y.v] : y \in Finish(Tail(body), ws, x.p)} : x \in Node(body[1], ws, p)}

\* the votes rule r can give when word e is its last: one of these
Votes(r, ws, e) == {x.v : x \in {x \in UNION {Finish(r.body, ws, s) : s \in 1..e} : x.p = e + 1 /\ x.v # << >>}}

Win(s) == IF s.dix >= s.AA /\ s.dix >= s.Aa /\ s.dix >= s.aa THEN "dix"
          ELSE IF s.aa >= s.AA /\ s.aa >= s.Aa THEN "aa"
          ELSE IF s.Aa >= s.AA THEN "Aa" ELSE "AA"
Recase(k, s) == IF k = "dix" THEN s ELSE ApplyCase(k, s)
ItemText(x) == IF x.k = "case" THEN "c:" \o x.s \o "/" \o x.l ELSE x.t
WBText(w, keep) == WB([i \in DOMAIN (IF keep THEN w.wb ELSE SelectSeq(w.wb, LAMBDA x : x.k # "case")) |->
                        ItemText((IF keep THEN w.wb ELSE SelectSeq(w.wb, LAMBDA x : x.k # "case"))[i])])
\* of several forms the first is used
WordIn(w)  == w.blank \o WB([i \in DOMAIN w.wb |-> ItemText(w.wb[i])]) \o "^" \o Text(w.form) \o "/" \o Text(w.surf) \o FoldLeft(LAMBDA a, x : a \o "/" \o Text(x), "", w.more) \o "$"
WordOut(w, sc, keep) ==
  LET t == Text(Recase(Win(sc), w.surf)) b == WBText(w, keep) IN w.blank \o (IF b = "" THEN t ELSE b \o t \o "[[/]]")
===============================================================================
