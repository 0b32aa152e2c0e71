------------------------------ MODULE Perceptron ------------------------------
(* The averaged perceptron tagger: what the features of a word are, how a sentence *)
(* is tagged with weighted features, and what is learnt from a corpus.             *)
(*                                                                                *)
(* Text is a sequence of characters.  A unit is [surf, ans], an analysis a sequence *)
(* of words [lem, tags].  A tagging is a sequence of analyses, Untagged for a unit  *)
(* that has none.  Positions count from 0, as in an .mtx file.                     *)
(* An .mtx file is [labels, pred, macros, feats, beam]: pred is a condition or      *)
(* [k |-> "none"], macros are [args, body], a feat is a sequence of steps.          *)
EXTENDS Tagger, FiniteSetsExt
Ch(s) == s
Word(l, t) == [lem |-> l, tags |-> <<t>>]
UntaggedWord == Word(<<"!","U","N","T","A","G","G","E","D","!">>, <<"!","U","T","!">>)
Before == Word(<<"!","T","O","K","_","U","N","D","E","R","F","L","O","W","!">>, <<"!","T","U","F","!">>)
After  == Word(<<"!","T","O","K","_","O","V","E","R","F","L","O","W","!">>, <<"!","T","O","F","!">>)
SurfBefore == <<"!","S","U","R","F","_","U","N","D","E","R","F","L","O","W","!">>
SurfAfter  == <<"!","S","U","R","F","_","O","V","E","R","F","L","O","W","!">>
Untagged == <<UntaggedWord>>
Int2Chars == [n \in -20..40 |-> LET d == <<"0","1","2","3","4","5","6","7","8","9">>
                                    a == IF n < 0 THEN -n ELSE n
                                    p == IF a < 10 THEN <<d[a + 1]>> ELSE <<d[(a \div 10) + 1], d[(a % 10) + 1]>>
                                IN IF n < 0 THEN <<"-">> \o p ELSE p]
Clamp(lo, hi, x) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

(* -------------------------------- coarse tags ---------------------------------- *)
LPar == <<"T","A","G","_","L","P","A","R">>
RPar == <<"T","A","G","_","R","P","A","R">>
LQuest == <<"T","A","G","_","L","Q","U","E","S","T">>
Cm == <<"T","A","G","_","C","M">>
Sent == <<"T","A","G","_","S","E","N","T">>
Undef == <<"T","A","G","_","k","U","N","D","E","F">>
Coarse(sp, w) ==
  LET s == w.lem \o [i \in DOMAIN w.tags |-> "<" \o Text(w.tags[i]) \o ">"]
      t == TagOf(sp, s)
  IN IF t = NoTag THEN Undef
     ELSE IF t < 5 THEN <<LPar, RPar, LQuest, Cm, Sent>>[t + 1]
     ELSE sp.labels[t - 6].name
Joined(sep, ss) == FoldLeft(LAMBDA a, i : a \o (IF i = 1 THEN ss[i] ELSE sep \o ss[i]), << >>, [i \in DOMAIN ss |-> i])

(* -------------------------------- expressions ---------------------------------- *)
\* c: [sp, ts (the tagging so far), us (the units), t, w (the word), vars]
Words1(c, t) == IF t < 0 THEN <<Before>> ELSE IF t >= Len(c.ts) THEN <<After>> ELSE c.ts[t + 1]
WordOf(c, a) == LET ws == Words1(c, a.t) IN
                IF a.t < 0 \/ a.t >= Len(c.ts) THEN ws[1]
                ELSE IF a.w < 0 THEN Before ELSE IF a.w >= Len(ws) THEN After ELSE ws[a.w + 1]
\* the same word, counted from the unit it is in
RECURSIVE Adjust(_, _)
Adjust(c, a) == IF a.t < 0 \/ a.t >= Len(c.ts) THEN a
                ELSE IF a.w < 0 /\ a.t > 0 THEN Adjust(c, [t |-> a.t - 1, w |-> a.w + Len(c.ts[a.t])])
                ELSE IF a.w >= Len(c.ts[a.t + 1]) /\ a.t < Len(c.ts) - 1 THEN Adjust(c, [t |-> a.t + 1, w |-> a.w - Len(c.ts[a.t + 1])])
                ELSE a
\* from a (from the end if negative; the last one if there is none) up to b (from the end if not positive)
Slice(s, a, b) == LET x == Clamp(0, IF s = << >> THEN 0 ELSE Len(s) - 1, IF a < 0 THEN Len(s) + a ELSE a)
                      y == Clamp(x, Len(s), IF b <= 0 THEN Len(s) + b ELSE b)
                  IN SubSeq(s, x + 1, y)
Nth(s, i) == s[Clamp(0, Len(s) - 1, IF i < 0 THEN Len(s) + i ELSE i) + 1]
SurfAt(c, t) == IF t < 0 THEN SurfBefore ELSE IF t >= Len(c.us) THEN SurfAfter ELSE c.us[t + 1].surf
AnsAt(c, t) == IF t < 0 THEN <<<<Before>>>> ELSE IF t >= Len(c.us) THEN <<<<After>>>> ELSE c.us[t + 1].ans
Range1(s) == {s[i] : i \in DOMAIN s}
With1(c, v, x) == [c EXCEPT !.vars = (v :> x) @@ @]
RECURSIVE Ev(_, _)
Ev(e, c) ==
  CASE e.k = "int" -> e.v
    [] e.k = "sentlen" -> Len(c.us)
    [] e.k = "tokaddr" -> c.t
    [] e.k = "wrdidx" -> c.w
    [] e.k = "add" -> Ev(e.a, c) + Ev(e.b, c)
    [] e.k = "toklen" -> Len(Words1(c, Ev(e.a, c)))
    [] e.k \in {"strlen", "arrlen"} -> Len(Ev(e.a, c))
    \* conditions
    [] e.k = "and" -> \A i \in DOMAIN e.es : Ev(e.es[i], c)
    [] e.k = "or" -> \E i \in DOMAIN e.es : Ev(e.es[i], c)
    [] e.k = "not" -> ~Ev(e.a, c)
    [] e.k = "eq" -> Ev(e.a, c) = Ev(e.b, c)
    [] e.k = "neq" -> Ev(e.a, c) # Ev(e.b, c)
    [] e.k = "lt" -> Ev(e.a, c) < Ev(e.b, c)
    [] e.k = "lte" -> Ev(e.a, c) <= Ev(e.b, c)
    [] e.k = "gt" -> Ev(e.a, c) > Ev(e.b, c)
    [] e.k = "gte" -> Ev(e.a, c) >= Ev(e.b, c)
    [] e.k = "streq" -> Ev(e.a, c) = e.s
    [] e.k = "strin" -> Ev(e.a, c) \in Range1(e.set)
    [] e.k = "sethasany" -> Range1(Ev(e.a, c)) \cap Range1(e.set) # {}
    [] e.k = "sethasall" -> Range1(Ev(e.a, c)) \subseteq Range1(e.set)
    \* strings
    [] e.k = "surf" -> SurfAt(c, Ev(e.a, c))
    [] e.k = "lemma" -> Ev(e.a, c).lem
    [] e.k = "coarse" -> Coarse(c.sp, Ev(e.a, c))
    [] e.k = "join" -> Joined(e.sep, Ev(e.a, c))
    \* lists
    [] e.k = "slice" -> Slice(Ev(e.a, c), e.from, e.to)
    [] e.k = "subscript" -> Nth(Ev(e.a, c), e.i)
    [] e.k = "tags" -> Ev(e.a, c).tags
    [] e.k = "ambgset" -> LET as == AnsAt(c, Ev(e.a, c)) IN
                          [i \in DOMAIN as |-> Joined(<<"+">>, [j \in DOMAIN as[i] |-> Coarse(c.sp, as[i][j])])]
    [] e.k = "foreach" -> LET s == Ev(e.in, c) IN [i \in DOMAIN s |-> Ev(e.body, With1(c, e.as, s[i]))]
    [] e.k = "wordoids" -> Words1(c, Ev(e.a, c))
    [] e.k = "wordoid" -> WordOf(c, Ev(e.a, c))
    \* addresses
    [] e.k = "wrdaddr" -> [t |-> c.t, w |-> c.w]
    [] e.k = "ints" -> [t |-> Ev(e.a, c), w |-> Ev(e.b, c)]
    [] e.k = "addaddr" -> LET x == Ev(e.a, c) y == Ev(e.b, c) IN [t |-> x.t + y.t, w |-> x.w + y.w]
    [] e.k = "adjust" -> Adjust(c, Ev(e.a, c))
    [] e.k = "clamp" -> LET x == Ev(e.a, c) t == Clamp(0, Len(c.ts) - 1, x.t)
                        IN [t |-> t, w |-> Clamp(0, Len(c.ts[t + 1]) - 1, x.w)]
    \* names
    [] e.k = "var" -> c.vars[e.name]
    [] e.k = "macro" -> LET m == c.sp.macros[e.m]
                            free == [c EXCEPT !.vars = << >>]
                        IN Ev(m.body, [c EXCEPT !.vars = [x \in Range1(m.args) |-> Ev(e.args[CHOOSE i \in DOMAIN m.args : m.args[i] = x], free)]])

(* --------------------------------- features ------------------------------------ *)
\* the features begun so far, each a sequence of parts; << >>: the <feat> gives nothing
RECURSIVE Steps(_, _, _)
Step(st, c, fs) ==
  IF fs = << >> THEN << >>
  ELSE CASE st.k = "pred" -> IF Ev(st.a, c) THEN fs ELSE << >>
         [] st.k = "outstr" -> LET x == Ev(st.a, c) IN [i \in DOMAIN fs |-> Append(fs[i], x)]
         [] st.k = "outint" -> LET x == Int2Chars[Ev(st.a, c)] IN [i \in DOMAIN fs |-> Append(fs[i], x)]
         [] st.k = "outbool" -> LET x == IF Ev(st.a, c) THEN <<"t">> ELSE <<"f">> IN [i \in DOMAIN fs |-> Append(fs[i], x)]
         [] st.k = "outmany" -> LET xs == Ev(st.a, c)
                                IN FoldLeft(LAMBDA acc, x : acc \o [i \in DOMAIN fs |-> Append(fs[i], x)], << >>, xs)
         [] st.k = "each" -> LET xs == Ev(st.in, c)
                             IN FoldLeft(LAMBDA acc, x : Steps(<<st.body>>, With1(c, st.as, x), acc), fs, xs)
Steps(sts, c, fs) == FoldLeft(LAMBDA acc, st : Step(st, c, acc), fs, sts)
\* the features of word w of unit t, with the number of the <feat> that made each
Features(sp, ts, us, t, w) ==
  LET c == [sp |-> sp, ts |-> ts, us |-> us, t |-> t, w |-> w, vars |-> << >>]
  IN IF sp.pred.k # "none" /\ ~Ev(sp.pred, c) THEN << >>
     ELSE FoldLeft(LAMBDA acc, i : acc \o LET fs == Steps(sp.feats[i], c, <<<< >>>>) IN [j \in DOMAIN fs |-> [f |-> i - 1, p |-> fs[j]]],
                   << >>, [i \in DOMAIN sp.feats |-> i])
\* of all words of the last unit tagged, ts
Bag(fs) == [x \in Range1(fs) |-> Cardinality({i \in DOMAIN fs : fs[i] = x})]
UnitFeatures(sp, ts, us) == FoldLeft(LAMBDA acc, w : acc \o Features(sp, ts, us, Len(ts) - 1, w - 1), << >>, [w \in DOMAIN ts[Len(ts)] |-> w])

(* ---------------------------------- weights ------------------------------------ *)
NoVec == [x \in {} |-> 0]
Get(v, x) == IF x \in DOMAIN v THEN v[x] ELSE 0
Plus(u, v) == [x \in DOMAIN u \cup DOMAIN v |-> Get(u, x) + Get(v, x)]
Minus(u, v) == [x \in DOMAIN u \cup DOMAIN v |-> Get(u, x) - Get(v, x)]
Dot(w, v) == FoldSet(LAMBDA x, acc : acc + Get(w, x) * v[x], 0, DOMAIN v)

(* -------------------------------- beam search ---------------------------------- *)
\* an item is [ts, score, vec]; the items that may be left of S when k are kept: all that
\* are better than another must be preferred to it
Kept(S, k) == IF Cardinality(S) <= k THEN {S}
              ELSE LET must == {x \in S : Cardinality({y \in S : y.score >= x.score}) <= k}
                       n == k - Cardinality(must)
                       rest == S \ must
                       top == IF n = 0 THEN {} ELSE {x \in rest : \A y \in rest : x.score >= y.score}
                   IN {must \cup B : B \in kSubset(n, top)}
Best(S) == {x \in S : \A y \in S : x.score >= y.score}
Start == {[ts |-> << >>, score |-> 0, vec |-> NoVec]}
All(S, a) == {[x EXCEPT !.ts = Append(@, a)] : x \in S}
\* all continuations by the analyses of unit us[t]
Grow(sp, W, S, us) ==
  {LET ts == Append(x.ts, a) v == Bag(UnitFeatures(sp, ts, us))
   IN [ts |-> ts, score |-> x.score + Dot(W, v), vec |-> Plus(x.vec, v)]
   : <<x, a>> \in UNION {{<<x, us[Len(x.ts) + 1].ans[i]>> : i \in DOMAIN us[Len(x.ts) + 1].ans} : x \in S}}

(* ---------------------------------- sentences ---------------------------------- *)
IsEnd(u) == Len(u.ans) = 1 /\ Len(u.ans[1]) = 1 /\ u.ans[1][1].tags = <<<<"s","e","n","t">>>>
\* with sent_seg a blank must follow
EndsHere(u, seg) == IsEnd(u) /\ (seg => u.blank)
RECURSIVE Sentences(_, _, _)
Sentences(us, cur, seg) ==
  IF us = << >> THEN (IF cur = << >> THEN << >> ELSE <<cur>>)
  ELSE IF EndsHere(us[1], seg) THEN <<Append(cur, us[1])>> \o Sentences(Tail(us), << >>, seg)
  ELSE Sentences(Tail(us), Append(cur, us[1]), seg)

(* ------------------------------- training corpus -------------------------------- *)
\* tagged and untagged text side by side; a sentence is a sequence of [u, a]: the unit and its
\* analysis.  Refused unless skip is set: the texts differ; never accepted: one is longer
RECURSIVE PastEnd(_, _, _)
PastEnd(us, i, seg) == IF i > Len(us) THEN 0 ELSE IF EndsHere(us[i], seg) THEN i + 1 ELSE PastEnd(us, i + 1, seg)
RECURSIVE Corpus(_, _, _, _, _, _)
Corpus(tg, un, i, j, cur, o) ==
  IF i > Len(tg) /\ j > Len(un) THEN [ok |-> TRUE, ss |-> IF cur = << >> THEN << >> ELSE <<cur>>]
  ELSE IF i > Len(tg) \/ j > Len(un) THEN [ok |-> FALSE, ss |-> << >>]
  ELSE IF tg[i].surf # un[j].surf
  THEN IF ~o.skip THEN [ok |-> FALSE, ss |-> << >>]
       ELSE LET a == PastEnd(tg, i, o.seg) b == PastEnd(un, j, o.seg)
            IN IF a = 0 /\ b = 0 THEN [ok |-> TRUE, ss |-> << >>]
               ELSE IF a = 0 \/ b = 0 THEN [ok |-> FALSE, ss |-> << >>]
               ELSE Corpus(tg, un, a, b, << >>, o)
  ELSE LET s == Append(cur, [u |-> un[j], a |-> IF tg[i].ans = << >> THEN Untagged ELSE tg[i].ans[1]])
       IN IF EndsHere(tg[i], o.seg)
          THEN LET r == Corpus(tg, un, i + 1, j + 1, << >>, o) IN [r EXCEPT !.ss = <<s>> \o @]
          ELSE Corpus(tg, un, i + 1, j + 1, s, o)
===============================================================================
