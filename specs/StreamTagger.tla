------------------------------ MODULE StreamTagger ------------------------------
(* Taggers that work on whole analyses: unigram models 1 to 3, perceptron.          *)
(* An analysis is a sequence of morphemes [lem, tags]; what follows the tags up to   *)
(* the next "+" (the queue of a multiword) belongs to the lemma.                     *)
EXTENDS RuleLang, SequencesExt, Json, IOUtils
Text(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
RunOf(s, from, tag) == \* end of the run of tags (or of other symbols than tags, "+") that starts at from
  LET bad == {i \in from..Len(s) : IF tag THEN ~IsTag(s[i]) ELSE (IsTag(s[i]) \/ s[i] = "+")} IN IF bad = {} THEN Len(s) ELSE MinS(bad) - 1
RECURSIVE Morphs(_)
Morphs(s) ==
  LET T == TagPos(s)
      a == MinS(T) - 1              \* lemma: everything before the first tag
      b == RunOf(s, a + 1, TRUE)
      c == IF b < Len(s) THEN RunOf(s, b + 1, FALSE) ELSE b
      m == [lem |-> SubSeq(s, 1, a) \o SubSeq(s, b + 1, c), tags |-> SubSeq(s, a + 1, b)]
  IN <<m>> \o (IF c < Len(s) THEN Morphs(SubSeq(s, c + 2, Len(s))) ELSE << >>)
Spell(ms) == FoldLeft(LAMBDA a, m : (IF a = "" THEN "" ELSE a \o "+") \o Text(m.lem) \o Text(m.tags), "", ms)
\* what is written for unit u when analysis a (an index; 0: none) is chosen
WriteUnit(u, a, o) ==
  u.bl \o "^"
  \o (IF u.unk THEN (IF o.p THEN Text(u.surf) \o "/" ELSE "") \o "*" \o Text(u.surf)
      ELSE LET ms == [i \in DOMAIN u.anas |-> Morphs(u.anas[i])] IN
           (IF o.m /\ Len(u.anas) # 1 THEN "=" ELSE "")
           \o (IF o.p THEN Text(u.surf) \o "/" ELSE "")
           \o Spell(ms[a])
           \o (IF o.f THEN FoldLeft(LAMBDA acc, x : IF x # ms[a] THEN acc \o "/" \o Spell(x) ELSE acc, "", ms) ELSE ""))
  \o "$"

(* ---------------------------------- training ---------------------------------- *)
\* corpus: sequence of sequences of analyses.  A unit with n analyses gives each 1/n,
\* in units of 1/Coef: the product of the n that did not divide the product so far
Coef(corpus) == FoldLeft(LAMBDA c, u : IF c % Len(u) # 0 THEN c * Len(u) ELSE c, 1, corpus)
Sum(f, S) == FoldSet(LAMBDA x, acc : f[x] + acc, 0, S)
Occ(corpus) == {<<u, a>> : u \in 1..Len(corpus), a \in 1..8} \* pairs that exist are selected below
Places(corpus) == {x \in Occ(corpus) : x[2] <= Len(corpus[x[1]])}
\* weights of all places: place -> count
Weight(corpus) == LET c == Coef(corpus) IN [x \in Places(corpus) |-> c \div Len(corpus[x[1]])]
At(corpus, x) == corpus[x[1]][x[2]]
Total(corpus, w, P(_)) == Sum(w, {x \in DOMAIN w : P(At(corpus, x))})

(* ----------------------------------- scores ----------------------------------- *)
(* a score is a quotient of products, [n, d] the factors; products are compared exactly,  *)
(* as sequences of digits to the base 10000, lowest first                                 *)
RECURSIVE Carry(_, _)
Carry(ds, c) == IF ds = << >> THEN (IF c = 0 THEN << >> ELSE <<c % 10000>> \o Carry(<< >>, c \div 10000))
                ELSE LET x == ds[1] + c IN <<x % 10000>> \o Carry(Tail(ds), x \div 10000)
Times(ds, f) == Carry([i \in DOMAIN ds |-> ds[i] * f], 0)
Product(fs) == FoldLeft(Times, <<1>>, fs)
RECURSIVE Less(_, _)
Less(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y)
              ELSE IF x = << >> THEN FALSE
              ELSE IF x[Len(x)] # y[Len(y)] THEN x[Len(x)] < y[Len(y)]
              ELSE Less(SubSeq(x, 1, Len(x) - 1), SubSeq(y, 1, Len(y) - 1))
Mul(p, q) == [n |-> p.n \o q.n, d |-> p.d \o q.d]
Lt(p, q) == Less(Product(p.n \o q.d), Product(q.n \o p.d))
Lem(m) == m.lem
Score1(corpus, w, a) == [n |-> <<1 + Sum(w, {x \in DOMAIN w : At(corpus, x) = a})>>, d |-> << >>]
Rest(a) == <<a[1].tags, Tail(a)>>
Score2(corpus, w, a) ==
  LET Same == {x \in DOMAIN w : Rest(At(corpus, x)) = Rest(a)}
      Mine == {x \in Same : At(corpus, x)[1].lem = a[1].lem}
      types == Cardinality({At(corpus, x)[1].lem : x \in Same})
      r == 1 + Sum(w, Mine)
      t == 1 + Sum(w, Same)
      ty == IF Same = {} THEN 1 ELSE IF Mine = {} THEN 1 + types ELSE types
  IN [n |-> <<r, t>>, d |-> <<t + ty>>]
\* pairs of neighbouring morphemes: the tags of the first and the second morpheme
Pairs(corpus, w) == {<<x, n>> \in (DOMAIN w) \X (2..6) : n <= Len(At(corpus, x))}
Score3(corpus, w, a) ==
  LET M1(x) == At(corpus, x)[1]
      Same == {x \in DOMAIN w : M1(x).tags = a[1].tags}
      Mine == {x \in Same : M1(x).lem = a[1].lem}
      ty == IF Same = {} THEN 1 ELSE Cardinality({M1(x).lem : x \in Same}) + (IF Mine = {} THEN 1 ELSE 0)
      r == 1 + Sum(w, Mine)
      t == 1 + Sum(w, Same)
      PS == Pairs(corpus, w)
      wp == [p \in PS |-> w[p[1]]]
      Prev(p) == At(corpus, p[1])[p[2] - 1]
      Cur(p) == At(corpus, p[1])[p[2]]
      Join(n) ==
        LET I == {p \in PS : Prev(p).tags = a[n-1].tags}
            DI == {p \in I : Cur(p).lem = a[n].lem}
            D == {p \in PS : Cur(p).lem = a[n].lem}
            ID == {p \in D : Cur(p).tags = a[n].tags}
            tyI == IF I = {} THEN 1 ELSE Cardinality({Cur(p).lem : p \in I}) + (IF DI = {} THEN 1 ELSE 0)
            tyD == IF D = {} THEN 1 ELSE Cardinality({Cur(p).tags : p \in D}) + (IF ID = {} THEN 1 ELSE 0)
        IN [n |-> <<1 + Sum(wp, DI), 1 + Sum(wp, ID)>>, d |-> <<1 + Sum(wp, I) + tyI, 1 + Sum(wp, D) + tyD>>]
  IN FoldLeft(LAMBDA acc, n : Mul(acc, Join(n)), [n |-> <<r, t>>, d |-> <<t + ty>>], [i \in 1..Len(a) - 1 |-> i + 1])
ScoreOf(k, corpus, w, a) == IF k = 1 THEN Score1(corpus, w, a) ELSE IF k = 2 THEN Score2(corpus, w, a) ELSE Score3(corpus, w, a)
\* the first of the analyses with the highest score
Choose(k, corpus, w, u) ==
  IF u.unk THEN 0
  ELSE LET sc == [i \in DOMAIN u.anas |-> ScoreOf(k, corpus, w, Morphs(u.anas[i]))]
           best == {i \in DOMAIN u.anas : \A j \in DOMAIN u.anas : ~Lt(sc[i], sc[j])}
       IN MinS(best)
===============================================================================
