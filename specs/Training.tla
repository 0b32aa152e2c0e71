------------------------------- MODULE Training -------------------------------
(* Training of the HMM and sliding-window taggers: the ambiguity classes of a    *)
(* dictionary, and the counts a corpus gives.  Probabilities are rows of integer *)
(* weights (to be divided by their sum), since TLC has no reals.                 *)
EXTENDS Tagger
NTags(ts) == 7 + Len(ts.labels)
AllTags(ts) == 0..NTags(ts)-1
OpenOf(ts) == {6 + i : i \in {i \in DOMAIN ts.labels : ~ts.labels[i].closed}}
AllWords(ts, units) == FoldLeft(LAMBDA a, u : a \o Words(ts, u), << >>, units) \o <<EofWord("")>>
TagsIn(ts, w) == IF w.lf = NoLF THEN OpenOf(ts) ELSE DOMAIN w.lf

\* the later parts of a split unit have no surface form of their own
Surf(w) == IF w.first THEN w.surf ELSE << >>
(* --------------------------- ambiguity classes -------------------------------- *)
HasClass(cl, T) == \E k \in DOMAIN cl : cl[k] = T
With(cl, T) == IF HasClass(cl, T) THEN cl ELSE Append(cl, T)
\* after those of the dictionary: the open class, and one for every tag
Completed(ts, cl) == FoldLeft(LAMBDA a, t : With(a, {t}), With(cl, OpenOf(ts)), [i \in 1..NTags(ts) |-> i - 1])
Index(cl, T) == CHOOSE k \in DOMAIN cl : cl[k] = T
\* the words that show every class of a dictionary once
Filtered(ts, ws) ==
  FoldLeft(LAMBDA a, w : IF w.lf = NoLF \/ w.eof \/ HasClass(a.cl, DOMAIN w.lf) THEN a
                         ELSE [cl |-> Append(a.cl, DOMAIN w.lf),
                               o  |-> a.o \o "^" \o Text(Surf(w)) \o FoldLeft(LAMBDA s, t : IF t \in DOMAIN w.lf THEN s \o "/" \o Text(w.lf[t]) ELSE s, "", [t \in 1..40 |-> t]) \o "$\n"],
           [cl |-> << >>, o |-> ""], ws).o

\* the words of a text, each with the names of the tags it can have
Listed(ts, ws) == [i \in DOMAIN ws |-> Text(Surf(ws[i])) \o " {" \o FoldLeft(LAMBDA s, t : IF t - 1 \in DOMAIN ws[i].lf THEN s \o (IF s = "" THEN "" ELSE ",") \o ts.names[t] ELSE s, "", [t \in 1..NTags(ts) |-> t]) \o "}"]

(* ---------------------------------- rules ------------------------------------- *)
\* forbid: pairs of tags; enforce: [a, b]: after a only one of b
Forbids(ts, i, j) == (\E r \in DOMAIN ts.forbid : ts.forbid[r] = <<i, j>>)
                     \/ (\E r \in DOMAIN ts.enforce : ts.enforce[r].a = i /\ \A q \in DOMAIN ts.enforce[r].b : ts.enforce[r].b[q] # j)
ValidSeq(ts, l, c, r) == ~Forbids(ts, l, c) /\ ~Forbids(ts, c, r)

(* ---------------------------------- counts ------------------------------------ *)
Bump(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE f @@ (x :> 1)
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
NoCounts == [x \in {} |-> 0]
RECURSIVE SumOver(_, _)
SumOver(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + SumOver(f, S \ {x})
Total(f) == SumOver(LAMBDA x : f[x], DOMAIN f)
KOf(cl, i) == {k \in DOMAIN cl : i \in cl[k]}

(* supervised: add-one smoothing of tag pairs; one extra occurrence of a tag is   *)
(* shared by its classes                                                          *)
SupA(ts, pairs) == [i \in AllTags(ts) |-> [j \in AllTags(ts) |-> At(pairs, <<i, j>>) + 1]]
SupB(ts, cl, em) == [i \in AllTags(ts) |-> [k \in KOf(cl, i) |-> Cardinality(KOf(cl, i)) * At(em, <<i, k>>) + 1]]
(* unsupervised: every class (pair) has been seen once; its occurrences are shared *)
(* by its tags; classes have at most six                                           *)
Share == 60
UnsA(ts, cl, pairs) ==
  [i \in AllTags(ts) |-> [j \in AllTags(ts) |->
     SumOver(LAMBDA x : (At(pairs, x) + 1) * (Share \div Cardinality(cl[x[1]])) * (Share \div Cardinality(cl[x[2]])), KOf(cl, i) \X KOf(cl, j))]]
UnsB(ts, cl, occ) == [i \in AllTags(ts) |-> [k \in KOf(cl, i) |-> (At(occ, k) + 1) * (Share \div Cardinality(cl[k]))]]
===============================================================================
