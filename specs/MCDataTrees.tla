---------------------------- MODULE MCDataTrees ------------------------------
\* every entry with these attributes in a dictionary of its own, for every request; and the trees of a file
EXTENDS DataTrees, Json, IOUtils
CONSTANTS Big
Data == ndJsonDeserialize(IOEnv.WORDS)[1]
Queries == Data.queries
Given == ndJsonDeserialize(IOEnv.CASES)
Set(s) == {s[i] : i \in 1..Len(s)}
Do(q, t) == CASE q.tool = "gen" -> Gen(q.k, q.x, t)
              [] q.tool = "rules" -> Rules(Set(q.xs), t)
              [] q.tool = "xml" -> Xml(Set(q.xs), q.k, Set(q.keep), t)
              [] q.tool = "dix" -> Dix(q.x, q.side, t)
              [] q.tool = "default" -> Equivalent(t)
              [] q.tool = "macro" -> Macros(t)
              [] OTHER -> Repeats(t)
Att(k, v) == IF v = << >> THEN << >> ELSE << <<k, v>> >>
Dictionary(e) == Elem("dictionary", << >>, <<Elem("pardefs", << >>, <<Elem("pardef", << <<"n", <<"x">> >> >>, <<e>>)>>),
                                             Elem("section", << <<"id", <<"main">> >>, <<"type", <<"standard">> >> >>, <<e>>)>>)
Varieties == {<< >>, <<"a">>, <<"b">>, <<"other">>, <<"a", " ", "b">>, <<"b", ",", "a">>}
Marks == {<< >>, <<"1">>, <<"1", " ", "D">>}
VARIABLES t, q, o, given, step
Init == t = Elem("dictionary", << >>, << >>) /\ q = 0 /\ o = t /\ given \in -15..0 /\ step = 0
Inside == <<Elem("p", << >>, <<Elem("l", << >>, <<[n |-> "", t |-> <<"x">>], Elem("s", << <<"n", <<"n">> >> >>, << >>)>>), Elem("r", << >>, << >>)>>)>>
Next ==
  \/ given = 0 /\ step = 0 /\ step' = 1 /\ q' \in 1..Len(Queries) /\ given' = given /\ o' = o /\ t' = t
  \/ given = 0 /\ step = 1 /\ step' = 2 /\ UNCHANGED <<q, given>>
     /\ \E r \in {<< >>, <<"LR">>, <<"RL">>} : \E v \in Varieties : \E w \in (IF Big THEN Varieties ELSE {<< >>, <<"a">>}) :
        \E s \in Marks : \E m \in Marks : \E i \in {<< >>, <<"yes">>} :
          /\ Queries[q].tool # "default" \/ ((r = <<"LR">> => m = << >>) /\ (r = <<"RL">> => s = << >>))
          /\ Queries[q].tool = "default" \/ (s = << >> /\ m = << >>)
          /\ t' = Dictionary(Elem("e", Att("v", v) \o Att("vl", w) \o Att("r", r) \o Att("slr", s) \o Att("srl", m) \o Att("i", i), Inside))
          /\ o' = Do(Queries[q], t')
  \/ given < 0 /\ step = 0 /\ step' = 2 /\ \E i \in 1..Len(Given) : i % 15 = given + 15 /\ given' = i /\ t' = Given[i].t /\ q' = Given[i].q /\ o' = Do(Given[i].q, Given[i].t)
Q == IF given > 0 THEN q ELSE Queries[q]
RECURSIVE All(_)
All(u) == IF IsText(u) THEN <<u>> ELSE <<Elem(u.n, u.a, << >>)>> \o Each(u.c, All)
Entries(u) == SelectSeq(All(u), LAMBDA x : x.n = "e")
Done == step = 2
\* what has been prepared for a variety is left alone when it is prepared for it again
Again == Done /\ Q.tool \in {"gen", "rules", "xml", "dix", "default"} => Do(Q, o) = o
\* nothing is added; varieties of an entry change nothing but this mark
Shrinks == Done /\ Q.tool \in {"rules", "xml", "dix", "default"} => Len(All(o)) <= Len(All(t))
Shape == Done /\ Q.tool = "gen" => Len(All(o)) = Len(All(t)) /\ \A i \in 1..Len(All(t)) : IsText(All(t)[i]) \/ (All(o)[i].n = All(t)[i].n /\ Set(Without(All(o)[i], {Q.k})) = Set(Without(All(t)[i], {Q.k})))
\* no entry translates in a direction it did not, and what is marked for nothing stays
Directions == Done /\ given = 0 /\ Q.tool \in {"dix", "default"} => \A i \in 1..Len(Entries(o)) : \E j \in 1..Len(Entries(t)) : Ways(Entries(o)[i]) \subseteq Ways(Entries(t)[j])
Unmarked == Done /\ (\A i \in 1..Len(All(t)) : IsText(All(t)[i]) \/ \A k \in {"v", "vl", "vr", "slr", "srl"} : ~Has(All(t)[i], k)) /\ Q.tool \in {"gen", "dix", "rules", "default"} => o = t
\* written rules hold no macro, no repetition and no sequence by name
Written == Done /\ Q.tool = "macro" => \A i \in 1..Len(All(o)) : All(o)[i].n \notin {"macro", "def-macro"}
Unrolled == Done /\ Q.tool = "repeat" => \A i \in 1..Len(All(o)) : All(o)[i].n \notin {"repeat", "seq"}
Dump == Done => PrintT(ToJson([g |-> given, q |-> IF given > 0 THEN 0 ELSE q, t |-> IF given > 0 THEN 0 ELSE t, o |-> o]))
=============================================================================
