------------------------------ MODULE DataTrees -------------------------------
(***************************************************************************)
(* The scripts that prepare linguistic data: the dictionaries and rules of *)
(* one variety of a language, lexical selection rules written out.  A file *)
(* is a tree of elements and texts; an element has attributes (pairs of a  *)
(* name and a value), a value is a sequence of words and separators.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
IsText(t) == t.n = ""
Has(t, k) == \E i \in 1..Len(t.a) : t.a[i][1] = k
Get(t, k) == IF Has(t, k) THEN t.a[CHOOSE i \in 1..Len(t.a) : t.a[i][1] = k][2] ELSE << >>
Without(t, ks) == SelectSeq(t.a, LAMBDA p : p[1] \notin ks)
Elem(n, a, c) == [n |-> n, a |-> a, c |-> c]
\* the names in a value, divided by sep
Names(v, sep) == LET r == FoldLeft(LAMBDA acc, w : IF w = sep THEN Append(acc, "") ELSE [acc EXCEPT ![Len(acc)] = @ \o w], <<"">>, v) IN {r[i] : i \in 1..Len(r)} \ {""}
Is(t, k, x) == Has(t, k) /\ Get(t, k) = <<x>>
Elements(cs) == SelectSeq(cs, LAMBDA c : ~IsText(c))
Map(cs, Op(_)) == FoldLeft(LAMBDA acc, c : Append(acc, Op(c)), << >>, cs)
Each(cs, Op(_)) == FoldLeft(LAMBDA acc, c : acc \o Op(c), << >>, cs)   \* every tree becomes a sequence of trees

---------------------------------------------------------------------------
\* genvdix, genvldix, genvrdix: an entry for some varieties is one for this variety or for another
Other(x) == IF x = "other" THEN "rehto" ELSE "other"
Gen(k, x, t) ==
  LET RECURSIVE G(_)
      G(u) == IF IsText(u) THEN u
              ELSE Elem(u.n, IF u.n = "e" /\ Has(u, k) THEN Append(Without(u, {k}), <<k, <<IF x \in Names(Get(u, k), " ") THEN x ELSE Other(x)>>>>) ELSE u.a,
                        Map(u.c, G))
  IN G(t)

\* filter-rules, filter-xml: what is marked for varieties stays if they are (all, some) among them, without the mark
Kept == {"with-param", "param", "list-item", "lit", "lit-tag", "attr-item", "def-var"}
Filtered(k, sep, keep, Ok(_), t) ==
  LET RECURSIVE F(_)
      F(u) == LET One(c) == IF IsText(c) \/ c.n \in keep THEN <<c>>
                            ELSE IF ~Has(c, k) THEN <<F(c)>>
                            ELSE IF Ok(Names(Get(c, k), sep)) THEN <<F(Elem(c.n, Without(c, {k}), c.c))>> ELSE << >>
              IN Elem(u.n, u.a, Each(u.c, One))
  IN F(t)
Rules(L, t) == LET Ok(vs) == L \subseteq vs IN Filtered("v", " ", Kept, Ok, t)
Xml(L, k, keep, t) == LET Ok(vs) == L \cap vs # {} IN Filtered(k, ",", keep, Ok, t)

\* filter-dix: an entry of another variety is one for analysis only (for generation only, on the right)
Dix(x, side, t) ==
  LET RECURSIVE D(_)
      Dir == IF side = "left" THEN "LR" ELSE "RL"
      D(u) == IF IsText(u) THEN <<u>>
              ELSE LET c == Each(u.c, D) IN
                   IF u.n # "e" THEN <<Elem(u.n, u.a, c)>>
                   ELSE IF ~Has(u, "v") \/ Is(u, "v", x) THEN <<Elem("e", Without(u, {"v"}), c)>>
                   ELSE IF Has(u, "r") /\ Get(u, "r") # <<Dir>> THEN << >>
                   ELSE <<Elem("e", Append(Without(u, {"v", "r"}), <<"r", <<Dir>>>>), c)>>
  IN D(t)[1]

\* translate-to-default-equivalent: of several equivalents only the default one is translated to
Asked(t, k) == Has(t, k) /\ Get(t, k) # << >>
Default(t, k) == LET v == Get(t, k) IN Len(v) > 1 /\ v[Len(v)] = "D" /\ v[Len(v) - 1] = " "
\* the directions in which an entry of a dictionary translates
Ways(t) == IF Is(t, "r", "LR") THEN {"LR"} ELSE IF Is(t, "r", "RL") THEN {"RL"} ELSE {"LR", "RL"}
\* slr: several right sides for this left side (LR is in question), srl: several left sides for this right side
Stay(t) == {w \in Ways(t) : LET k == IF w = "LR" THEN "slr" ELSE "srl" IN Asked(t, k) => Default(t, k)}
Equivalent(t) ==
  LET One(c) == IF IsText(c) THEN <<c>>
                ELSE IF ~Has(c, "slr") /\ ~Has(c, "srl") THEN <<c>>
                ELSE IF Stay(c) = {} THEN << >>
                ELSE <<Elem("e", Without(c, {"slr", "srl", "r"}) \o (IF Stay(c) = {"LR", "RL"} THEN << >> ELSE << <<"r", <<CHOOSE w \in Stay(c) : TRUE>> >> >>), Elements(c.c))>>
      Top(c) == IF c.n = "section" THEN Elem(c.n, c.a, Each(c.c, One)) ELSE c
  IN Elem("dictionary", << >>, Map(t.c, Top))

---------------------------------------------------------------------------
\* metalrx: rules written by macros.  A parameter is a word of a value or a text.
Child(t, n) == LET S == {i \in 1..Len(t.c) : t.c[i].n = n} IN IF S = {} THEN Elem("", << >>, << >>) ELSE t.c[CHOOSE i \in S : \A j \in S : i <= j]
Subst(m, t) ==
  LET Params == {m.a[i][1] : i \in {j \in 1..Len(m.a) : m.a[j][1] \in {"p1", "p2", "p3", "p12"}}}
      Put(v) == Each(v, LAMBDA w : LET P == {p \in Params : w = "{{" \o p \o "}}"} IN IF P = {} THEN <<w>> ELSE Get(m, CHOOSE p \in P : TRUE))
      RECURSIVE G(_)
      G(u) == IF IsText(u) THEN [n |-> "", t |-> Put(u.t)] ELSE Elem(u.n, Map(u.a, LAMBDA p : <<p[1], Put(p[2])>>), Map(u.c, G))
  IN G(t)
Macros(t) ==
  LET defs == Child(t, "def-macros").c
      rules == Child(t, "rules")
      Def(n) == defs[CHOOSE i \in 1..Len(defs) : defs[i].n = "def-macro" /\ Get(defs[i], "name") = n /\ \A j \in 1..(i - 1) : defs[j].n # "def-macro" \/ Get(defs[j], "name") # n]
      Written(c) == IF c.n # "macro" THEN << >> ELSE LET d == Def(Get(c, "name")) IN Map(SelectSeq(d.c, LAMBDA r : r.n = "rule"), LAMBDA r : Subst(c, r))
      Top(c) == IF c.n = "def-macros" THEN << >>
                ELSE IF c.n = "rules" THEN <<Elem("rules", c.a, SelectSeq(c.c, LAMBDA r : r.n # "macro") \o Each(c.c, Written))>> ELSE <<c>>
  IN Elem(IF t.n = "metalrx" THEN "lrx" ELSE t.n, t.a, Each(t.c, Top))

\* metalrx-to-lrx: sequences with a name, and repetitions: one rule for every number of times
Number == [s \in {ToString(i) : i \in 0..20} |-> CHOOSE i \in 0..20 : ToString(i) = s]
Num(t, k, d) == IF Has(t, k) THEN Number[Get(t, k)[1]] ELSE d
Down(hi, lo) == IF hi < lo THEN << >> ELSE [i \in 1..(hi - lo + 1) |-> (hi - i) + 1]
Seqs(t, u) == LET ds == Child(t, "def-seqs") IN Each(IF ds.n = "" THEN << >> ELSE ds.c, LAMBDA d : IF d.n = "def-seq" /\ Get(d, "n") = Get(u, "n") THEN Elements(d.c) ELSE << >>)
Repeats(t) ==
  LET RECURSIVE R(_)
      R(u) ==
        IF IsText(u) THEN <<u>>
        ELSE IF u.n = "seq" THEN Seqs(t, u)
        ELSE IF u.n = "repeat" THEN << >>
        ELSE LET at == {i \in 1..Len(u.c) : u.c[i].n = "repeat" /\ Has(u.c[i], "upto")} IN
             IF u.n # "rule" \/ at = {} THEN <<Elem(u.n, u.a, Each(u.c, R))>>
             ELSE LET i == CHOOSE i \in at : TRUE
                      r == u.c[i]
                      times == Down(Num(r, "upto", 0), Num(r, "from", 1))
                      before == Each(Elements(SubSeq(u.c, 1, i - 1)), R)
                      after == Each(Elements(SubSeq(u.c, i + 1, Len(u.c))), R)
                      once == Each(Elements(r.c), R)
                  IN Map(times, LAMBDA k : Elem("rule", u.a, before \o FlattenSeq([j \in 1..k |-> once]) \o after))
  IN R(Child(t, "rules"))[1]
=============================================================================
