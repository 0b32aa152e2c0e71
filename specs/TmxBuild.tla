------------------------------- MODULE TmxBuild -------------------------------
(***************************************************************************)
(* apertium-tmxbuild: a translation memory from a text and its             *)
(* translation, both unformatted (format in superblanks).  Both are        *)
(* divided into sentences, the sentences of one are paired with those of   *)
(* the other, in order, and the pairs that hold enough text are written.   *)
(* Scores are fixed-point numbers; where two pairings are equal within     *)
(* what these can tell, both are allowed.                                  *)
(***************************************************************************)
EXTENDS StreamBase, Integers
CONSTANTS Letters,    \* the letters of the texts
          Wide,       \* the characters of two bytes
          Order       \* the characters in the order of their codes (a sequence)
S == 100000           \* one
Eps == 60             \* what the rounding of a pairing may come to
White == {" ", "\n", "\t"}
PH == <<"<", "p", "h", "/", ">">>

---------------------------------------------------------------------------
\* sentences: ended by . before white space or a blank, by ? and !, or by the end of the text
BlankEnd(t, i) == LET RECURSIVE F(_)
                      F(j) == IF j > Len(t) THEN 0 ELSE IF t[j] = BSL THEN F(j + 2) ELSE IF t[j] = "]" THEN j ELSE F(j + 1) IN F(i)
Blank(t, i, j) == \* the superblank t[i..j]: a placeholder, with a blank where the format begins or ends with one
  (IF t[i + 1] = " " THEN <<" ">> ELSE << >>) \o PH \o (IF t[j - 1] = " " THEN <<" ">> ELSE << >>)
RECURSIVE Cut(_, _, _)
Cut(t, i, cur) ==
  IF i > Len(t) THEN (IF \E k \in 1..Len(cur) : cur[k] \notin White THEN <<cur>> ELSE << >>)
  ELSE LET c == t[i] IN
       CASE c = BSL -> IF i = Len(t) THEN Cut(t, i + 1, cur) ELSE Cut(t, i + 2, Append(cur, t[i + 1]))
         [] c = "[" -> LET j == BlankEnd(t, i) IN IF j = 0 THEN Cut(t, Len(t) + 1, cur) ELSE Cut(t, j + 1, cur \o Blank(t, i, j))
         [] c \in {"?", "!"} -> <<Append(cur, c)>> \o Cut(t, i + 1, << >>)
         [] c = "." /\ i < Len(t) /\ t[i + 1] \in White \cup {"["} -> <<Append(cur, c)>> \o Cut(t, i + 1, << >>)
         [] OTHER -> Cut(t, i + 1, Append(cur, c))
Sentences(t) == Cut(t, 1, << >>)

---------------------------------------------------------------------------
\* what is paired: lines of words (a new line inside a sentence divides it, except in white space at its
\* beginning), the last of them without words
SkipWhite(f, i) == CHOOSE j \in i..(Len(f) + 1) : (j = Len(f) + 1 \/ f[j] \notin White) /\ \A k \in i..(j - 1) : f[k] \in White
SkipBlank(f, i) == CHOOSE j \in i..(Len(f) + 1) : (j = Len(f) + 1 \/ f[j] \notin {" ", "\t"}) /\ \A k \in i..(j - 1) : f[k] \in {" ", "\t"}
WordEnd(f, i) == CHOOSE j \in i..(Len(f) + 1) : (j = Len(f) + 1 \/ f[j] \in White) /\ \A k \in i..(j - 1) : f[k] \notin White
RECURSIVE LinesFrom(_, _, _)
LinesFrom(f, i, cur) ==
  IF i > Len(f) THEN <<cur>>
  ELSE IF f[i] = "\n" THEN <<cur>> \o LinesFrom(f, i + 1, << >>)
  ELSE LET b == SkipWhite(f, i) e == WordEnd(f, b) IN
       IF b > Len(f) THEN <<cur>> ELSE LinesFrom(f, SkipBlank(f, e), Append(cur, SubSeq(f, b, e - 1)))
Lines(t) == LinesFrom(Cat([i \in 1..Len(Sentences(t)) |-> Append(Sentences(t)[i], "\n")]), 1, << >>)

---------------------------------------------------------------------------
\* how well two lines go together: words in common (each as often as both have it), numbers counting much
\* when they are (nearly) all the same; lengths that are alike
Bytes(w) == Len(w) + Cardinality({k \in 1..Len(w) : w[k] \in Wide})
Size(l) == FoldLeft(LAMBDA a, w : a + Bytes(w), 0, l)
Code == [c \in {Order[i] : i \in 1..Len(Order)} |-> CHOOSE i \in 1..Len(Order) : Order[i] = c]
Before(v, w) == LET D == {k \in 1..(IF Len(v) < Len(w) THEN Len(v) ELSE Len(w)) : v[k] # w[k]} IN
                IF D = {} THEN Len(v) < Len(w) ELSE LET k == CHOOSE k \in D : \A m \in D : k <= m IN Code[v[k]] < Code[w[k]]
Number(w) == \A k \in 1..Len(w) : w[k] \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Count(l, w) == Cardinality({k \in 1..Len(l) : l[k] = w})
Words(l) == {l[k] : k \in 1..Len(l)}
Least(x, y) == IF x < y THEN x ELSE y
\* of the numbers only one side has (so often), those count that come before the last word of the other side
Alone(l, m) == FoldSet(LAMBDA w, a : a + (IF Number(w) /\ \E v \in Words(m) : Before(w, v) THEN Count(l, w) - Least(Count(l, w), Count(m, w)) ELSE 0), 0, Words(l))
Common(l, m) == FoldSet(LAMBDA w, a : a + Least(Count(l, w), Count(m, w)), 0, Words(l))
Numbers(l, m) == FoldSet(LAMBDA w, a : a + (IF Number(w) THEN Least(Count(l, w), Count(m, w)) ELSE 0), 0, Words(l))
Inter(l, m) == LET n == Numbers(l, m) IN Common(l, m) + (IF n > 0 /\ Alone(l, m) + Alone(m, l) <= n \div 5 THEN 10 ELSE 0)
Alike(l, m) == (3 * Inter(l, m) * S) \div (Least(Len(l), Len(m)) + 1)
Close(x, y) == LET hi == (IF x > y THEN x ELSE y) + 1  lo == Least(x, y) + 1 IN 3 * (S \div 10) - ((hi - lo) * 3 * (S \div 10)) \div lo
Skip == 3 * (S \div 10)

\* the cost of the best way to pair the first h lines of A with the first e of B: a pair, a line of A or of B
\* alone, a line of A with two of B
Moves == <<"pair", "a", "b", "two">>
Cost(A, B, V(_, _), h, e, m) ==
  CASE m = "pair" /\ h > 0 /\ e > 0 -> V(h - 1, e - 1) - Alike(A[h], B[e]) - Close(Size(A[h]), Size(B[e]))
    [] m = "a" /\ h > 0 -> V(h - 1, e) + Skip
    [] m = "b" /\ e > 0 -> V(h, e - 1) + Skip
    [] m = "two" /\ h > 0 /\ e > 1 -> V(h - 1, e - 2) - Least(Alike(A[h], B[e]), Alike(A[h], B[e - 1])) + Skip
                                      - Close(Size(B[e - 1]) + Size(B[e]) + 2, Size(A[h]))
    [] OTHER -> 100000000
Best(A, B) ==
  LET W == Len(B) + 1
      Cell(acc, k) == LET h == (k - 1) \div W  e == (k - 1) % W
                          V(x, y) == acc[x * W + y + 1]
                          cs == {Cost(A, B, V, h, e, Moves[i]) : i \in 1..4}
                      IN Append(acc, IF k = 1 THEN 0 ELSE CHOOSE c \in cs : \A d \in cs : c <= d)
  IN FoldLeft(Cell, << >>, [k \in 1..((Len(A) + 1) * W) |-> k])
\* the best pairings, as the places between lines where they divide both texts; lines left of one text only
\* before the first pair belong to none
RECURSIVE Trails(_, _, _, _, _)
Trails(A, B, T, h, e) ==
  IF h = 0 \/ e = 0 THEN {<< <<h, e>> >>}
  ELSE LET V(x, y) == T[x * (Len(B) + 1) + y + 1]
           Good == {m \in {"pair", "a", "b", "two"} : Cost(A, B, V, h, e, m) <= V(h, e) + Eps}
           From(m) == CASE m = "pair" -> Trails(A, B, T, h - 1, e - 1) [] m = "a" -> Trails(A, B, T, h - 1, e)
                        [] m = "b" -> Trails(A, B, T, h, e - 1) [] OTHER -> Trails(A, B, T, h - 1, e - 2)
       IN UNION {{Append(t, <<h, e>>) : t \in From(m)} : m \in Good}

\* a line left alone joins its neighbour on the side where the lengths then agree better, unless they would
\* agree much worse on both
Block(L, x, y) == FoldLeft(LAMBDA a, i : a + Size(L[x + i]) + 3, 0, [i \in 1..(y - x) |-> i])
Uneven(x, y) == IF x >= y THEN <<x + 1, y + 1>> ELSE <<y + 1, x + 1>>    \* the greater over the smaller
Gain(x, y, dx, dy) == LET o == Uneven(x, y) n == Uneven(x + dx, y + dy) IN (o[1] * n[2] * 1000) \div (o[2] * n[1])
Near(x, y) == x - y <= 3 /\ y - x <= 3
RECURSIVE Joined(_, _, _, _)
Joined(A, B, t, i) ==
  IF i + 2 > Len(t) - 1 THEN {t}
  ELSE IF t[i + 1][1] # t[i + 2][1] /\ t[i + 1][2] # t[i + 2][2] THEN Joined(A, B, t, i + 1)
  ELSE LET ma == Block(A, t[i + 1][1], t[i + 2][1])  mb == Block(B, t[i + 1][2], t[i + 2][2])
           l == Gain(Block(A, t[i][1], t[i + 1][1]), Block(B, t[i][2], t[i + 1][2]), ma, mb)
           r == Gain(Block(A, t[i + 2][1], t[i + 3][1]), Block(B, t[i + 2][2], t[i + 3][2]), ma, mb)
           Drop(k) == Joined(A, B, SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t)), i)
       IN (IF (l > 797 \/ r > 797) /\ (l > r \/ Near(l, r)) THEN Drop(i + 1) ELSE {})
          \cup (IF (l > 797 \/ r > 797) /\ (l <= r \/ Near(l, r)) THEN Drop(i + 2) ELSE {})
          \cup (IF l <= 803 /\ r <= 803 THEN Joined(A, B, t, i + 1) ELSE {})

---------------------------------------------------------------------------
\* what is written of a pair: with a letter on both sides, and at least three blanks after the first letter;
\* no format or white space around, no full stops at the end
Text(L, x, y) == Cat([i \in 1..(y - x) |-> (IF i = 1 THEN << >> ELSE <<" ">>) \o
                       Cat([k \in 1..Len(L[x + i]) |-> (IF k = 1 THEN << >> ELSE <<" ">>) \o L[x + i][k]])])
Enough(s) == LET F == {k \in 1..Len(s) : s[k] \in Letters} IN
             F # {} /\ LET f == CHOOSE k \in F : \A m \in F : k <= m IN Cardinality({k \in f..Len(s) : s[k] \in White}) > 2
RECURSIVE Bare(_), Tailless(_), Undotted(_), Xml(_)
Bare(s) == IF StartsWith(s, PH) THEN Bare(SubSeq(s, 6, Len(s))) ELSE IF s # << >> /\ s[1] \in White THEN Bare(Tail(s)) ELSE s
Tailless(s) == IF Len(s) > 5 /\ EndsWith(s, PH) THEN Tailless(SubSeq(s, 1, Len(s) - 5))
               ELSE IF s # << >> /\ Last1(s) \in White THEN Tailless(SubSeq(s, 1, Len(s) - 1)) ELSE s
Undotted(s) == IF s # << >> /\ Last1(s) = "." THEN Undotted(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the placeholders as elements, the rest as text
Xml(s) == IF s = << >> THEN << >> ELSE IF StartsWith(s, PH) THEN <<"<ph/>">> \o Xml(SubSeq(s, 6, Len(s))) ELSE <<s[1]>> \o Xml(Tail(s))
Seg(s) == Xml(Undotted(Tailless(Bare(s))))
Pairs(A, B, t) == LET P == [i \in 1..(Len(t) - 1) |-> <<Text(A, t[i][1], t[i + 1][1]), Text(B, t[i][2], t[i + 1][2])>>]
                  IN SelectSeq(P, LAMBDA p : Enough(p[1]) /\ Enough(p[2]))
\* texts of too different length are not paired at all
Hopeless(A, B) == Len(B) < Len(A) \div 5 \/ Len(A) < Len(B) \div 5
Aligned(A, B) == UNION {Joined(A, B, t, 1) : t \in Trails(A, B, Best(A, B), Len(A), Len(B))}
Memories(a, b) == LET A == Lines(a) B == Lines(b) IN
  IF Hopeless(A, B) THEN {<< >>}
  ELSE {LET P == Pairs(A, B, t) IN [i \in 1..Len(P) |-> <<Seg(P[i][1]), Seg(P[i][2])>>] : t \in Aligned(A, B)}
=============================================================================
