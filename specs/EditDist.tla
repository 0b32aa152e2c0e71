------------------------------- MODULE EditDist -------------------------------
(***************************************************************************)
(* apertium-editdist: a transducer that relates every word to the words    *)
(* that one to d edits make of it, at the weight of the cheapest.  A word  *)
(* is a sequence of symbols; "?" is a symbol of no alphabet.  An edit      *)
(* inserts, deletes or replaces a symbol, or swaps two neighbours.         *)
(*   c.alphabet  [[symbol, weight]]   c.subs  [[from, to, weight]]         *)
(*   c.swaps     [[a, b, weight]]     c.d, c.swap                          *)
(* "" stands for no symbol.  Weights are whole numbers.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
One == 1000
Never == 1000000000
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Symbols(c) == {c.alphabet[i][1] : i \in 1..Len(c.alphabet)} \ {c.out[i] : i \in 1..Len(c.out)}
Extra(c, s) == IF \E i \in 1..Len(c.alphabet) : c.alphabet[i][1] = s THEN c.alphabet[CHOOSE i \in 1..Len(c.alphabet) : c.alphabet[i][1] = s][2] ELSE 0
Given(list, f, t) == {list[i][3] : i \in {j \in 1..Len(list) : list[j][1] = f /\ list[j][2] = t /\ \A k \in 1..(j - 1) : list[k][1] # f \/ list[k][2] # t}}
\* the weight of replacing f by t: as asked for; as asked for the other way round; one and the weights of both symbols
Ordinary(c, f, t) == CASE f = "?" /\ t = "" -> One
                       [] f = "?" -> IF t \in Symbols(c) THEN One + Extra(c, t) ELSE Never
                       [] f = "" -> IF t \in Symbols(c) THEN One + Extra(c, t) ELSE Never
                       [] t = "" -> IF f \in Symbols(c) THEN One + Extra(c, f) ELSE Never
                       [] OTHER -> IF {f, t} \subseteq Symbols(c) /\ f # t THEN One + Extra(c, f) + Extra(c, t) ELSE Never
Both(c, f, t) == {f, t} \subseteq Symbols(c) /\ f # t
Replace(c, f, t) == IF Given(c.subs, f, t) # {} THEN Least(Given(c.subs, f, t))
                    ELSE IF Both(c, f, t) /\ Given(c.subs, t, f) # {} THEN Least(Given(c.subs, t, f)) ELSE Ordinary(c, f, t)
Swap(c, f, t) == IF ~c.swap THEN Never
                 ELSE IF Given(c.swaps, f, t) # {} THEN Least(Given(c.swaps, f, t))
                 ELSE IF Both(c, f, t) /\ Given(c.swaps, t, f) # {} THEN Least(Given(c.swaps, t, f))
                 ELSE IF Both(c, f, t) THEN One + Extra(c, f) + Extra(c, t) ELSE Never
Plus(a, b) == IF a >= Never \/ b >= Never THEN Never ELSE a + b
\* the least weight of making y[1..j] of x[1..i] with k edits, for k in 0..d: a row of d + 1 numbers
Table(c, x, y) ==
  LET W == Len(y) + 1
      At(acc, i, j, k) == IF i < 0 \/ j < 0 \/ k < 0 THEN Never ELSE acc[i * W + j + 1][k + 1]
      Cell(acc, n) ==
        LET i == (n - 1) \div W   j == (n - 1) % W
            V(k) == Least({IF i = 0 /\ j = 0 /\ k = 0 THEN 0 ELSE Never,
                           IF i > 0 /\ j > 0 /\ x[i] = y[j] /\ x[i] \in Symbols(c) THEN At(acc, i - 1, j - 1, k) ELSE Never,
                           IF i > 0 /\ k > 0 THEN Plus(At(acc, i - 1, j, k - 1), Replace(c, x[i], "")) ELSE Never,
                           IF i > 0 /\ j > 0 /\ k > 0 THEN Plus(At(acc, i - 1, j - 1, k - 1), Replace(c, x[i], y[j])) ELSE Never,
                           IF i > 1 /\ j > 1 /\ k > 0 /\ x[i] = y[j - 1] /\ x[i - 1] = y[j] THEN Plus(At(acc, i - 2, j - 2, k - 1), Swap(c, x[i - 1], x[i])) ELSE Never})
            Ins(k) == IF j > 0 /\ k > 0 THEN Plus(At(acc, i, j - 1, k - 1), Replace(c, "", y[j])) ELSE Never
        IN Append(acc, [k \in 1..(c.d + 1) |-> Least({V(k - 1), Ins(k - 1)})])
  IN FoldLeft(Cell, << >>, [n \in 1..((Len(x) + 1) * W) |-> n])
Weight(c, x, y) == LET T == Table(c, x, y) row == T[Len(T)] IN Least({row[k] : k \in 2..(c.d + 1)})
=============================================================================
