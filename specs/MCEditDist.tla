----------------------------- MODULE MCEditDist ------------------------------
\* every word of up to Max symbols, for every alphabet of a file, with all words it can become
EXTENDS EditDist, Integers, Json, IOUtils
CONSTANTS MaxLen
Configs == ndJsonDeserialize(IOEnv.CASES)
Words(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
Ys(c) == SetToSeq(Words({c.ys[i] : i \in 1..Len(c.ys)}))
VARIABLES g, x, o
Init == g = 0 /\ x = << >> /\ o = << >>
Next == \/ g = 0 /\ \E i \in 1..Len(Configs) : g' = -i /\ x' = << >> /\ o' = << >>
        \/ g < 0 /\ g' = 0 - g /\ LET c == Configs[0 - g] IN \E w \in Words({c.xs[i] : i \in 1..Len(c.xs)}) :
          x' = w /\ o' = [i \in 1..Len(Ys(c)) |-> <<Ys(c)[i], Weight(c, w, Ys(c)[i])>>]
        \* and longer words, in pairs
        \/ g < 0 /\ g' = 0 - g /\ LET c == Configs[0 - g] IN \E i \in 1..Len(c.pairs) : x' = c.pairs[i][1] /\ o' = <<<<c.pairs[i][2], Weight(c, c.pairs[i][1], c.pairs[i][2])>>>>
C == Configs[g]
Plain == Len(C.subs) = 0 /\ Len(C.swaps) = 0 /\ \A i \in 1..Len(C.alphabet) : C.alphabet[i][2] = 0
Of(y) == Weight(C, x, y)
\* with ordinary weights the weight is the number of edits, the same both ways (for words of the alphabet), and no more than the longer word has symbols
Counts == g > 0 /\ Plain => \A i \in 1..Len(o) : o[i][2] = Never \/ (o[i][2] % One = 0 /\ o[i][2] \in One..(C.d * One))
Symmetric == g > 0 /\ Plain => \A i \in 1..Len(o) : (\A k \in 1..Len(x) : x[k] \in Symbols(C)) /\ (\A k \in 1..Len(o[i][1]) : o[i][1][k] \in Symbols(C)) => Weight(C, o[i][1], x) = o[i][2]
Reaches == g > 0 /\ Plain => \A i \in 1..Len(o) : o[i][1] # x /\ (\A k \in 1..Len(o[i][1]) : o[i][1][k] \in Symbols(C)) /\ Len(o[i][1]) <= C.d /\ Len(x) <= C.d /\ (\A k \in 1..Len(x) : x[k] \in Symbols(C) \cup {"?"}) => o[i][2] < Never
\* more edits reach no less, at no more weight
Grows == g > 0 /\ C.d > 1 => \A i \in 1..Len(o) : Weight([C EXCEPT !.d = C.d - 1], x, o[i][1]) >= o[i][2]
Dump == g > 0 => PrintT(ToJson([g |-> g, x |-> x, o |-> o]))
=============================================================================
