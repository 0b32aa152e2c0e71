----------------------------- MODULE MCTmxBuild ------------------------------
\* every pair of texts of up to MaxA and MaxB pieces of a vocabulary, and the pairs of a file
EXTENDS TmxBuild, Json, IOUtils
CONSTANTS MaxA, MaxB
Data == ndJsonDeserialize(IOEnv.WORDS)[1]
PiecesA == Data.pa
PiecesB == Data.pb
LettersC == {Data.letters[i] : i \in 1..Len(Data.letters)}
WideC == {Data.wide[i] : i \in 1..Len(Data.wide)}
OrderC == Data.order
Given == ndJsonDeserialize(IOEnv.CASES)
VARIABLES a, b, na, nb, given, o
Init == a = << >> /\ b = << >> /\ na = 0 /\ nb = 0 /\ given \in -15..0 /\ o = {<< >>}
Next == \/ given = 0 /\ nb = 0 /\ na < MaxA /\ na' = na + 1 /\ (\E i \in 1..Len(PiecesA) : a' = a \o PiecesA[i]) /\ UNCHANGED <<b, nb, given>> /\ o' = Memories(a', b)
        \/ given = 0 /\ nb < MaxB /\ nb' = nb + 1 /\ (\E i \in 1..Len(PiecesB) : b' = b \o PiecesB[i]) /\ UNCHANGED <<a, na, given>> /\ o' = Memories(a, b')
        \/ given < 0 /\ na = 0 /\ (\E i \in 1..Len(Given) : i % 15 = given + 15 /\ a' = Given[i].a /\ b' = Given[i].b /\ given' = i /\ o' = Memories(a', b')) /\ UNCHANGED <<na, nb>>
\* the sentences are the text
Deaf(t) == SelectSeq(t, LAMBDA c : c \notin White)
Plain(t) == LET RECURSIVE F(_)
                F(i) == IF i > Len(t) THEN << >> ELSE IF t[i] = BSL THEN (IF i < Len(t) THEN <<t[i + 1]>> ELSE << >>) \o F(i + 2)
                        ELSE IF t[i] = "[" THEN (LET j == BlankEnd(t, i) IN IF j = 0 THEN << >> ELSE PH \o F(j + 1)) ELSE <<t[i]>> \o F(i + 1) IN F(1)
AllText == Deaf(Cat(Sentences(a))) = Deaf(Plain(a)) /\ Deaf(Cat(Cat(Lines(a)))) = Deaf(Plain(a))
\* every pairing divides both texts into runs of lines, in order, and leaves out lines of one text at the beginning at most
InOrder == given <= 0 => \A t \in Aligned(Lines(a), Lines(b)) :
              /\ (t[1][1] = 0 \/ t[1][2] = 0) /\ t[Len(t)] = <<Len(Lines(a)), Len(Lines(b))>>
              /\ \A i \in 1..(Len(t) - 1) : t[i][1] <= t[i + 1][1] /\ t[i][2] <= t[i + 1][2] /\ t[i] # t[i + 1]
\* a text is its own translation
Distinct(L) == \A i, j \in 1..Len(L) : i # j => Words(L[i]) \cap Words(L[j]) = {} /\ L[i] # << >>
Self == given <= 0 /\ nb = 0 /\ Distinct(SubSeq(Lines(a), 1, Len(Lines(a)) - 1)) => \A m \in Memories(a, a) : \A i \in 1..Len(m) : m[i][1] = m[i][2]
\* no segment is without text, and none ends in a full stop or a blank
Clean == \A m \in o : \A i \in 1..Len(m) : \A k \in 1..2 : m[i][k] # << >> /\ m[i][k][1] \notin White \cup {"<ph/>"} /\ Last1(m[i][k]) # "."
Dump == (given > 0 \/ (given = 0 /\ nb > 0)) => PrintT(ToJson([g |-> given, a |-> Str(a), b |-> Str(b),
           o |-> SetToSeq({[i \in 1..Len(m) |-> <<Str(m[i][1]), Str(m[i][2])>>] : m \in o})]))
=============================================================================
