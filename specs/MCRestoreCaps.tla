---------------------------- MODULE MCRestoreCaps ----------------------------
EXTENDS Caps
(* --------- the machine: read words, add votes; nondeterministic where a rule fits in several ways --------- *)
Cases == ndJsonDeserialize(IOEnv.CASES)
Rules == ndJsonDeserialize(IOEnv.RULES)
VARIABLES cs, n, score, hit
Zero == [dix |-> 0, AA |-> 0, Aa |-> 0, aa |-> 0]
TInit == /\ cs \in 1..Len(Cases) /\ n = 0 /\ hit = << >>
         /\ score = << >>
Ws == Cases[cs].words
Rs == Rules[Cases[cs].rs].rules
\* pick one vote vector for every rule that ends at word e
Choice(e) == LET F == {i \in DOMAIN Rs : Votes(Rs[i], Ws, e) # {}} IN {f \in [F -> UNION {Votes(Rs[i], Ws, e) : i \in F}] : \A i \in F : f[i] \in Votes(Rs[i], Ws, e)}
AddVote(sc, f, e, w) ==   \* score of word w after the votes f at word e
  FoldLeft(LAMBDA a, i : IF i \in DOMAIN f
                         THEN LET k == w - (e - Len(f[i])) IN
                              IF k >= 1 THEN (IF f[i][k] = "skip" THEN a ELSE [a EXCEPT ![f[i][k]] = @ + Rs[i].w]) ELSE a
                         ELSE a, sc, [i \in 1..Len(Rs) |-> i])
Read == /\ n < Len(Ws) /\ n' = n + 1
        /\ \E f \in Choice(n + 1) :
             /\ score' = [w \in 1..(n + 1) |-> AddVote(IF w <= n THEN score[w] ELSE Zero, f, n + 1, w)]
             /\ hit' = [w \in 1..(n + 1) |-> (w <= n /\ hit[w]) \/ \E i \in DOMAIN f : w > n + 1 - Len(f[i]) /\ f[i][w - (n + 1 - Len(f[i]))] # "skip"]
        /\ UNCHANGED cs
TNext == Read
Done == n = Len(Ws)
Out == FoldLeft(LAMBDA a, i : a \o WordOut(Ws[i], score[i], Cases[cs].keep), "", [i \in 1..Len(Ws) |-> i]) \o Cases[cs].tail
Inp == FoldLeft(LAMBDA a, i : a \o WordIn(Ws[i]), "", [i \in 1..Len(Ws) |-> i]) \o Cases[cs].tail
\* only the case of the text changes, and only where a rule voted
LettersKept == Done => \A i \in 1..Len(Ws) : LowerV(Recase(Win(score[i]), Ws[i].surf)) = LowerV(Ws[i].surf)
OnlyVoted == Done => \A i \in 1..Len(Ws) : ~hit[i] => Recase(Win(score[i]), Ws[i].surf) = Ws[i].surf
Dump == Done => PrintT(ToJson([c |-> cs, i |-> Inp, o |-> Out]))
==============================================================================
