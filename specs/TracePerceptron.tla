--------------------------- MODULE TracePerceptron ---------------------------
EXTENDS Perceptron
(* Recorded runs of the perceptron tagger.                                          *)
(* mode "tag": [sp, w: [f, p, v], us, ch (number of the analysis chosen, 0: none),  *)
(*   seg]: every sentence must be tagged as a beam search over the weights may.     *)
(* mode "train": [sp, tg, un, iter, skip, seg, ok, w: [f, p, v], ...]: the weights   *)
(*   must be the mean over all updates of those that some order of the sentences     *)
(*   and some choice between equal scores gives; v is in millionths.                 *)
Mtx  == ndJsonDeserialize(IOEnv.MTX)
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, ph, ss, left, it, n, S, cor, cts, W, tot, N
vars == <<rec, ph, ss, left, it, n, S, cor, cts, W, tot, N>>
(* ss: the sentences; left: numbers of those of this iteration not used yet, the first   *)
(* of left is the current one when tagging; n: units done; S: the agenda; cor: its item   *)
(* that is right so far, cts: the right tagging; W: weights; tot: sum of the weights      *)
(* after every update; N: number of updates                                               *)
R == Recs[rec]
SP == Mtx[R.sp]
Key(x) == [f |-> x.f, p |-> x.p]
Given == [k \in {Key(R.w[i]) : i \in DOMAIN R.w} |-> (CHOOSE x \in Range1(R.w) : Key(x) = k).v]
None == [ts |-> <<"none">>, score |-> 0, vec |-> NoVec]
First == CHOOSE x \in Start : TRUE
Init == /\ rec \in 1..Len(Recs) /\ ph = "load" /\ ss = << >> /\ left = {} /\ it = 0 /\ n = 0 /\ S = {} /\ cor = None /\ cts = << >>
        /\ W = NoVec /\ tot = NoVec /\ N = 0
Load == /\ ph = "load"
        /\ LET c == IF R.mode = "train" THEN Corpus(R.tg, R.un, 1, 1, << >>, [skip |-> R.skip, seg |-> R.seg])
                    ELSE [ok |-> TRUE, ss |-> Sentences([i \in DOMAIN R.us |-> R.us[i] @@ [ch |-> R.ch[i]]], << >>, R.seg)]
           IN /\ ss' = c.ss /\ ph' = (IF c.ok THEN "pick" ELSE "refused")
              /\ left' = DOMAIN c.ss
        /\ W' = (IF R.mode = "tag" THEN Given ELSE NoVec)
        /\ it' = 1
        /\ UNCHANGED <<rec, n, S, cor, cts, tot, N>>
Us(s) == [i \in DOMAIN s |-> IF R.mode = "tag" THEN s[i] ELSE s[i].u]
\* the next sentence: in order when tagging, in any order when training
Pick == /\ ph = "pick" /\ left # {}
        /\ \E s \in left : /\ R.mode = "tag" => s = MinS(left)
                           /\ left' = left \ {s}
                           /\ cts' = <<s>>
        /\ ph' = "sent" /\ n' = 0 /\ S' = Start /\ cor' = First
        /\ UNCHANGED <<rec, ss, it, W, tot, N>>
Again == /\ ph = "pick" /\ left = {} /\ R.mode = "train" /\ it < R.iter
         /\ it' = it + 1 /\ left' = DOMAIN ss
         /\ UNCHANGED <<rec, ph, ss, n, S, cor, cts, W, tot, N>>
Cur == ss[cts[1]]
Sen == Us(Cur)
U == Sen[n + 1]
Ext(x, a) == [x EXCEPT !.ts = Append(@, a)]
(* ----- tagging ----- *)
Chosen == [i \in DOMAIN Sen |-> IF Sen[i].ch = 0 THEN Untagged ELSE Sen[i].ans[Sen[i].ch]]
Tag == /\ ph = "sent" /\ R.mode = "tag" /\ n < Len(Sen) /\ n' = n + 1
       /\ IF Len(U.ans) <= 1 THEN S' = All(S, IF U.ans = << >> THEN Untagged ELSE U.ans[1])
          ELSE \E K \in Kept(Grow(SP, W, S, Sen), SP.beam) :
                 \* a tagging that is not kept cannot be the best in the end
                 (\E x \in K : x.ts = SubSeq(Chosen, 1, n + 1)) /\ S' = K
       /\ UNCHANGED <<rec, ph, ss, left, it, cor, cts, W, tot, N>>
Put == /\ ph = "sent" /\ R.mode = "tag" /\ n = Len(Sen)
       /\ \E x \in Best(S) : x.ts = Chosen
       /\ ph' = "pick"
       /\ UNCHANGED <<rec, ss, left, it, n, S, cor, cts, W, tot, N>>
(* ----- training ----- *)
\* cts: the number of the sentence, then the right tagging
Right == Tail(cts)
Truth == Cur[n + 1].a
Plain == /\ ph = "sent" /\ R.mode = "train" /\ n < Len(Sen)
         /\ Len(U.ans) <= 1 \/ Truth = Untagged
         /\ LET a == IF Len(U.ans) = 1 THEN U.ans[1] ELSE Untagged
            IN S' = All(S, a) /\ cor' = Ext(cor, a)
         /\ cts' = Append(cts, Truth) /\ n' = n + 1
         /\ UNCHANGED <<rec, ph, ss, left, it, W, tot, N>>
Choice == /\ ph = "sent" /\ R.mode = "train" /\ n < Len(Sen) /\ Len(U.ans) > 1 /\ Truth # Untagged
\* the right analysis is none of the unit's: the sentence is given up, or the training
Lacking == /\ Choice /\ \A i \in DOMAIN U.ans : U.ans[i] # Truth
           /\ ph' = (IF R.skip THEN "pick" ELSE "refused")
           /\ UNCHANGED <<rec, ss, left, it, n, S, cor, cts, W, tot, N>>
Search == /\ Choice /\ \E i \in DOMAIN U.ans : U.ans[i] = Truth
          /\ LET G == Grow(SP, W, S, Sen)
                 right == CHOOSE x \in G : x.ts = Append(cor.ts, Truth)
             IN /\ \E K \in Kept(G, SP.beam) : S' = K
                /\ cor' = right /\ cts' = <<cts[1]>> \o right.ts
          /\ n' = n + 1
          /\ ph' = (IF cor' \in S' THEN "sent" ELSE "update")
          /\ UNCHANGED <<rec, ss, left, it, W, tot, N>>
\* at the end of the sentence, or as soon as the right tagging is no longer among those kept
Learn(x) == /\ W' = Plus(W, Minus(cor.vec, x.vec))
            /\ tot' = Plus(tot, W') /\ N' = N + 1
Update == /\ ph = "update"
          /\ \E x \in Best(S) : Learn(x)
          /\ ph' = "pick"
          /\ UNCHANGED <<rec, ss, left, it, n, S, cor, cts>>
Finish == /\ ph = "sent" /\ R.mode = "train" /\ n = Len(Sen)
          /\ \E x \in Best(S) : IF x.ts = Right THEN UNCHANGED <<W, tot, N>> ELSE Learn(x)
          /\ ph' = "pick"
          /\ UNCHANGED <<rec, ss, left, it, n, S, cor, cts>>
Next == Load \/ Pick \/ Again \/ Tag \/ Put \/ Plain \/ Lacking \/ Search \/ Update \/ Finish
Done == ph = "pick" /\ left = {} /\ (R.mode = "train" => it = R.iter)
Abs(x) == IF x < 0 THEN -x ELSE x
\* v * N = tot, v rounded to millionths
Means == /\ DOMAIN Given = {x \in DOMAIN tot : tot[x] # 0}
         /\ \A x \in DOMAIN Given : Abs((Given[x] * N) - (tot[x] * 1000000)) <= N
Accept == /\ (Done /\ R.mode = "tag") => PrintT(ToJson([c |-> rec]))
          /\ (Done /\ R.mode = "train" /\ R.ok /\ Means) => PrintT(ToJson([c |-> rec]))
          /\ (ph = "refused" /\ ~R.ok) => PrintT(ToJson([c |-> rec]))
\* what is kept is within the beam, and the right tagging is never better than the best
BeamOK == Cardinality(S) <= SP.beam
Better == ph = "update" => cor \notin S /\ \A x \in S : x.score >= cor.score
==============================================================================
