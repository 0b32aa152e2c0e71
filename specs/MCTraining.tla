------------------------------ MODULE MCTraining ------------------------------
EXTENDS Training
(* Cases: [ts, mode, dic, crp, tagged, raw]: units; mode "sup", "uns" or "lsw";   *)
(* raw is what the model is then trained further on.                              *)
Sets  == ndJsonDeserialize(IOEnv.SETS)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, ph, ws, vs, n, cl, prev, prev2, pairs, em, refused
vars == <<cs, ph, ws, vs, n, cl, prev, prev2, pairs, em, refused>>
C == Cases[cs]
TS == Sets[C.ts]
Init == /\ cs \in 1..Len(Cases) /\ ph = "load" /\ ws = << >> /\ vs = << >> /\ n = 0 /\ cl = << >>
        /\ prev = {SENT} /\ prev2 = {SENT} /\ pairs = NoCounts /\ em = NoCounts /\ refused = FALSE
Load == /\ ph = "load" /\ ph' = "scan"
        /\ ws' = AllWords(TS, C.dic)
        /\ UNCHANGED <<cs, vs, n, cl, prev, prev2, pairs, em, refused>>
\* the dictionary, word by word
Scan == /\ ph = "scan"
        /\ IF n < Len(ws)
           THEN /\ cl' = (IF ws[n + 1].lf = NoLF THEN cl ELSE With(cl, DOMAIN ws[n + 1].lf))
                /\ n' = n + 1 /\ UNCHANGED <<ph, ws, vs>>
           ELSE /\ cl' = Completed(TS, cl) /\ ph' = "count" /\ n' = 0
                /\ ws' = AllWords(TS, C.crp)
                /\ vs' = (IF C.mode = "sup" THEN AllWords(TS, C.tagged) ELSE << >>)
        /\ UNCHANGED <<cs, prev, prev2, pairs, em, refused>>
\* the corpus, word by word
W == ws[n + 1]
T == TagsIn(TS, W)
Unseen == W.lf # NoLF /\ ~HasClass(cl, DOMAIN W.lf)
Misaligned == C.mode = "sup" /\ (n + 1 > Len(ws) \/ Surf(ws[n + 1]) # Surf(vs[n + 1]))
\* the tagged text decides how many words count: what the other has after them is not looked at
Steps == IF C.mode = "sup" THEN Len(vs) ELSE Len(ws)
Refuse == /\ ph = "count" /\ n < Steps /\ ~refused
          /\ IF Misaligned THEN TRUE ELSE Unseen
          /\ refused' = TRUE /\ ph' = "done"
          /\ UNCHANGED <<cs, ws, vs, n, cl, prev, prev2, pairs, em>>
Count == /\ ph = "count" /\ n < Steps /\ ~Misaligned /\ ~Unseen /\ n' = n + 1
         /\ CASE C.mode = "sup" ->
                  \* prev: the tag of the word before, none if it was unknown
                  LET v == vs[n + 1] tag == DOMAIN v.lf k == Index(cl, T) IN
                  /\ prev' = tag
                  /\ pairs' = (IF prev # {} /\ tag # {} THEN Bump(pairs, <<CHOOSE t \in prev : TRUE, CHOOSE t \in tag : TRUE>>) ELSE pairs)
                  /\ em' = (IF tag # {} THEN Bump(em, <<CHOOSE t \in tag : TRUE, k>>) ELSE em)
                  /\ UNCHANGED prev2
             [] C.mode = "uns" ->
                  \* a class counts where a word follows it
                  /\ prev' = T
                  /\ pairs' = Bump(pairs, <<Index(cl, prev), Index(cl, T)>>)
                  /\ em' = Bump(em, Index(cl, prev))
                  /\ UNCHANGED prev2
             [] OTHER ->
                  \* triples of neighbours, the first one after the end of a sentence
                  /\ prev' = T /\ prev2' = prev
                  /\ pairs' = (IF n = 0 THEN pairs ELSE Bump(pairs, <<prev2, prev, T>>))
                  /\ UNCHANGED em
         /\ UNCHANGED <<cs, ph, ws, vs, cl, refused>>
End == ph = "count" /\ n = Steps /\ ph' = "done" /\ UNCHANGED <<cs, ws, vs, n, cl, prev, prev2, pairs, em, refused>>
Next == Load \/ Scan \/ Refuse \/ Count \/ End
Done == ph = "done"
N == NTags(TS)
\* the combinations of a triple no rule excludes
Valid(x) == {y \in x[1] \X x[2] \X x[3] : ValidSeq(TS, y[1], y[2], y[3])}

DomainOK == ph = "count" /\ n = 0 => /\ \A us \in {C.dic, C.crp, C.tagged, C.raw} : \A i \in DOMAIN us : InDomain(TS, us[i])
                                    /\ \A k \in DOMAIN cl : Cardinality(cl[k]) \in 1..6
                                    /\ \A i \in DOMAIN vs : Cardinality(DOMAIN vs[i].lf) <= 1
\* every class once; the open one and one for each tag among them
ClassesOK == ph # "load" /\ ph # "scan" => /\ \A a, b \in DOMAIN cl : cl[a] = cl[b] => a = b
                                          /\ HasClass(cl, OpenOf(TS)) /\ \A t \in AllTags(TS) : HasClass(cl, {t})
                                          /\ UNION {cl[k] : k \in DOMAIN cl} = AllTags(TS)
\* every word is counted once
Conserved == Done /\ ~refused =>
  CASE C.mode = "uns" -> Total(pairs) = Len(ws) /\ Total(em) = Len(ws)
    [] C.mode = "sup" -> Total(em) = Cardinality({i \in DOMAIN vs : vs[i].lf # NoLF})
                         /\ Total(pairs) = Cardinality({i \in DOMAIN vs : vs[i].lf # NoLF /\ (i = 1 \/ (i > 1 /\ vs[i-1].lf # NoLF))})
    [] OTHER -> Total(pairs) = Len(ws) - 1
\* the words between two words of one tag, with their tags and classes
RECURSIVE Stretches(_, _, _)
Stretches(rw, t0, qs) ==
  IF rw = << >> THEN << >>
  ELSE LET U == TagsIn(TS, rw[1]) q == Append(qs, [T |-> SetToSeq(U), k |-> Index(cl, U)])
       IN IF Cardinality(U) > 1 THEN Stretches(Tail(rw), t0, q)
          ELSE <<[t0 |-> t0, qs |-> q]>> \o Stretches(Tail(rw), CHOOSE t \in U : TRUE, << >>)
Tab(f, S) == LET Q == SetToSeq(S) IN [i \in DOMAIN Q |-> <<Q[i], f[Q[i]]>>]
Result ==
  CASE refused -> [x |-> 0]
    [] C.mode = "sup" -> [A |-> LET A == SupA(TS, pairs) IN [i \in 1..N |-> [j \in 1..N |-> A[i-1][j-1]]],
                          B |-> LET B == SupB(TS, cl, em) IN [i \in 1..N |-> Tab(B[i-1], KOf(cl, i-1))],
                          st |-> Stretches(AllWords(TS, C.raw), SENT, << >>)]
    [] C.mode = "uns" -> [A |-> LET A == UnsA(TS, cl, pairs) IN [i \in 1..N |-> [j \in 1..N |-> A[i-1][j-1]]],
                          B |-> LET B == UnsB(TS, cl, em) IN [i \in 1..N |-> Tab(B[i-1], KOf(cl, i-1))],
                          st |-> Stretches(AllWords(TS, C.raw), SENT, << >>)]
    [] OTHER -> [D |-> LET Q == SetToSeq(DOMAIN pairs) IN [i \in DOMAIN Q |-> [n |-> pairs[Q[i]], all |-> SetToSeq(Q[i][1] \X Q[i][2] \X Q[i][3]), ok |-> SetToSeq(Valid(Q[i]))]]]
Dump == Done => PrintT(ToJson([c |-> cs, refused |-> refused, cl |-> [k \in DOMAIN cl |-> SetToSeq(cl[k])],
                               bad |-> SetToSeq({x \in AllTags(TS) \X AllTags(TS) : Forbids(TS, x[1], x[2])}),
                               fa |-> Filtered(TS, AllWords(TS, C.dic)), ls |-> Listed(TS, AllWords(TS, C.crp)), r |-> Result]))
===============================================================================
