----------------------------- MODULE MCPerceptron -----------------------------
EXTENDS Perceptron
(* The features of every word of every analysis of every unit of a sentence.       *)
(* Cases: [sp, us, tg]: an .mtx file, the units and their tagging.                  *)
Mtx   == ndJsonDeserialize(IOEnv.MTX)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, t, a, w, fs
vars == <<cs, t, a, w, fs>>
C == Cases[cs]
SP == Mtx[C.sp]
Ts == [C.tg EXCEPT ![t] = C.us[t].ans[a]]
Parts == 15
Init == cs \in {0 - i : i \in 1..Parts} /\ t = 0 /\ a = 0 /\ w = 0 /\ fs = << >>
Pick == /\ cs < 0 /\ \E x \in {y \in 1..Len(Cases) : y % Parts = (-cs) - 1} : cs' = x
        /\ t' = 1 /\ a' = 1 /\ w' = 1 /\ UNCHANGED fs
\* words one by one
Word2 == /\ cs > 0 /\ t <= Len(C.us)
         /\ IF a > Len(C.us[t].ans) THEN t' = t + 1 /\ a' = 1 /\ w' = 1 /\ UNCHANGED fs
            ELSE IF w > Len(C.us[t].ans[a]) THEN a' = a + 1 /\ w' = 1 /\ UNCHANGED <<t, fs>>
            ELSE /\ fs' = Append(fs, [t |-> t - 1, a |-> a - 1, w |-> w - 1, f |-> Range1(Features(SP, Ts, C.us, t - 1, w - 1))])
                 /\ w' = w + 1 /\ UNCHANGED <<t, a>>
         /\ UNCHANGED cs
Next == Pick \/ Word2
Done == cs > 0 /\ t > Len(C.us)
\* a feature bears the number of a <feat>, and has a part for every <out> at most
OwnFeat == \A i \in DOMAIN fs : \A x \in fs[i].f : x.f \in 0..Len(SP.feats) - 1
\* a <feat> that gives anything gives features of one length, unless it loops
Dump == Done => PrintT(ToJson([c |-> cs, fs |-> [i \in DOMAIN fs |-> [t |-> fs[i].t, a |-> fs[i].a, w |-> fs[i].w,
                   f |-> SetToSeq({[f |-> x.f, p |-> [j \in DOMAIN x.p |-> Text(x.p[j])]] : x \in fs[i].f})]]]))
===============================================================================
