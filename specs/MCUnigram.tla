------------------------------- MODULE MCUnigram -------------------------------
EXTENDS StreamTagger
(* Train on a corpus, then tag a text unit by unit. *)
Models == ndJsonDeserialize(IOEnv.MODELS)    \* [kind, corpus: units]
Cases  == ndJsonDeserialize(IOEnv.CASES)     \* [m, units, tail, o]
Corpora == [i \in DOMAIN Models |-> [u \in DOMAIN Models[i].corpus |-> [a \in DOMAIN Models[i].corpus[u] |-> Morphs(Models[i].corpus[u][a])]]]
VARIABLES cs, n, chosen, out
vars == <<cs, n, chosen, out>>
C == Cases[cs]
Init == cs \in 1..Len(Cases) /\ n = 0 /\ chosen = << >> /\ out = ""
Tag == /\ n < Len(C.units) /\ n' = n + 1
       /\ LET u == C.units[n + 1]
              corpus == Corpora[C.m]
              i == Choose(Models[C.m].kind, corpus, Weight(corpus), u)
          IN chosen' = Append(chosen, i) /\ out' = out \o WriteUnit(u, i, C.o)
       /\ UNCHANGED cs
Next == Tag
Done == n = Len(C.units)
\* one analysis of every known unit, in order
OwnAnalysis == \A i \in DOMAIN chosen : IF C.units[i].unk THEN chosen[i] = 0 ELSE chosen[i] \in DOMAIN C.units[i].anas
Dump == Done => PrintT(ToJson([c |-> cs, o |-> out \o C.tail]))
===============================================================================
