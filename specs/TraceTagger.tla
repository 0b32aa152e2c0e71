------------------------------ MODULE TraceTagger ------------------------------
(* Recorded runs of a tagger: is what it wrote the units of the text, in order,    *)
(* with their blanks, every one with one of its own analyses?                      *)
(* Accepted records are printed; a record that is not printed is no behaviour.     *)
EXTENDS Tagger
ST == INSTANCE StreamTagger
Recs == ndJsonDeserialize(IOEnv.TRACE)      \* [ts (0: whole analyses), units, tail, o, out]
Sets == ndJsonDeserialize(IOEnv.SETS)
VARIABLES rec, ws, n, pos
R == Recs[rec]
Split == R.ts > 0
Init == rec \in 1..Len(Recs) /\ ws = << >> /\ n = -1 /\ pos = 0
Load == /\ n = -1 /\ n' = 0
        /\ ws' = IF Split THEN FoldLeft(LAMBDA a, u : a \o Words(Sets[R.ts], u), << >>, R.units) ELSE R.units
        /\ UNCHANGED <<rec, pos>>
Alternatives(w) == IF Split THEN (IF w.lf = NoLF THEN {Write(w, 0, R.o)} ELSE {Write(w, t, R.o) : t \in DOMAIN w.lf})
                   ELSE IF w.unk THEN {ST!WriteUnit(w, 0, R.o)} ELSE {ST!WriteUnit(w, i, R.o) : i \in DOMAIN w.anas}
Read == /\ n >= 0 /\ n < Len(ws)
        /\ \E x \in Alternatives(ws[n + 1]) :
             /\ pos + Len(x) <= Len(R.out) /\ SubSeq(R.out, pos + 1, pos + Len(x)) = x
             /\ pos' = pos + Len(x)
        /\ n' = n + 1 /\ UNCHANGED <<rec, ws>>
Next == Load \/ Read
Accept == n >= 0 /\ n = Len(ws) /\ SubSeq(R.out, pos + 1, Len(R.out)) = R.tail => PrintT(ToJson([c |-> rec]))
===============================================================================
