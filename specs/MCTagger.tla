------------------------------- MODULE MCTagger -------------------------------
EXTENDS Tagger
(* The machine reads a text and decides it stretch by stretch (HMM) or word by word (window). *)
Sets   == ndJsonDeserialize(IOEnv.SETS)
Models == ndJsonDeserialize(IOEnv.MODELS)
Cases  == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, ws, n, best, pend, chosen, out
vars == <<cs, ws, n, best, pend, chosen, out>>
C == Cases[cs]
M == Models[C.m]
TS == Sets[M.ts]
AllWords(c) == LET ts == Sets[Models[c.m].ts] IN
  FoldLeft(LAMBDA a, u : a \o Words(ts, u), << >>, c.units) \o <<EofWord(c.tail)>>
Init == /\ cs \in 1..Len(Cases) /\ ws = << >> /\ n = -1 /\ best = StartAt(SENT) /\ pend = << >> /\ chosen = << >> /\ out = ""
Load == n = -1 /\ n' = 0 /\ ws' = AllWords(C) /\ UNCHANGED <<cs, best, pend, chosen, out>>
\* read a word; when it has one tag, everything read since the last such word is decided and written
Hmm == /\ M.kind = "hmm" /\ n >= 0 /\ n < Len(ws)
       /\ n' = n + 1
       /\ LET q == Ask(M, ws[n + 1])
              b == Extend(M, best, q)
          IN IF Cardinality(q.T) > 1 THEN best' = b /\ pend' = Append(pend, q) /\ UNCHANGED <<chosen, out>>
             ELSE LET t == CHOOSE t \in q.T : TRUE IN
                  \E p \in b[t].P :
                    /\ best' = StartAt(t) /\ pend' = << >> /\ chosen' = chosen \o p
                    /\ out' = FoldLeft(LAMBDA a, i : a \o Write(ws[n + 1 - Len(p) + i], p[i], C.o), out, [i \in 1..Len(p) |-> i])
       /\ UNCHANGED <<cs, ws>>
Window == /\ M.kind = "lsw" /\ n >= 0 /\ n < Len(ws)
          /\ LET L == IF n = 0 THEN {SENT} ELSE WTags(ws[n])
                 w == ws[n + 1]
             IN IF n + 1 = Len(ws) THEN n' = n + 1 /\ chosen' = Append(chosen, KEOF) /\ out' = out \o w.bl
                ELSE \E t \in BestWindow(M, L, w, WTags(ws[n + 2])) :
                      n' = n + 1 /\ chosen' = Append(chosen, t) /\ out' = out \o Write(w, t, C.o)
          /\ UNCHANGED <<cs, ws, best, pend>>
Next == Load \/ Hmm \/ Window
Done == n >= 0 /\ n = Len(ws)
\* word by word agrees with the definition
Optimal == pend # << >> /\ Len(pend) <= 4 =>
   LET t0 == IF Len(chosen) = 0 THEN SENT ELSE chosen[Len(chosen)] IN
   BestPaths(M, t0, pend) = UNION {best[t].P : t \in {t \in DOMAIN best : \A u \in DOMAIN best : best[u].s <= best[t].s}}

DomainOK == n = 0 => \A i \in DOMAIN C.units : InDomain(TS, C.units[i])
(* every word gets one of its own tags; nothing is lost, added or reordered *)
OwnTag == \A i \in DOMAIN chosen : ws[i].lf = NoLF \/ chosen[i] \in DOMAIN ws[i].lf
\* the chosen parts of a unit, joined, are one of its analyses
RECURSIVE Joined(_, _)
Joined(i, acc) == \* texts of the units from word i on
  IF i > Len(chosen) THEN << >>
  ELSE LET w == ws[i] s == acc \o (IF w.lf = NoLF THEN <<"*">> \o w.surf ELSE w.lf[chosen[i]])
       IN IF w.last THEN <<s>> \o Joined(i + 1, << >>) ELSE Joined(i + 1, Append(s, "+"))
UnitsKept == Done => LET J == Joined(1, << >>) IN
   /\ Len(J) = Len(C.units) + 1
   /\ \A i \in DOMAIN C.units : IF C.units[i].unk THEN J[i] = <<"*">> \o C.units[i].surf
                                ELSE \E a \in DOMAIN C.units[i].anas : C.units[i].anas[a] = J[i]
Dump == Done => PrintT(ToJson([c |-> cs, o |-> out]))
===============================================================================
