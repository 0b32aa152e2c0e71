------------------------------ MODULE MCGenModes ------------------------------
(***************************************************************************)
(* Cases from a file: [modes: .., inst: bool, dir: absolute directory the  *)
(* names of files are taken from].                                         *)
(***************************************************************************)
EXTENDS GenModes, Json, IOUtils
Names_ == ndJsonDeserialize(IOEnv.NAMES)[1]
KC == Names_.k
AC == Names_.alphabet
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
Decl == Cases[c].modes
Init == c \in 1..Len(Cases) /\ GInit(Cases[c].modes)
Next == Derive /\ UNCHANGED c
Done == todo = << >>
Path(f) == IF f # << >> /\ f[1] = "/" THEN f ELSE Cases[c].dir \o <<"/">> \o f
\* what holds at every moment
DeclaredKept == SubSeq(modes, 1, Len(Decl)) = Decl
NoDouble == \A i, j \in 1..Len(modes) : modes[i].name = modes[j].name => i = j
\* every derived mode is a prefix of a mode marked gendebug, but for options and the analyser; it is never installed
IsPrefixOf(d, m) == /\ Len(d.steps) <= Len(m.steps)
                    /\ \A i \in 1..Len(d.steps) : /\ Len(d.steps[i].args) = Len(m.steps[i].args)
                                                  /\ i < Len(d.steps) => d.steps[i].cmd = m.steps[i].cmd
                                                  /\ \A a \in 1..Len(d.steps[i].args) : d.steps[i].args[a] \in {m.steps[i].args[a], Untrimmed(m.steps[i].args[a])}
Derived == \A i \in (Len(Decl) + 1)..Len(modes) : ~modes[i].install /\ \E m \in 1..Len(Decl) : Decl[m].debug /\ IsPrefixOf(modes[i], Decl[m])
\* every step of such a mode can be looked at
AllSteps == Done => \A m \in 1..Len(Decl) : Decl[m].debug => \A i \in 1..Len(Decl[m].steps) : \A k \in 1..Len(SuffOf(Decl[m].steps[i])) : (Decl[m].name \o SuffOf(Decl[m].steps[i])[k]) \in Names(modes)
Dump == Done => PrintT(ToJson([c |-> c, files |-> [i \in Written(Cases[c].inst) |-> [n |-> Str(modes[i].name), l |-> Str(Line(modes[i], Path))]]]))
=============================================================================
