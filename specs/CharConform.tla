------------------------------ MODULE CharConform -----------------------------
(***************************************************************************)
(* Trace validation of a character-stream tool.  Every record of the trace *)
(* file is one run of the real program: opt, inp, out (sequences of        *)
(* one-character strings).  Each behaviour consumes one record, one input  *)
(* character per step through the tool's own Step; the characters the      *)
(* specification emits at that step must be the next ones the program      *)
(* wrote.  CharConform is instantiated by the cfg: Start/Step/Stop are the *)
(* tool specification's operators.                                         *)
(***************************************************************************)
EXTENDS StreamBase, Json, IOUtils

CONSTANTS Start(_), Step(_, _, _), Stop(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES rec,   \* record being validated
          pos,   \* input characters consumed
          opos,  \* output characters explained
          st,    \* abstract state of the tool
          ok     \* the observed output is the specified one so far
vars == <<rec, pos, opos, st, ok>>

Init == /\ rec \in 1..Len(Trace)
        /\ pos = 0 /\ opos = 0 /\ ok = TRUE
        /\ st = Start(Trace[rec].opt)

Agrees(o, e) == opos + Len(e) <= Len(o) /\ SubSeq(o, opos + 1, opos + Len(e)) = e

ReadChar ==
  /\ ok /\ pos < Len(Trace[rec].inp)
  /\ LET r == Step(st, Trace[rec].inp[pos + 1], Trace[rec].opt) IN
       /\ st' = r.s
       /\ opos' = opos + Len(r.e)
       /\ ok' = Agrees(Trace[rec].out, r.e)
       /\ pos' = pos + 1
  /\ UNCHANGED rec

EndOfInput ==
  /\ ok /\ pos = Len(Trace[rec].inp)
  /\ LET e == Stop(st, Trace[rec].opt) IN
       /\ opos' = opos + Len(e)
       /\ ok' = (Agrees(Trace[rec].out, e) /\ opos + Len(e) = Len(Trace[rec].out))
       /\ pos' = pos + 1
  /\ UNCHANGED <<rec, st>>

Next == ReadChar \/ EndOfInput
Conforms == ok
=============================================================================
