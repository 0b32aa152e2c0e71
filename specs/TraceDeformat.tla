---------------------------- MODULE TraceDeformat -----------------------------
(***************************************************************************)
(* Runs of the real deformatters and reformatters (one record each: format,*)
(* options, document, stream written by the deformatter, document written  *)
(* by the reformatter from that stream) against Deformat, token by token.  *)
(* A record without a deformatter run (kind "re") starts from its stream.  *)
(***************************************************************************)
EXTENDS Deformat
CONSTANT What   \* "stream": what the deformatter writes; "back": what comes back
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, phase, d, r, opos, ok
Rec == Trace[rec]
Init == /\ rec \in 1..Len(Trace) /\ phase = Trace[rec].kind /\ d = DStart /\ r = RStart /\ opos = 0 /\ ok = TRUE
Agrees(o, e) == (phase = "des" /\ What = "back") \/ (opos + Len(e) <= Len(o) /\ SubSeq(o, opos + 1, opos + Len(e)) = e)
DeformatToken ==
  /\ ok /\ phase = "des"
  /\ LET q == DStep(Formats[Rec.f], Rec.inp, d, Rec.opt) IN
       /\ d' = q.s
       /\ IF q.s.done
          THEN /\ ok' = (What = "back" \/ (Agrees(Rec.out, q.e) /\ opos + Len(q.e) = Len(Rec.out)))
               /\ opos' = 0 /\ phase' = IF Rec.opt.o \/ What = "stream" THEN "done" ELSE "re"
          ELSE ok' = Agrees(Rec.out, q.e) /\ opos' = opos + Len(q.e) /\ phase' = phase
  /\ UNCHANGED <<rec, r>>
ReformatToken ==
  /\ ok /\ phase = "re"
  /\ LET q == RStep(Formats[Rec.f], Rec.out, r) IN
       /\ r' = q.s
       /\ opos' = opos + Len(q.e)
       /\ phase' = IF q.s.done THEN "done" ELSE phase
       /\ ok' = (Agrees(Rec.back, q.e) /\ (q.s.done => opos = Len(Rec.back) /\ (Rec.kind = "des" => Rec.back = d.norm)))
  /\ UNCHANGED <<rec, d>>
Next == DeformatToken \/ ReformatToken
Conforms == ok
=============================================================================
