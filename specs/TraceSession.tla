----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Recorded sessions of the real tools against Session.  A record is       *)
(*   [fresh: text -> number of the answer of a fresh tool,                 *)
(*    ev: the events of the session in order:                              *)
(*        [e: "feed", t: text number, o: 0],                               *)
(*        [e: "ans", t: 0, o: number of what came back up to the null],    *)
(*        [e: "close", t: 0, o: 0],                                        *)
(*        [e: "end", t: 0, o: 0, or 1 if anything came after the answers]] *)
(* Answers are numbered by the recorder: equal answers, equal numbers.     *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, TLC
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES rec, pos
Init == SInit /\ rec \in 1..Len(Recs) /\ pos = 0
E == Recs[rec].ev[pos + 1]
\* an answer is worked out without residue exactly when it is the fresh one
Read(o) == [t |-> Now, with |-> IF o = Recs[rec].fresh[Now] THEN {} ELSE {0}]
Next == /\ pos < Len(Recs[rec].ev)
        /\ pos' = pos + 1 /\ UNCHANGED rec
        /\ \/ E.e = "feed" /\ Feed(E.t)
           \/ E.e = "ans" /\ Waiting /\ Reply(Read(E.o))
           \/ E.e = "close" /\ Close
           \/ E.e = "end" /\ Finished /\ E.o = 0 /\ UNCHANGED vars
\* a session conforms when all its events are steps of Session
Accept == pos = Len(Recs[rec].ev) => PrintT(ToJson([c |-> rec]))
=============================================================================
