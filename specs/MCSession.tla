------------------------------ MODULE MCSession -------------------------------
\* All histories of up to MaxLen texts; those of full length are written out to be replayed.
EXTENDS Session, Json, TLC
Init == SInit
Next == (\E t \in 1..NTexts : Feed(t)) \/ (Waiting /\ Reply([t |-> Now, with |-> dirty])) \/ Close
Dump == (Finished /\ Len(fed) = MaxLen) => PrintT(ToJson([h |-> fed]))
\* there is always an answer to come, or nothing to answer
Progress == Waiting => ENABLED Reply([t |-> Now, with |-> dirty])
=============================================================================
