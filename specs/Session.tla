------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A tool (or a pipeline of tools) that is kept running: it is fed texts,  *)
(* each closed by a null character, and answers each of them, closed by a  *)
(* null character, in order.  A client may wait for each answer before it  *)
(* feeds the next text (the tool must not keep it waiting), or be eager    *)
(* and feed texts ahead of the answers.                                    *)
(*                                                                         *)
(* What a tool holds while it works (variables, windows of words, queues   *)
(* of blanks, open spans, states of recognisers) is modelled as residue:   *)
(* every text leaves its own, and an answer may depend on all the residue  *)
(* there is when the text is taken up.  The guarantee is that the flush    *)
(* wipes all of it: the answer is that of a tool freshly started.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS NTexts,      \* texts are numbered 1..NTexts
          MaxLen,      \* length of the histories looked at
          Eager,       \* the client need not wait
          Wipe         \* TRUE; FALSE: the residue stays (the negative control)
VARIABLES fed,         \* the texts fed, in order
          ans,         \* the answers: [t |-> text, with |-> residue it was worked out with]
          dirty,       \* the residue held
          open         \* the input has not been closed
vars == <<fed, ans, dirty, open>>
Waiting == Len(ans) < Len(fed)       \* a text has not been answered yet
Now == fed[Len(ans) + 1]

SInit == fed = << >> /\ ans = << >> /\ dirty = {} /\ open = TRUE
Feed(t) == /\ open /\ (Waiting => Eager) /\ Len(fed) < MaxLen
           /\ fed' = Append(fed, t) /\ UNCHANGED <<ans, dirty, open>>
Reply(a) == /\ Waiting /\ a.t = Now /\ a.with = dirty
            /\ ans' = Append(ans, a)
            /\ dirty' = (IF Wipe THEN {} ELSE dirty \cup {Now})
            /\ UNCHANGED <<fed, open>>
Close == open /\ (Waiting => Eager) /\ open' = FALSE /\ UNCHANGED <<fed, ans, dirty>>

\* every answer is the one a fresh tool gives
Isolated == \A i \in 1..Len(ans) : ans[i] = [t |-> fed[i], with |-> {}]
\* a client that waits is never more than one answer ahead
Prompt == Len(ans) <= Len(fed) /\ (~Eager => Len(fed) - Len(ans) <= 1)
\* after the flush the tool is as new
AsNew == dirty = {}
Finished == ~open /\ ~Waiting
=============================================================================
