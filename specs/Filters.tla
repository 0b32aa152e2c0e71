------------------------------- MODULE Filters --------------------------------
(***************************************************************************)
(* apertium-posttransfer (X...) and apertium-cleanstream (C...).           *)
(***************************************************************************)
EXTENDS StreamBase
Go(s, e) == [s |-> s, e |-> e]

\* posttransfer: runs of spaces become one space, nothing else changes
XStart(opt) == [sp |-> FALSE]
XStep(s, c, opt) == Go([sp |-> c = " "], IF s.sp /\ c = " " THEN << >> ELSE <<c>>)
XStop(s, opt) == << >>

\* cleanstream: opt.n newline mode, opt.b keep blanks.  text = characters between tokens are pending
CStart(opt) == [mode |-> "text", text |-> FALSE, buf |-> << >>]
WS(opt) == IF opt.n THEN NL ELSE " "
CBlankDone(s, opt) == Go([s EXCEPT !.mode = "text", !.buf = << >>], IF opt.b THEN s.buf ELSE << >>)
CStep(s, c, opt) ==
  CASE s.mode = "text" /\ c = "^" -> Go([s EXCEPT !.mode = "unit", !.text = FALSE], (IF s.text \/ opt.n THEN <<WS(opt)>> ELSE << >>) \o <<c>>)
    [] s.mode = "text" /\ c = BSL -> Go([s EXCEPT !.mode = "esc", !.text = TRUE], << >>)
    [] s.mode = "esc"             -> Go([s EXCEPT !.mode = "text"], << >>)
    [] s.mode = "text" /\ c = "[" -> Go([s EXCEPT !.mode = "open", !.buf = <<c>>], <<WS(opt)>>)
    [] s.mode = "text"            -> Go([s EXCEPT !.text = TRUE], << >>)
    [] s.mode = "unit" /\ c = "$" -> Go([s EXCEPT !.mode = "text"], <<c>>)
    [] s.mode = "unit" /\ c = BSL -> Go([s EXCEPT !.mode = "unitesc"], <<c>>)
    [] s.mode = "unit"            -> Go(s, <<c>>)
    [] s.mode = "unitesc"         -> Go([s EXCEPT !.mode = "unit"], <<c>>)
    [] s.mode = "open" /\ c = "[" -> Go([s EXCEPT !.mode = "wb", !.buf = Append(@, c)], << >>)
    [] s.mode \in {"open", "blank"} /\ c = "]" -> CBlankDone([s EXCEPT !.buf = Append(@, c)], opt)
    [] s.mode \in {"open", "blank"} /\ c = BSL -> Go([s EXCEPT !.mode = "blankesc", !.buf = Append(@, c)], << >>)
    [] s.mode \in {"open", "blank"}            -> Go([s EXCEPT !.mode = "blank", !.buf = Append(@, c)], << >>)
    [] s.mode = "blankesc"        -> Go([s EXCEPT !.mode = "blank", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb" /\ c = "]"   -> Go([s EXCEPT !.mode = "wbclose", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb" /\ c = BSL   -> Go([s EXCEPT !.mode = "wbesc", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb"              -> Go([s EXCEPT !.buf = Append(@, c)], << >>)
    [] s.mode = "wbesc"           -> Go([s EXCEPT !.mode = "wb", !.buf = Append(@, c)], << >>)
    [] s.mode = "wbclose"         -> CBlankDone([s EXCEPT !.buf = Append(@, c)], opt)
CStop(s, opt) == IF opt.n THEN <<NL>> ELSE << >>
=============================================================================
