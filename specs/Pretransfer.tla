------------------------------ MODULE Pretransfer -----------------------------
(***************************************************************************)
(* apertium-pretransfer as a character machine.  opt.e: '~' separates      *)
(* compounds (-e); opt.n: lexical units carry a surface form to be dropped *)
(* (-n).                                                                   *)
(***************************************************************************)
EXTENDS StreamBase

PStart(opt) == [mode |-> "text",   \* lexical context
                hold |-> FALSE,    \* output of the current unit is being held back (first tag seen)
                tag  |-> FALSE,    \* inside <...>
                queue|-> FALSE,    \* past a '#': characters go to the head word
                buf  |-> << >>,    \* held-back text
                wb   |-> << >>]    \* word-bound blank of the current unit

Go(s, e) == [s |-> s, e |-> e]
InText(s) == [s EXCEPT !.mode = "text"]

ReadText(s, c) ==                                    \* between lexical units
  CASE c = "["  -> Go([s EXCEPT !.mode = "open"], <<"[">>)
    [] c = BSL  -> Go([s EXCEPT !.mode = "esc"], <<BSL>>)
    [] c = "^"  -> Go([s EXCEPT !.mode = "begin", !.wb = << >>], <<"^">>)
    [] OTHER    -> Go(s, <<c>>)

ReadOpen(s, c) ==                                    \* after '['
  IF c = "[" THEN Go([s EXCEPT !.mode = "wb", !.wb = <<"[", "[">>], <<"[">>)
  ELSE IF c = "]" THEN Go(InText(s), <<c>>)
  ELSE IF c = BSL THEN Go([s EXCEPT !.mode = "blankesc"], <<c>>)
  ELSE Go([s EXCEPT !.mode = "blank"], <<c>>)

ReadBlank(s, c) ==
  CASE c = "]" -> Go(InText(s), <<c>>)
    [] c = BSL -> Go([s EXCEPT !.mode = "blankesc"], <<c>>)
    [] OTHER   -> Go(s, <<c>>)

ReadWb(s, c) ==                                      \* inside [[ ]]
  LET t == [s EXCEPT !.wb = Append(@, c)] IN
  CASE c = BSL -> Go([t EXCEPT !.mode = "wbesc"], <<c>>)
    [] c = "]" -> Go([t EXCEPT !.mode = "wbclose"], <<c>>)
    [] OTHER   -> Go(t, <<c>>)

BeginUnit(s, opt) ==
  [s EXCEPT !.mode = IF opt.n THEN "surface" ELSE "unit", !.hold = FALSE, !.tag = FALSE, !.queue = FALSE, !.buf = << >>]

ReadSurface(s, c) ==                                 \* the surface form is dropped
  CASE c = "/" -> Go([s EXCEPT !.mode = "unit"], << >>)
    [] c = BSL -> Go([s EXCEPT !.mode = "surfaceesc"], << >>)
    [] OTHER   -> Go(s, << >>)

Split(s, sep) == [s EXCEPT !.buf = @ \o sep \o s.wb \o <<"^">>]

\* one character c (or escaped pair es) of the analysis
Keep(s, es) == IF s.hold THEN Go([s EXCEPT !.buf = @ \o es], << >>) ELSE Go(s, es)

ReadUnit(s, c, opt) ==
  CASE c = "$" -> Go([InText(s) EXCEPT !.buf = << >>, !.hold = FALSE, !.queue = FALSE, !.wb = << >>], s.buf \o <<"$">>)
    [] c = "<" -> Keep([s EXCEPT !.tag = TRUE, !.hold = TRUE], <<c>>)
    [] c = ">" -> Keep([s EXCEPT !.tag = FALSE], <<c>>)
    [] c = BSL -> Go([s EXCEPT !.mode = "unitesc"], << >>)
    [] c = "#" /\ s.hold -> Go([s EXCEPT !.hold = FALSE, !.queue = TRUE], <<c>>)
    [] c = "+" /\ s.hold /\ ~s.tag -> Go(Split(s, <<"$", " ">>), << >>)
    [] c = "+" /\ ~s.hold /\ s.queue -> Go([Split(s, <<"$", " ">>) EXCEPT !.hold = TRUE], << >>)
    [] c = "~" /\ s.hold /\ ~s.tag /\ opt.e -> Go(Split(s, <<"$">>), << >>)
    [] OTHER -> Keep(s, <<c>>)

PStep(s0, c, opt) ==
  LET s == IF s0.mode = "begin" THEN BeginUnit(s0, opt) ELSE s0 IN
  CASE s.mode = "text"       -> ReadText(s, c)
    [] s.mode = "esc"        -> Go(InText(s), <<c>>)
    [] s.mode = "open"       -> ReadOpen(s, c)
    [] s.mode = "blank"      -> ReadBlank(s, c)
    [] s.mode = "blankesc"   -> Go([s EXCEPT !.mode = "blank"], <<c>>)
    [] s.mode = "wb"         -> ReadWb(s, c)
    [] s.mode = "wbesc"      -> Go([s EXCEPT !.mode = "wb", !.wb = Append(@, c)], <<c>>)
    [] s.mode = "wbclose"    -> Go([s EXCEPT !.mode = "wbend", !.wb = Append(@, c)], <<c>>)
    [] s.mode = "wbend"      -> Go([s EXCEPT !.mode = "begin"], <<c>>)   \* c is '^'
    [] s.mode = "surface"    -> ReadSurface(s, c)
    [] s.mode = "surfaceesc" -> Go([s EXCEPT !.mode = "surface"], << >>)
    [] s.mode = "unit"       -> ReadUnit(s, c, opt)
    [] s.mode = "unitesc"    -> Keep([s EXCEPT !.mode = "unit"], <<BSL, c>>)

PStop(s, opt) == << >>
=============================================================================
