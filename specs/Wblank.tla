-------------------------------- MODULE Wblank --------------------------------
(***************************************************************************)
(* apertium-wblank-attach (A...) and apertium-wblank-detach (D...) as      *)
(* character machines.                                                     *)
(***************************************************************************)
EXTENDS StreamBase

Go(s, e) == [s |-> s, e |-> e]

------------------------------------------------------------------------------
(* word-bound blank contents: "a; b;c" -> <<"a","b","c">> (as texts)          *)
IsPad(c) == c = " " \/ c = ";"
RECURSIVE TrimL(_), TrimR(_), SplitItems(_)
TrimL(x) == IF x # << >> /\ IsPad(x[1]) THEN TrimL(Tail(x)) ELSE x
TrimR(x) == IF x # << >> /\ IsPad(Last1(x)) THEN TrimR(SubSeq(x, 1, Len(x) - 1)) ELSE x
SplitItems(x) ==
  LET k == IndexFrom(x, 1, ";") IN
  IF k = 0 THEN <<x>> ELSE <<SubSeq(x, 1, k - 1)>> \o SplitItems(SubSeq(x, k + 1, Len(x)))
Items(x) == SelectSeq([i \in 1..Len(SplitItems(x)) |-> TrimR(TrimL(SplitItems(x)[i]))], LAMBDA y : y # << >>)

Mem(x, seq) == \E i \in 1..Len(seq) : seq[i] = x
RECURSIVE AddNew(_, _)
AddNew(acc, new) == IF new = << >> THEN acc ELSE AddNew(IF Mem(new[1], acc) THEN acc ELSE Append(acc, new[1]), Tail(new))
RECURSIVE JoinItems(_)
JoinItems(its) == IF its = << >> THEN << >> ELSE IF Len(its) = 1 THEN its[1] ELSE its[1] \o <<";", " ">> \o JoinItems(Tail(its))
Header(its) == IF its = << >> THEN << >> ELSE <<"[", "[">> \o JoinItems(its) \o <<"]", "]">>

------------------------------------------------------------------------------
(* attach: open = items of the open spans, outermost first; cnt[i] = how many *)
(* of them span i added                                                       *)
AStart(opt) == [mode |-> "text", buf |-> << >>, open |-> << >>, cnt |-> << >>]

ACloseBlank(s) ==   \* s.buf holds a complete [..] or [[..]]
  LET b == s.buf  t == [s EXCEPT !.mode = "text", !.buf = << >>] IN
  IF b = <<"[", "[", "/", "]", "]">>
  THEN IF s.cnt = << >> THEN Go(t, << >>)      \* surplus close: ignored
       ELSE Go([t EXCEPT !.open = SubSeq(@, 1, Len(@) - Last1(s.cnt)), !.cnt = SubSeq(@, 1, Len(@) - 1)], << >>)
  ELSE IF StartsWith(b, <<"[", "[">>)
  THEN LET o == AddNew(s.open, Items(SubSeq(b, 3, Len(b) - 2))) IN
       Go([t EXCEPT !.open = o, !.cnt = Append(@, Len(o) - Len(s.open))], << >>)
  ELSE Go(t, b)

AStep(s, c, opt) ==
  IF c = NUL /\ s.mode # "esc"
  THEN Go(AStart(opt), s.buf \o <<NUL>>)      \* flush: an unfinished blank is passed on, everything is forgotten
  ELSE
  CASE s.mode = "text" /\ c = BSL  -> Go([s EXCEPT !.mode = "esc"], <<c>>)
    [] s.mode = "esc"              -> Go([s EXCEPT !.mode = "text"], <<c>>)
    [] s.mode = "text" /\ c = "["  -> Go([s EXCEPT !.mode = "open", !.buf = <<c>>], << >>)
    [] s.mode = "text" /\ c = "^"  -> Go([s EXCEPT !.mode = "unit"], Header(s.open) \o <<c>>)
    [] s.mode = "text"             -> Go(s, <<c>>)
    [] s.mode = "unit" /\ c = "$"  -> Go([s EXCEPT !.mode = "text"], <<c>>)
    [] s.mode = "unit" /\ c = BSL  -> Go([s EXCEPT !.mode = "unitesc"], <<c>>)
    [] s.mode = "unit"             -> Go(s, <<c>>)
    [] s.mode = "unitesc"          -> Go([s EXCEPT !.mode = "unit"], <<c>>)
    [] s.mode = "open" /\ c = "["  -> Go([s EXCEPT !.mode = "wb", !.buf = Append(@, c)], << >>)
    [] s.mode \in {"open", "blank"} /\ c = "]" -> ACloseBlank([s EXCEPT !.buf = Append(@, c)])
    [] s.mode \in {"open", "blank"} /\ c = BSL -> Go([s EXCEPT !.mode = "blankesc", !.buf = Append(@, c)], << >>)
    [] s.mode \in {"open", "blank"}            -> Go([s EXCEPT !.mode = "blank", !.buf = Append(@, c)], << >>)
    [] s.mode = "blankesc"         -> Go([s EXCEPT !.mode = "blank", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb" /\ c = "]"    -> Go([s EXCEPT !.mode = "wbclose", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb" /\ c = BSL    -> Go([s EXCEPT !.mode = "wbesc", !.buf = Append(@, c)], << >>)
    [] s.mode = "wb"               -> Go([s EXCEPT !.buf = Append(@, c)], << >>)
    [] s.mode = "wbesc"            -> Go([s EXCEPT !.mode = "wb", !.buf = Append(@, c)], << >>)
    [] s.mode = "wbclose"          -> ACloseBlank([s EXCEPT !.buf = Append(@, c)])   \* c is the second ']'

AStop(s, opt) == s.buf

------------------------------------------------------------------------------
(* detach: bound = the coming unit carries a word-bound blank *)
DStart(opt) == [mode |-> "text", bound |-> FALSE]
DStep(s, c, opt) ==
  IF c = NUL /\ s.mode # "esc" THEN Go(DStart(opt), <<NUL>>)
  ELSE
  CASE s.mode = "text" /\ c = BSL  -> Go([s EXCEPT !.mode = "esc"], <<c>>)
    [] s.mode = "esc"              -> Go([s EXCEPT !.mode = "text"], <<c>>)
    [] s.mode = "text" /\ c = "["  -> Go([s EXCEPT !.mode = "open"], <<c>>)
    [] s.mode = "text" /\ c = "^"  -> Go([s EXCEPT !.mode = "unit"], <<c>>)
    [] s.mode = "text"             -> Go(s, <<c>>)
    [] s.mode = "unit" /\ c = "$"  -> Go([mode |-> "text", bound |-> FALSE], IF s.bound THEN <<"$", "[", "[", "/", "]", "]">> ELSE <<"$">>)
    [] s.mode = "unit" /\ c = BSL  -> Go([s EXCEPT !.mode = "unitesc"], <<c>>)
    [] s.mode = "unit"             -> Go(s, <<c>>)
    [] s.mode = "unitesc"          -> Go([s EXCEPT !.mode = "unit"], <<c>>)
    [] s.mode = "open" /\ c = "["  -> Go([s EXCEPT !.mode = "wb", !.bound = TRUE], <<c>>)
    [] s.mode \in {"open", "blank"} /\ c = "]" -> Go([s EXCEPT !.mode = "text"], <<c>>)
    [] s.mode \in {"open", "blank"} /\ c = BSL -> Go([s EXCEPT !.mode = "blankesc"], <<c>>)
    [] s.mode \in {"open", "blank"}            -> Go([s EXCEPT !.mode = "blank"], <<c>>)
    [] s.mode = "blankesc"         -> Go([s EXCEPT !.mode = "blank"], <<c>>)
    [] s.mode = "wb" /\ c = "]"    -> Go([s EXCEPT !.mode = "wbclose"], <<c>>)
    [] s.mode = "wb" /\ c = BSL    -> Go([s EXCEPT !.mode = "wbesc"], <<c>>)
    [] s.mode = "wb"               -> Go(s, <<c>>)
    [] s.mode = "wbesc"            -> Go([s EXCEPT !.mode = "wb"], <<c>>)
    [] s.mode = "wbclose"          -> Go([s EXCEPT !.mode = "text"], <<c>>)
DStop(s, opt) == << >>
=============================================================================
