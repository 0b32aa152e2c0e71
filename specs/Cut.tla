------------------------------- MODULE Cut -------------------------------
(***************************************************************************)
(* The Apertium stream as a language, read by a machine with a stack, and  *)
(* what a stage owes its user when the stream is cut: the process before   *)
(* it may die at any character.  A cut is clean when nothing is open.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
BSL == "\\"
NUL == "@NUL@"
Ch(t) == [i \in 1..Len(t) |-> SubSeq(t, i, i)]
Empty == [st |-> << >>,        \* what is open: "blank", "wb" (word-bound blank), "unit", "body" (of a chunk)
          esc |-> FALSE,       \* after a backslash
          fresh |-> FALSE,     \* after the bracket that opens a blank
          half |-> FALSE,      \* after the first bracket (brace) of two that close
          need |-> FALSE,      \* a word-bound blank is closed, its unit comes next
          bad |-> FALSE]       \* no longer a stream
Top(s) == IF s.st = << >> THEN "text" ELSE s.st[Len(s.st)]
Push(s, x) == [s EXCEPT !.st = Append(@, x)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Bad(s) == [s EXCEPT !.bad = TRUE]
Between(s, c) ==               \* between units
  IF s.half THEN IF c = "$" THEN Pop(Pop([s EXCEPT !.half = FALSE])) ELSE Bad(s)
  ELSE IF s.need THEN IF c = "^" THEN Push([s EXCEPT !.need = FALSE], "unit") ELSE Bad(s)
  ELSE CASE c = "[" -> [Push(s, "blank") EXCEPT !.fresh = TRUE]
         [] c = "^" -> Push(s, "unit")
         [] c = "}" /\ Top(s) = "body" -> [s EXCEPT !.half = TRUE]
         [] c \in {"]", "$"} -> Bad(s)
         [] OTHER -> s
Step(s, c, chunks) ==
  IF s.bad THEN s
  ELSE IF c = NUL THEN IF s = Empty THEN s ELSE Bad(s)
  ELSE IF s.esc THEN [s EXCEPT !.esc = FALSE]
  ELSE IF c = BSL THEN IF s.half \/ s.need THEN Bad(s) ELSE [s EXCEPT !.esc = TRUE, !.fresh = FALSE]
  ELSE CASE Top(s) \in {"text", "body"} -> Between(s, c)
         [] Top(s) = "blank" -> IF s.fresh /\ c = "[" THEN Push(Pop([s EXCEPT !.fresh = FALSE]), "wb")
                                ELSE IF c = "]" THEN Pop([s EXCEPT !.fresh = FALSE])
                                ELSE [s EXCEPT !.fresh = FALSE]
         [] Top(s) = "wb" -> IF c = "]" THEN IF s.half THEN [Pop(s) EXCEPT !.half = FALSE, !.need = TRUE] ELSE [s EXCEPT !.half = TRUE]
                             ELSE IF s.half THEN Bad(s) ELSE s
         [] Top(s) = "unit" -> CASE c = "$" -> Pop(s)
                                 [] c = "{" /\ chunks -> Push(s, "body")
                                 [] c \in {"^", "[", "]"} -> Bad(s)
                                 [] OTHER -> s
Clean(s) == s = Empty
(* How much of it stands.  A stage that looks no further than the character *)
(* it reads ("all") has given what there is to give for all of the stream   *)
(* before a cut; one that chooses between analyses ("settled") for all up   *)
(* to the last unit that leaves no choice; one that looks at whole texts    *)
(* ("answered") for those that were closed by a null character.             *)
RECURSIVE ReadAll(_, _, _)
ReadAll(s, t, chunks) == IF t = << >> THEN s ELSE ReadAll(Step(s, Head(t), chunks), Tail(t), chunks)

\* some characters that close whatever is open
RECURSIVE Closing(_)
Closing(s) ==
  IF s.esc THEN <<"x">> \o Closing([s EXCEPT !.esc = FALSE])
  ELSE IF s.need THEN <<"^", "x">> \o Closing([Push(s, "unit") EXCEPT !.need = FALSE])
  ELSE CASE Top(s) = "text" -> << >>
         [] Top(s) = "blank" -> <<"]">> \o Closing([Pop(s) EXCEPT !.fresh = FALSE])
         [] Top(s) = "wb" -> (IF s.half THEN <<"]">> ELSE <<"]", "]">>) \o Closing([Pop(s) EXCEPT !.half = FALSE, !.need = TRUE])
         [] Top(s) = "unit" -> <<"$">> \o Closing(Pop(s))
         [] Top(s) = "body" -> (IF s.half THEN <<"$">> ELSE <<"}", "$">>) \o Closing(Pop(Pop([s EXCEPT !.half = FALSE])))

(***************************************************************************)
(* What is cut: words of streams, one vocabulary for each kind of stage.   *)
(***************************************************************************)
Vocabulary == [
  plain  |-> <<"a", " ", "\\^", "[x]", "[\\]y]", "[[t:b:1]]^a<n>$", "^a<n>+b<v># c$", "^\\/x<n>$", "^*u$">>,
  surf   |-> <<"a", "[ ]", "\\$", "^\\/s/a<n>+b<v>$", "[[t:b:1]]^s/a# b<n>$", "^u/*u$", "^a/x<n>/y<v>$">>,
  tagged |-> <<" ", "[x]", "^a/x<n>$", "^u/*u$", "^b\\$/y\\<<v>$", "^c/z<v># q$", "^a/x<n>/x<v>$", "^d/x<n>/y<adj>$", "^./.<sent>$">>,
  trans  |-> <<" ", "[x\\]]", "^k<adj>/m<adj>$", "^*u/*u$", "[[t:b:1]]^h\\/<adj>/g\\^<adj>$", "^q<u>/@q<u>$">>,
  chunk  |-> <<" ", "[x]", "^x<X>{^a<b>$}$", "^y<Y>{}$", "^z<X>{^a\\}<b>$[ ]^c<d>$}$", "^w<X>{[[t:b:1]]^a<b>$ ^c<d>$}$", "^*u$">>,
  caps   |-> <<" ", "[x]", "[[c:aa/aa]]^x<n>/y$", "[[t:b:1; c:AA/Aa]]^z<v>/w\\/$", "^x<n>/y$", "[[t:b:1]]^u/v$">>,
  html   |-> <<"a", ".\n", "<b x=\"y\">", "</p>", "&lt;", "<!-- c -->", "<script>d</script>", "[", "^">>,
  txt    |-> <<"a", ".", "\n\n", " ", "[", "\\", "$", "(b)">>,
  tex    |-> <<"a", "\\emph{b}", "$x$", "%c\n", "\\begin{d}e\\end{d}", "\\'e", "{\\bf f}", "[", "\\\\">>,
  rtf    |-> <<"a", "{\\b c}", "\\'e1", "\\par ", "\\{", "[", "\\u233 ?", "{\\pict d}">>,
  xml    |-> <<"a", "<t x='y'>", "</t>", "&amp;", "<w:t>b</w:t>", "<text:p>c</text:p>", "[", "<!-- d -->">>,
  wiki   |-> <<"a", "'''b'''", "[[c|d]]", "{{e}}", "\n* f", "<nowiki>g</nowiki>", "[", "== h ==">>,
  hidden |-> <<"a", " ", "[<b>]", "[][ \n]", "\\[", "\\\\", ".[]", "&">>,
  latexm |-> <<"a", "<MATH>x</MATH>", "<CONTENTS/>", "<emph>b</emph>", "&lt;", "<PERCENTAGE/>", "<CMD0>", "\n">>]
Streams == {"plain", "surf", "tagged", "trans", "chunk", "caps"}
Chunks(k) == k = "chunk"
\* the tools, the kind each reads, and whether what it writes is a stream again ("chunk": of chunks)
Stages == <<
  [tool |-> "pretransfer", holds |-> "all", in |-> "plain", out |-> "lu"], [tool |-> "pretransfer-n", holds |-> "all", in |-> "surf", out |-> "lu"],
  [tool |-> "posttransfer", holds |-> "all", in |-> "plain", out |-> "lu"], [tool |-> "cleanstream", holds |-> "all", in |-> "surf", out |-> "none"],
  [tool |-> "multiple-translations", holds |-> "all", in |-> "plain", out |-> "none"],
  [tool |-> "wblank-attach", holds |-> "all", in |-> "plain", out |-> "lu"], [tool |-> "wblank-detach", holds |-> "all", in |-> "caps", out |-> "none"],
  [tool |-> "extract-caps", holds |-> "all", in |-> "surf", out |-> "lu"], [tool |-> "restore-caps", holds |-> "all", in |-> "caps", out |-> "none"],
  [tool |-> "tagger", holds |-> "settled", in |-> "tagged", out |-> "lu"], [tool |-> "transfer", holds |-> "all", in |-> "trans", out |-> "chunk"],
  [tool |-> "interchunk", holds |-> "all", in |-> "chunk", out |-> "chunk"], [tool |-> "postchunk", holds |-> "all", in |-> "chunk", out |-> "lu"],
  [tool |-> "tagger-x", holds |-> "answered", in |-> "tagged", out |-> "lu"],
  [tool |-> "html", holds |-> "all", in |-> "html", out |-> "lu"], [tool |-> "txt", holds |-> "all", in |-> "txt", out |-> "lu"], [tool |-> "tex", holds |-> "all", in |-> "tex", out |-> "lu"],
  [tool |-> "rtf", holds |-> "all", in |-> "rtf", out |-> "lu"], [tool |-> "xml", holds |-> "all", in |-> "xml", out |-> "lu"], [tool |-> "wiki", holds |-> "all", in |-> "wiki", out |-> "lu"],
  [tool |-> "re", holds |-> "all", in |-> "hidden", out |-> "none"], [tool |-> "latex", holds |-> "all", in |-> "tex", out |-> "none"], [tool |-> "relatex", holds |-> "all", in |-> "latexm", out |-> "none"]>>
===========================================================================
