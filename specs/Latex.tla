--------------------------------- MODULE Latex ---------------------------------
(***************************************************************************)
(* LaTeX documents: apertium-prelatex turns a document into XML-like text,  *)
(* apertium-utils-fixlatex marks the ends of emphasised groups,             *)
(* apertium-deslatex hides what is not to be translated, and                *)
(* apertium-postlatex-raw or apertium-postlatex write LaTeX again.          *)
(* Each is a machine that takes the longest lexeme its mode knows.          *)
(***************************************************************************)
EXTENDS StreamBase, Json, IOUtils

Table == ndJsonDeserialize(IOEnv.LATEX)[1]
\* Table.acc: [m, l, c, w]: mark, letter, character and how postlatex writes it;
\* Table.lig: [n, c]: ligature name and character; Table.ger: [l, c]; Table.inv: ? and !
Dig == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Low == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"}
Upp == {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
Alpha == Low \cup Upp
Alnum == Alpha \cup Dig
White == {" ", "\t", "\n", "\r"}
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE "@END@"
RECURSIVE RunEnd(_, _, _)      \* the first place from i on that is not in S
RunEnd(s, i, S) == IF At(s, i) \in S THEN RunEnd(s, i + 1, S) ELSE i
IsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE FindAt(_, _, _)      \* the first place from i on where p is, 0 when none
FindAt(s, i, p) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF IsAt(s, i, p) THEN i ELSE FindAt(s, i + 1, p)
\* the texts the specification writes, spelt out once
T(x) == Table.str[x]

Acc(m, l) == LET X == {i \in DOMAIN Table.acc : Table.acc[i].m = m /\ Table.acc[i].l = l} IN
             IF X = {} THEN << >> ELSE <<Table.acc[CHOOSE i \in X : TRUE].c>>
AccOf(c) == LET X == {i \in DOMAIN Table.acc : Table.acc[i].c = c} IN IF X = {} THEN << >> ELSE Table.acc[CHOOSE i \in X : TRUE].w
LigAt(s, i) == LET X == {j \in DOMAIN Table.lig : IsAt(s, i, Table.lig[j].n)} IN IF X = {} THEN 0 ELSE CHOOSE j \in X : TRUE
LigOf(c) == LET X == {i \in DOMAIN Table.lig : Table.lig[i].c = c} IN IF X = {} THEN << >> ELSE Table.lig[CHOOSE i \in X : TRUE].n
GerOf(l) == LET X == {i \in DOMAIN Table.ger : Table.ger[i].l = l} IN IF X = {} THEN << >> ELSE <<Table.ger[CHOOSE i \in X : TRUE].c>>

(* ---------------------------------------------------------------- prelatex *)
\* a lexeme: n long, o is written, mode afterwards, german afterwards, kind and word
Lx(n, o, m, g, k, w) == [n |-> n, o |-> o, m |-> m, g |-> g, k |-> k, w |-> w]
Angle(w) == <<"<">> \o w \o <<"/", ">">>
Cmd(s, i, g) ==       \* \word or \word*
  LET e == RunEnd(s, i + 1, Alpha) w == SubSeq(s, i + 1, e - 1) IN
  IF At(s, e) = "*" THEN Lx(e - i + 1, <<"<">> \o w \o T("star") \o <<"/", ">">>, "text", g, "cmd", w)
  ELSE Lx(e - i, Angle(w), "text", g, "cmd", w)
\* \begin{name} and \end{name}: the name, and what surrounds the braces
Env(s, i, k, g) ==
  LET b == i + (IF k = "begin" THEN 7 ELSE 5) e == RunEnd(s, b, Alnum) star == At(s, e) = "*"
      c == IF star THEN e + 1 ELSE e d == RunEnd(s, c, White) f == RunEnd(s, d + 1, White) IN
  IF At(s, b - 1) = "{" /\ e > b /\ At(s, d) = "}"
  THEN Lx(f - i, <<"<">> \o (IF k = "end" THEN <<"/">> ELSE << >>) \o SubSeq(s, b, e - 1) \o (IF star THEN T("star") ELSE << >>)
                  \o <<">">> \o SubSeq(s, c, d - 1) \o SubSeq(s, d + 1, f - 1), "text", g, k, SubSeq(s, b, e - 1))
  ELSE Lx(1, <<BSL>>, "unmodelled", g, "x", << >>)
VerbDelims == {"|", "!", "?", "/", "#", "+"}
\* \' and the like before a letter, a letter in braces, or a dotless i or j
Accent(s, i, g) ==
  LET m == At(s, i + 1)
      dotless == m \in {"^", "\"", "'", "`"}
      ij(p, q) == IsAt(s, p, <<BSL>>) /\ At(s, p + 1) \in {"i", "j"} /\ q
      x == IF dotless /\ At(s, i + 2) = "{" /\ ij(i + 3, At(s, i + 5) = "}") THEN <<6, At(s, i + 4)>>
           ELSE IF dotless /\ ij(i + 2, TRUE) THEN <<4, At(s, i + 3)>>
           ELSE << >>
      y == IF At(s, i + 2) = "{" /\ At(s, i + 4) = "}" /\ i + 4 <= Len(s) THEN <<5, At(s, i + 3)>> ELSE <<3, At(s, i + 2)>>
      plain == Lx(2, <<BSL, m>>, "text", g, "punct", << >>) IN
  IF x # << >>
  THEN Lx(x[1], IF x[2] = "i" THEN Acc(m, "i") ELSE IF m = "^" THEN <<Table.jhat>> ELSE <<"j">>, "text", g, "chr", << >>)
  ELSE IF Acc(m, y[2]) # << >> /\ y[2] # "i" THEN Lx(y[1], Acc(m, y[2]), "text", g, "chr", << >>)
  ELSE plain
Backslash(s, i, g) ==
  LET c == At(s, i + 1) e == RunEnd(s, i + 1, Alpha) w == Str(SubSeq(s, i + 1, e - 1)) nx == At(s, e)
      close == IndexFrom(s, e + 1, "]")
      vend  == IndexFrom(s, e + 1, nx) IN
  CASE c \in Alpha ->
         CASE w = "l" /\ nx # "*" -> Lx(RunEnd(s, e, {" ", "\t"}) - i, <<Table.lslash>>, "text", g, "chr", << >>)
           [] w = "c" /\ nx = "{" /\ At(s, e + 2) = "}" /\ Acc("c", At(s, e + 1)) # << >> ->
                Lx(5, Acc("c", At(s, e + 1)), "text", g, "chr", << >>)
           [] w \in {"begin", "end"} /\ nx \notin Alnum \cup {"_", "@END@"} -> Env(s, i, w, g)
           [] w = "usepackage" /\ nx = "[" /\ close > 0 ->
                LET o == SubSeq(s, e + 1, close - 1) IN
                Lx(close - i + 1, Angle(SubSeq(s, i + 1, e - 1)) \o T("param") \o o \o T("eparam"), "text",
                   g \/ FindAt(o, 1, T("ngerman")) > 0, "param", << >>)
           [] w = "verb" /\ nx \in VerbDelims /\ vend > e + 1 ->
                Lx(vend - i + 1, T("verb") \o SubSeq(s, e, vend) \o T("everb"), "text", g, "hid", << >>)
           [] OTHER -> Cmd(s, i, g)
    [] c \in {"'", "`", "^", "\"", "~", "=", "."} -> Accent(s, i, g)
    [] c = "#" -> LET d == RunEnd(s, i + 2, Dig) IN
                  Lx(d - i, IF d = i + 2 THEN T("hash") ELSE T("hash_") \o SubSeq(s, i + 2, d - 1) \o <<"/", ">">>, "text", g, "punct", << >>)
    [] c = BSL -> Lx(2, T("br"), "text", g, "punct", << >>)
    [] c = "{" -> Lx(2, T("lbrace"), "text", g, "punct", << >>)
    [] c = "}" -> Lx(2, T("rbrace"), "text", g, "punct", << >>)
    [] c = "%" -> Lx(2, T("percent"), "text", g, "punct", << >>)
    [] c = "$" -> Lx(2, T("dollar"), "text", g, "punct", << >>)
    [] c = "&" -> Lx(2, T("amp"), "text", g, "punct", << >>)
    [] c = "(" -> Lx(2, T("mpar"), "text", g, "beg", T("mpar"))
    [] c = ")" -> Lx(2, T("empar"), "text", g, "fin", T("mpar"))
    [] c = "[" -> Lx(2, T("mbra"), "text", g, "beg", T("mbra"))
    [] c = "]" -> Lx(2, T("embra"), "text", g, "fin", T("mbra"))
    [] OTHER -> Lx(1, <<BSL>>, "text", g, "punct", << >>)
PreText(s, i, g) ==
  LET c == s[i] IN
  CASE c = BSL -> Backslash(s, i, g)
    [] c = "{" -> IF LigAt(s, i) > 0 THEN Lx(Len(Table.lig[LigAt(s, i)].n), <<Table.lig[LigAt(s, i)].c>>, "text", g, "chr", << >>)
                  ELSE Lx(1, T("contents"), "text", g, "lb", << >>)
    [] c = "}" -> Lx(1, T("econtents"), "text", g, "rb", << >>)
    [] c = "\"" -> IF GerOf(At(s, i + 1)) # << >> THEN Lx(2, IF g THEN GerOf(At(s, i + 1)) ELSE SubSeq(s, i, i + 1), "text", g, IF g THEN "chr" ELSE "t", << >>)
                   ELSE Lx(1, T("quot"), "text", g, "punct", << >>)
    [] c = "#" -> Lx(1, T("hashsign"), "text", g, "punct", << >>)
    [] c = "%" -> LET e == IndexFrom(s, i, NL) f == IF e = 0 THEN Len(s) + 1 ELSE e
                      h == IF s[f - 1] = "\r" THEN f - 1 ELSE f IN
                  Lx(f - i, T("comment") \o SubSeq(s, i + 1, h - 1) \o T("ecomment") \o SubSeq(s, h, f - 1), "text", g, "hid", << >>)
    [] c = "[" -> LET e == IndexFrom(s, i, "]") IN
                  IF e = 0 THEN Lx(1, <<c>>, "text", g, "punct", << >>)
                  ELSE Lx(e - i + 1, T("param") \o SubSeq(s, i + 1, e - 1) \o T("eparam"), "text", g, "param", << >>)
    [] c = "~" -> Lx(1, T("nbsp"), "text", g, "punct", << >>)
    [] c = "$" -> IF At(s, i + 1) = "$" THEN Lx(2, T("mds"), "maths", g, "hid", << >>) ELSE Lx(1, T("md"), "math", g, "hid", << >>)
    [] c \in {"?", "!"} /\ At(s, i + 1) = "`" -> Lx(2, <<Table.inv[c]>>, "text", g, "punct", << >>)
    [] c = "'" -> Lx(1, T("apos"), "text", g, "punct", << >>)
    [] c = "<" -> Lx(1, T("lt"), "text", g, "punct", << >>)
    [] c = ">" -> Lx(1, T("gt"), "text", g, "punct", << >>)
    [] c = "&" -> Lx(1, T("ampchar"), "text", g, "punct", << >>)
    [] OTHER -> Lx(1, <<c>>, "text", g, IF c \in White THEN "ws" ELSE "t", << >>)
PreMath(s, i, m, g) ==
  CASE s[i] = BSL /\ At(s, i + 1) \in {BSL, "$"} -> Lx(2, SubSeq(s, i, i + 1), m, g, "hid", << >>)
    [] m = "maths" /\ s[i] = "$" /\ At(s, i + 1) = "$" -> Lx(2, T("emds"), "text", g, "hid", << >>)
    [] m = "math" /\ s[i] = "$" -> Lx(1, T("emd"), "text", g, "hid", << >>)
    [] OTHER -> Lx(1, <<s[i]>>, m, g, "hid", << >>)
PreAt(s, i, m, g) == IF m = "text" THEN PreText(s, i, g) ELSE PreMath(s, i, m, g)
RECURSIVE PreFrom(_, _, _, _, _)
\* the lexemes of a document, with their source
PreFrom(s, i, m, g, acc) ==
  IF i > Len(s) THEN [ls |-> acc, m |-> m]
  ELSE LET x == PreAt(s, i, m, g) IN
       IF x.m = "unmodelled" THEN [ls |-> acc, m |-> x.m]
       ELSE PreFrom(s, i + x.n, x.m, x.g, Append(acc, [s |-> SubSeq(s, i, i + x.n - 1), o |-> x.o, k |-> x.k, w |-> x.w]))
Pre(s) == PreFrom(s, 1, "text", FALSE, << >>)
Written(ls) == Cat([i \in DOMAIN ls |-> ls[i].o])

(* ---------------------------------------------------------------- fixlatex *)
RECURSIVE CountAt(_, _, _)
CountAt(s, i, p) == LET j == FindAt(s, i, p) IN IF j = 0 THEN 0 ELSE 1 + CountAt(s, j + Len(p), p)
Once(s, p) == CountAt(s, 1, p) = 1
RECURSIVE FixFrom(_, _)
FixFrom(s, i) ==
  LET j == FindAt(s, i, T("econtents")) r == SubSeq(s, i, j - 1) IN
  IF j = 0 THEN SubSeq(s, i, Len(s))
  ELSE r \o (IF Once(r, T("contents")) /\ \E x \in {"textit", "textbf", "emph"} : Once(r, T(x) \o T("contents"))
             THEN T("noeos") ELSE T("econtents"))
         \o FixFrom(s, j + Len(T("econtents")))
Fix(s) == FixFrom(s, 1)
RECURSIVE AwkFrom(_, _)
AwkFrom(s, i) == LET j == FindAt(s, i, T("noeos")) IN
  IF j = 0 THEN SubSeq(s, i, Len(s)) ELSE SubSeq(s, i, j - 1) \o T("econtents") \o AwkFrom(s, j + Len(T("noeos")))
Awk(s) == AwkFrom(s, 1)

(* --------------------------------------------------------------- postlatex *)
\* fixed words between < and >, and what they are in LaTeX
Words == Table.words
WordAt1(s, i) == LET X == {j \in DOMAIN Words : IsAt(s, i, Words[j].x)} IN IF X = {} THEN 0 ELSE CHOOSE j \in X : TRUE
Px(n, o, m) == [n |-> n, o |-> o, m |-> m]
\* <name>, <name_STAR>, </name>, <name/> ...
TagAt(s, i) ==
  LET fin == At(s, i + 1) = "/" b == IF fin THEN i + 2 ELSE i + 1 e == RunEnd(s, b, Alnum)
      star == IsAt(s, e, T("star")) f == IF star THEN e + Len(T("star")) ELSE e
      n == SubSeq(s, b, e - 1) \o (IF star THEN <<"*">> ELSE << >>) IN
  IF e = b THEN << >>
  ELSE IF At(s, f) = ">" THEN <<Px(f - i + 1, (IF fin THEN T("end") ELSE T("begin")) \o n \o <<"}">>, "text")>>
  ELSE IF ~fin /\ At(s, f) = "/" /\ At(s, f + 1) = ">" THEN <<Px(f - i + 2, <<BSL>> \o n, "text")>>
  ELSE << >>
HashAt(s, i) == LET b == i + Len(T("hash_")) e == RunEnd(s, b, Dig) IN
  IF IsAt(s, i, T("hash_")) /\ e > b /\ IsAt(s, e, <<"/", ">">>) THEN <<Px(e + 2 - i, <<BSL, "#">> \o SubSeq(s, b, e - 1), "text")>> ELSE << >>
PostText(s, i, raw) ==
  LET c == s[i] w == WordAt1(s, i) IN
  CASE c \in {"<", "&"} /\ w > 0 -> Px(Len(Words[w].x), Words[w].y, Words[w].m)
    [] c = "<" /\ HashAt(s, i) # << >> -> HashAt(s, i)[1]
    [] c = "<" /\ TagAt(s, i) # << >> -> TagAt(s, i)[1]
    [] c = Table.inv["?"] -> Px(1, <<"?", "`">>, "text")
    [] c = Table.inv["!"] -> Px(1, <<"!", "`">>, "text")
    [] raw /\ c = "#" -> Px(1, <<BSL, "#">>, "text")
    [] ~raw /\ LigOf(c) # << >> -> Px(1, LigOf(c), "text")
    [] ~raw /\ AccOf(c) # << >> -> Px(1, AccOf(c), "text")
    [] OTHER -> Px(1, <<c>>, "text")
\* formulas, comments, options and verbatim text end with their own word only
Ends(m) == CASE m = "math" -> <<[x |-> T("emd"), y |-> <<"$">>], [x |-> T("emds"), y |-> <<"$", "$">>]>>
             [] m = "comment" -> <<[x |-> T("ecomment"), y |-> << >>]>>
             [] m = "param" -> <<[x |-> T("eparam"), y |-> <<"]">>]>>
             [] OTHER -> <<[x |-> T("everb"), y |-> << >>]>>
PostIn(s, i, m) == LET X == {j \in DOMAIN Ends(m) : IsAt(s, i, Ends(m)[j].x)} IN
  IF X = {} THEN Px(1, <<s[i]>>, m) ELSE LET e == Ends(m)[CHOOSE j \in X : TRUE] IN Px(Len(e.x), e.y, "text")
RECURSIVE PostFrom(_, _, _, _, _)
PostFrom(s, i, m, raw, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET x == IF m = "text" THEN PostText(s, i, raw) ELSE PostIn(s, i, m) IN
       PostFrom(s, i + x.n, x.m, raw, acc \o x.o)
Post(s, raw) == PostFrom(s, 1, "text", raw, << >>)

(* ------------------------------------------------------ what should come out *)
\* everything as it was, but that characters written as commands become characters
\* (raw) or are all written as commands (not raw)
Canon(c, raw) == IF raw THEN <<c>> ELSE IF LigOf(c) # << >> THEN LigOf(c) ELSE IF AccOf(c) # << >> THEN AccOf(c) ELSE <<c>>
\* ?` for the Spanish marks
Inv(c) == IF c = Table.inv["?"] THEN <<"?", "`">> ELSE IF c = Table.inv["!"] THEN <<"!", "`">> ELSE << >>
NormOf(l, raw) == CASE l.k = "chr" -> Cat([i \in DOMAIN l.o |-> Canon(l.o[i], raw)])
                    [] l.k = "t" -> IF Len(l.s) = 1 THEN (IF Inv(l.s[1]) # << >> THEN Inv(l.s[1]) ELSE Canon(l.s[1], raw)) ELSE l.s
                    \* spaces inside the braces of \end{x } go out of them
                    [] l.k \in {"begin", "end"} ->
                         LET e == CHOOSE i \in DOMAIN l.s : l.s[i] = "}"
                             d == CHOOSE i \in 1..e : l.s[i] \in White \cup {"}"} /\ \A j \in 1..(i - 1) : l.s[j] \notin White \cup {"}"} IN
                         SubSeq(l.s, 1, d - 1) \o <<"}">> \o SubSeq(l.s, d, e - 1) \o SubSeq(l.s, e + 1, Len(l.s))
                    [] OTHER -> l.s
Norm(ls, raw) == Cat([i \in DOMAIN ls |-> NormOf(ls[i], raw)])

(* ------------------------------------------------------ what is translated *)
\* commands whose argument is text
TextArgs == {"part", "chapter", "section", "title", "mline", "thanks", "subsection", "paragraph", "subsubsection",
             "frametitle", "caption", "footnote", "framebox", "textit", "emph", "textbf"}
OptText  == {"part", "chapter", "section", "title", "subsection", "subsubsection"}
Styles   == {"sf", "bf", "em", "sc"}
HidEnvs  == {"equation", "eqnarray", "thebibliography"}
RECURSIVE SkipWs(_, _)
SkipWs(ls, i) == IF i <= Len(ls) /\ ls[i].k = "ws" THEN SkipWs(ls, i + 1) ELSE i
\* the place after the first lexeme from i on that P holds of
SkipTo(ls, i, P(_)) == LET J == {j \in i..Len(ls) : P(ls[j])} IN
  IF J = {} THEN Len(ls) + 1 ELSE 1 + (CHOOSE j \in J : \A k \in J : j <= k)
WordOf(l) == IF l.k = "cmd" THEN Str(l.w) ELSE ""
RECURSIVE VisFrom(_, _, _)
VisFrom(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LET l == ls[i] j == SkipWs(ls, i + 1) nx == IF j <= Len(ls) THEN ls[j].k ELSE "" w == WordOf(l)
           Rb(x) == x.k = "rb"
           Closes(x) == x.k = "end" /\ Str(x.w) = Str(l.w)
           Fins(x) == x.k = "fin" /\ x.w = l.w IN
       CASE l.k \in {"t", "chr"} -> VisFrom(ls, i + 1, acc \o (IF l.k = "t" THEN l.s ELSE l.o))
         [] l.k = "cmd" /\ w \in TextArgs /\ nx = "lb" -> VisFrom(ls, j + 1, acc)
         [] l.k = "cmd" /\ w \in OptText /\ nx = "param" ->
              \* the short title is text, and so is the long one
              LET o == SubSeq(ls[j].s, 2, Len(ls[j].s) - 1) k == SkipWs(ls, j + 1) IN
              VisFrom(ls, IF k <= Len(ls) /\ ls[k].k = "lb" THEN k + 1 ELSE j + 1, acc \o o)
         [] l.k = "cmd" /\ w = "item" /\ i + 1 <= Len(ls) /\ ls[i + 1].k = "param" ->
              LET o == SubSeq(ls[i + 1].s, 2, Len(ls[i + 1].s) - 1) k == SkipWs(ls, i + 2) IN
              VisFrom(ls, IF k <= Len(ls) /\ ls[k].k = "lb" THEN k + 1 ELSE i + 2, acc \o o)
         [] l.k = "lb" /\ j <= Len(ls) /\ WordOf(ls[j]) \in Styles -> VisFrom(ls, j + 1, acc)
         [] l.k = "lb" -> VisFrom(ls, SkipTo(ls, i + 1, Rb), acc)
         [] l.k = "begin" /\ Str(l.w) \in HidEnvs -> VisFrom(ls, SkipTo(ls, i + 1, Closes), acc)
         [] l.k = "begin" /\ Str(l.w) = "block" /\ nx = "lb" -> VisFrom(ls, j + 1, acc)
         [] l.k = "beg" -> VisFrom(ls, SkipTo(ls, i + 1, Fins), acc)
         [] OTHER -> VisFrom(ls, i + 1, acc)
Visible(ls) == VisFrom(ls, 1, << >>)
\* only the letters count
Letters(s) == SelectSeq(s, LAMBDA c : c \notin White \cup Dig \cup {Table.inv["?"], Table.inv["!"]} \cup {BSL, "{", "}", "[", "]", "^", "$", "/", "<", ">", "@", "~", "_", "-", "*", "|", "=", ":", ";", ",", ".", "&", "#", "(", ")", "+", "!", "?", "`", "'", "\"", "%"})
================================================================================
