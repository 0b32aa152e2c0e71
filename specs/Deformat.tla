------------------------------- MODULE Deformat -------------------------------
(***************************************************************************)
(* Deformatters and reformatters (apertium-desX, apertium-reX).            *)
(*                                                                         *)
(* A format is data (formats.json): rules with regular expressions, read   *)
(* in the initial state or inside a comment; characters that are escaped   *)
(* in the stream; replacements of markup by characters and back.           *)
(* The deformatter reads one token per step: of all rules of the current   *)
(* state the one with the longest match, the first of those.  What is      *)
(* format collects in buf and is written as one superblank before the next *)
(* text character; a format token that ends a sentence puts ".[]" before   *)
(* it.  The reformatter undoes that.                                       *)
(***************************************************************************)
EXTENDS StreamBase, Json, IOUtils

DGo(s, e) == [s |-> s, e |-> e]
BIG  == "@BIG@"     \* a tab, written 9000 times in the real input
FILE == "@FILE@"    \* stands for the name of the file a large block is put in
END  == "@END@"

RECURSIVE Conv(_)
Conv(n) == IF n.k = "set" THEN [k |-> "set", s |-> TLCEval(ToSet(n.s) \cup (IF "\t" \in ToSet(n.s) THEN {BIG} ELSE {})), neg |-> n.neg]
           ELSE IF n.k \in {"cat", "alt"} THEN [k |-> n.k, a |-> TLCEval([i \in DOMAIN n.a |-> Conv(n.a[i])])]
           ELSE IF n.k = "bol" THEN n
           ELSE [k |-> n.k, r |-> Conv(n.r)]
ConvRules(rs) == TLCEval([i \in DOMAIN rs |-> [act |-> rs[i].act, eos |-> rs[i].eos, eoh |-> rs[i].eoh, push |-> rs[i].push, re |-> Conv(rs[i].re)]])
Table(t) == TLCEval([x \in {t[i][1] : i \in DOMAIN t} |-> t[CHOOSE i \in DOMAIN t : t[i][1] = x][2]])
Raw == JsonDeserialize(IOEnv.FORMATS)
Names == DOMAIN Raw
Formats == TLCEval([f \in Names |->
   [init |-> ConvRules(Raw[f].init),
    states |-> TLCEval([i \in DOMAIN Raw[f].states |-> ConvRules(Raw[f].states[i])]),
    esc |-> TLCEval(ToSet(Raw[f].esc)), subst |-> Table(Raw[f].subst), pref |-> Table(Raw[f].pref)]])

------------------------------------------------------------------------------
\* ends of the matches of r in s that start at a position of I (a match of s[i..j-1] ends at j)
In(r, c) == (c \in r.s) # r.neg
RECURSIVE M(_, _, _)
RECURSIVE Star(_, _, _, _)
Star(r, s, front, all) == IF front = {} THEN all
                          ELSE LET n == M(r, s, front) \ all IN Star(r, s, n, all \cup n)
RECURSIVE CatM(_, _, _, _)
CatM(a, i, s, I) == IF I = {} \/ i > Len(a) THEN I ELSE CatM(a, i + 1, s, M(a[i], s, I))
M(r, s, I) == CASE r.k = "set"  -> {i + 1 : i \in {j \in I : j <= Len(s) /\ In(r, s[j])}}
                [] r.k = "cat"  -> CatM(r.a, 1, s, I)
                [] r.k = "alt"  -> UNION {M(r.a[i], s, I) : i \in DOMAIN r.a}
                [] r.k = "star" -> Star(r.r, s, I, I)
                [] r.k = "plus" -> LET n == M(r.r, s, I) IN Star(r.r, s, n, n)
                [] r.k = "opt"  -> I \cup M(r.r, s, I)
                [] r.k = "bol"  -> {i \in I : i = 1 \/ s[i - 1] = NL}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the rule that wins at p, and where its match ends
Best(rules, s, p) == FoldLeft(LAMBDA b, i : LET e == M(rules[i].re, s, {p}) IN
                                            IF e = {} THEN b ELSE LET m == MaxS(e) IN IF m > b.e THEN [i |-> i, e |-> m] ELSE b,
                              [i |-> 0, e |-> p], [k \in 1..Len(rules) |-> k])

------------------------------------------------------------------------------
Esc(F, s) == Cat([i \in 1..Len(s) |-> IF s[i] \in F.esc THEN <<BSL, s[i]>> ELSE <<s[i]>>])
Pref1(F, c) == IF c \in DOMAIN F.pref THEN F.pref[c] ELSE <<c>>
Pref(F, s) == Cat([i \in 1..Len(s) |-> Pref1(F, s[i])])

DStart == [pos |-> 1, stack |-> << >>, buf |-> << >>, dot |-> FALSE, eoh |-> FALSE, done |-> FALSE,
           text |-> << >>,   \* history: the characters that are text
           norm |-> << >>,   \* history: the input, with replaced characters as the markup the format prefers
           eos |-> 0]        \* history: sentence ends seen
Dot == <<".", "[", "]">>
\* writing out the pending format: [e |-> what is written, n |-> what it is worth in norm, x |-> what it is worth in text]
Flush(F, st, opt) ==
  LET b == st.buf
      plain == b \in {<< >>, <<" ">>}
      dot == st.dot /\ ~opt.i
      mark == (dot /\ opt.n /\ b # << >>) \/ (~plain /\ opt.i /\ opt.n)
      block == IF plain THEN b
               ELSE (IF opt.i /\ ~opt.n THEN Dot ELSE << >>)
                    \o (IF \E k \in 1..Len(b) : b[k] = BIG THEN <<"[", "@", FILE>> \o b \o <<END, "]">>
                        ELSE <<"[">> \o Esc(F, b) \o <<"]">>)
  IN [e |-> (IF st.eoh /\ opt.o THEN <<"[", "]", "❡">> ELSE << >>)
            \o (IF dot /\ ~opt.n THEN Dot ELSE << >>) \o block \o (IF mark THEN <<"[", "]">> ELSE << >>),
      n |-> IF plain THEN Pref(F, b) ELSE b, x |-> IF plain THEN b ELSE << >>]
\* flush, then write w, which is the text x and worth n
Put(F, st, opt, w, x, n) ==
  LET f == Flush(F, st, opt) IN
  DGo([st EXCEPT !.buf = << >>, !.dot = @ /\ opt.i, !.eoh = @ /\ ~opt.o, !.text = @ \o f.x \o x, !.norm = @ \o f.n \o n], f.e \o w)

DStep(F, s, st, opt) ==
  IF st.pos > Len(s)
  THEN LET pre == IF opt.i /\ ~opt.n THEN Dot ELSE << >>
           r == Put(F, [st EXCEPT !.dot = TRUE], opt, << >>, << >>, << >>)
       IN [s |-> [r.s EXCEPT !.done = TRUE], e |-> pre \o r.e]
  ELSE
  LET rules == IF st.stack = << >> THEN F.init ELSE F.states[Last1(st.stack)]
      b == Best(rules, s, st.pos)
      u == rules[b.i]
      tok == SubSeq(s, st.pos, b.e - 1)
      s1 == [st EXCEPT !.pos = b.e]
      add == [s1 EXCEPT !.buf = @ \o tok, !.dot = @ \/ u.eos, !.eoh = @ \/ u.eoh, !.eos = @ + (IF u.eos THEN 1 ELSE 0)]
      \* text characters one after the other: each is preceded by what is pending (only the first can be)
  IN CASE u.act \in {"tag", "space", "inner"} -> DGo(add, << >>)
       [] u.act = "begin" -> DGo([add EXCEPT !.stack = Append(@, u.push)], << >>)
       [] u.act = "end"   -> DGo([add EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], << >>)
       [] u.act = "repl"  -> IF Str(tok) \in DOMAIN F.subst
                             THEN LET t == F.subst[Str(tok)] IN Put(F, s1, opt, t, t, Pref(F, t))
                             ELSE DGo(add, << >>)
       [] u.act = "esc"   -> Put(F, s1, opt, <<BSL>> \o tok, tok, tok)
       [] u.act = "char"  -> Put(F, s1, opt, tok, tok, Pref(F, tok))

------------------------------------------------------------------------------
RStart == [pos |-> 1, blank |-> FALSE, done |-> FALSE]
At(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
RStep(F, s, st) ==
  LET p == st.pos
      c == At(s, p)
      Adv(k, e, b) == DGo([st EXCEPT !.pos = p + k, !.blank = b], e)
  IN IF p > Len(s) THEN DGo([st EXCEPT !.done = TRUE], << >>)
     ELSE IF c = "[" /\ At(s, p + 1) = "@" /\ At(s, p + 2) = FILE
          THEN LET k == IndexFrom(s, p, END) IN Adv(k + 2 - p, SubSeq(s, p + 3, k - 1), st.blank)
     ELSE IF c = "[" /\ At(s, p + 1) = BSL /\ At(s, p + 2) = "@" THEN Adv(3, <<"@">>, TRUE)
     ELSE IF c = "." /\ At(s, p + 1) = "[" /\ At(s, p + 2) = "]" THEN Adv(3, << >>, st.blank)
     ELSE IF c = "[" THEN Adv(1, << >>, TRUE)
     ELSE IF c = "]" THEN Adv(1, << >>, FALSE)
     ELSE IF c = BSL /\ At(s, p + 1) \in F.esc THEN Adv(2, <<s[p + 1]>>, st.blank)
     ELSE Adv(1, IF st.blank THEN <<c>> ELSE Pref1(F, c), st.blank)

------------------------------------------------------------------------------
\* reading a stream: its text (outside blanks, unescaped, without the inserted sentence ends),
\* the contents of its blanks, the sentence ends, and whether it is well formed
RECURSIVE Parse(_, _, _, _)
Parse(F, s, p, a) ==
  LET c == At(s, p) IN
  IF p > Len(s) THEN [a EXCEPT !.ok = @ /\ ~a.in]
  ELSE IF c = BSL THEN Parse(F, s, p + 2, [a EXCEPT !.ok = @ /\ At(s, p + 1) \in F.esc, !.text = IF a.in THEN @ ELSE Append(@, At(s, p + 1)),
                                              !.blanks = IF a.in THEN Append(@, At(s, p + 1)) ELSE @])
  ELSE IF ~a.in /\ c = "." /\ At(s, p + 1) = "[" /\ At(s, p + 2) = "]" THEN Parse(F, s, p + 3, [a EXCEPT !.dots = @ + 1])
  ELSE IF c = "[" /\ At(s, p + 1) = "@" /\ At(s, p + 2) = FILE
       THEN LET k == IndexFrom(s, p, END) IN Parse(F, s, k + 2, [a EXCEPT !.ok = @ /\ ~a.in, !.blanks = @ \o SubSeq(s, p + 3, k - 1)])
  ELSE IF c = "[" THEN Parse(F, s, p + 1, [a EXCEPT !.ok = @ /\ ~a.in, !.in = TRUE])
  ELSE IF c = "]" THEN Parse(F, s, p + 1, [a EXCEPT !.ok = @ /\ a.in, !.in = FALSE])
  ELSE Parse(F, s, p + 1, [a EXCEPT !.ok = @ /\ c \notin F.esc, !.text = IF a.in THEN @ ELSE Append(@, c),
                             !.blanks = IF a.in THEN Append(@, c) ELSE @])
ParseStream(F, s) == Parse(F, s, 1, [ok |-> TRUE, in |-> FALSE, text |-> << >>, blanks |-> << >>, dots |-> 0])
=============================================================================
