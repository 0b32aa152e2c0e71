-------------------------------- MODULE Driver --------------------------------
(***************************************************************************)
(* The apertium command: what its arguments ask for, and which programs    *)
(* the text passes in which order.                                         *)
(*                                                                         *)
(* Arguments are texts (sequences of characters).  Reading them is a       *)
(* machine: plain arguments first, then options (clustered, with their     *)
(* argument in the same word or in the next), then plain arguments.        *)
(***************************************************************************)
EXTENDS WblankMode
CONSTANTS N,       \* names of formats, programs and options: texts by name
          World    \* [files, dirs (with a modes folder): set of texts; modes: function from dir to function from mode to pipeline; dflt: the default dir, tmbad: unusable memories;
                   \*  prefs: function from dir to function from name of a preferences file to sequence of [k: preference, o: its options]]
Flags == {"u", "a", "h", "l", "V", "z", "s", "n", "H"}
Valued == {"f", "d", "m", "o"}
IsOption(w) == w # << >> /\ w[1] = "-"
NoOpts == [f |-> N.txt, d |-> World.dflt, m |-> << >>, o |-> << >>, s |-> 0, u |-> FALSE, n |-> FALSE, H |-> FALSE, a |-> FALSE, l |-> FALSE, z |-> FALSE]
\* a state of reading: what comes next (word i, character c), the options so far, how it ended
RECURSIVE Pre(_, _)
Pre(av, i) == IF i > Len(av) \/ IsOption(av[i]) THEN i ELSE Pre(av, i + 1)
Done(o, i) == [end |-> "ok", o |-> o, i |-> i]
Fail(e) == [end |-> e]
Set(o, ch) == CASE ch = "u" -> [o EXCEPT !.u = TRUE] [] ch = "a" -> [o EXCEPT !.a = TRUE] [] ch = "l" -> [o EXCEPT !.l = TRUE] [] ch = "z" -> [o EXCEPT !.z = TRUE]
                [] ch = "s" -> [o EXCEPT !.s = @ + 1] [] ch = "n" -> [o EXCEPT !.n = TRUE] [] ch = "H" -> [o EXCEPT !.H = TRUE]
Put(o, ch, v) == CASE ch = "f" -> [o EXCEPT !.f = v] [] ch = "d" -> [o EXCEPT !.d = v] [] ch = "m" -> [o EXCEPT !.m = v] [] ch = "o" -> [o EXCEPT !.o = v]
RECURSIVE Opts(_, _, _, _)
Opts(av, i, c, o) ==
  IF i > Len(av) THEN Done(o, i)
  ELSE LET w == av[i] IN
    IF c = 1 THEN IF w = <<"-", "-">> THEN Done(o, i + 1)
                  ELSE IF ~IsOption(w) \/ Len(w) = 1 THEN Done(o, i)
                  ELSE Opts(av, i, 2, o)
    ELSE IF c > Len(w) THEN Opts(av, i + 1, 1, o)
    ELSE IF w[c] = "h" THEN Fail("usage")
    ELSE IF w[c] = "V" THEN Fail("version")
    ELSE IF w[c] \in Flags THEN Opts(av, i, c + 1, Set(o, w[c]))
    ELSE IF w[c] \notin Valued THEN Fail("error")
    ELSE IF c < Len(w) THEN Opts(av, i + 1, 1, Put(o, w[c], SubSeq(w, c + 1, Len(w))))
    ELSE IF i < Len(av) THEN Opts(av, i + 2, 1, Put(o, w[c], av[i + 1]))
    ELSE Fail("error")

\* formats: what stands before and after the translation, and how the document is taken apart
Generic == {N.txt, N.rtf, N.xpresstag, N.mediawiki, N.wxml}
Base(f) == IF Len(f) > 1 /\ Last1(f) = "u" /\ Front(f) \in {N.txt, N.html, N.xpresstag, N.odt, N.odp, N.docx, N.xlsx, N.pptx, N.wxml} THEN Front(f) ELSE f
Unmarked(f) == Base(f) # f
Known(f) == Base(f) \in Generic \union {N.none, N.html, N.htmlnoent, N.htmlalt, N.line, N.latex, N.latexraw, N.odt, N.odp, N.docx, N.xlsx, N.pptx}
\* a program of the pipeline: its name and its arguments
P0(name) == <<name>>
FOpts(o) == (IF o.n THEN <<N.on>> ELSE << >>) \o (IF o.H THEN <<N.oo>> ELSE << >>)
Des(f, o) ==
  CASE f = N.none -> << >>
    [] f = N.html \/ f = N.htmlnoent -> << <<N.des \o N.html>> \o FOpts(o) >>
    [] f = N.htmlalt -> << <<N.des \o N.htmlalt>> \o FOpts(o) >>
    [] f = N.line -> << <<N.des \o N.txt, N.on>> >>
    [] f \in {N.latex, N.latexraw} -> << <<N.prelatex>>, <<N.fixlatex>>, <<N.des \o N.latex>> \o FOpts(o) >>
    [] f \in {N.odt, N.odp} -> << <<N.des \o N.odt>> \o FOpts(o) >>
    [] f = N.docx -> << <<N.adapt, N.on>>, <<N.des \o N.wxml>> \o FOpts(o) >>
    [] OTHER -> << <<N.des \o f>> \o FOpts(o) >>
Re(f) ==
  CASE f = N.none -> << >>
    [] f = N.html -> << <<N.re \o N.html>> >>
    [] f \in {N.htmlnoent, N.htmlalt} -> << <<N.re \o N.htmlnoent>> >>
    [] f = N.line -> << <<N.re \o N.txt>> >>
    [] f \in {N.latex, N.latexraw} -> << <<N.re \o N.latex>>, <<N.postlatex>> >>
    [] f \in {N.odt, N.odp} -> << <<N.re \o N.odt>> >>
    [] f = N.docx -> << <<N.re \o N.wxml>> >>
    [] OTHER -> << <<N.re \o f>> >>
\* the words of a program of the mode as it is started: quotes gone, $1 (how unknown words are shown) and $2 (ambiguity) put in
Started(st, unknown, amb) ==
  FlattenSeq([i \in 1..Len(st) |-> IF st[i] = N.p1 THEN <<unknown>> ELSE IF st[i] = N.p2 THEN (IF amb THEN <<N.om>> ELSE << >>)
                                   ELSE IF Quoted(st[i]) THEN <<SubSeq(st[i], 2, Len(st[i]) - 1)>> ELSE <<st[i]>>])
Pipeline(f, o, pair) ==
  LET f1 == IF Known(f) THEN Base(f) ELSE N.txt
      unknown == IF o.u \/ Unmarked(f) THEN N.on ELSE N.og
      mode == WMode(World.modes[o.d][pair], o.z)
      tm == IF o.m = << >> THEN << >> ELSE << <<N.tmxproc>> \o (IF o.s > 0 THEN <<N.os>> ELSE << >>) \o << IF o.o = << >> THEN pair ELSE o.o >> >>
  IN Des(f1, o) \o tm \o [i \in 1..Len(mode) |-> Started(mode[i], unknown, o.a)] \o Re(f1)
\* preferences (AP_SETVAR): key=a:b,key2=-c:d,...  A value that begins with a minus asks for all options of the preference but these
RECURSIVE Cut(_, _, _)
Cut(t, at, cur) == IF t = << >> THEN <<cur>> ELSE IF t[1] = at THEN <<cur>> \o Cut(Tail(t), at, << >>) ELSE Cut(Tail(t), at, Append(cur, t[1]))
RECURSIVE Glue(_, _)
Glue(xs, by) == IF xs = << >> THEN << >> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o by \o Glue(Tail(xs), by)
RECURSIVE LastDash(_, _)
LastDash(t, i) == IF i = 0 THEN 0 ELSE IF t[i] = "-" THEN i ELSE LastDash(t, i - 1)
\* the preferences of a mode en-es-x: of its own, else those of en-es; << >> if there are none
Prefs(d, pair) ==
  LET k == LastDash(pair, Len(pair)) base == IF k = 0 THEN pair ELSE SubSeq(pair, 1, k - 1) f == World.prefs[d]
  IN IF pair \in DOMAIN f THEN <<f[pair]>> ELSE IF base \in DOMAIN f THEN <<f[base]>> ELSE << >>
OptionsOf(pr, k) == FlattenSeq([i \in 1..Len(pr) |-> IF pr[i].k = k THEN pr[i].o ELSE << >>])
Setting(pr, item) ==
  LET kv == Cut(item, "=", << >>) k == kv[1] v == Glue(Tail(kv), <<"=">>)
  IN IF k = << >> THEN << >>
     ELSE IF v = << >> THEN k
     ELSE IF v[1] # "-" THEN k \o <<"=">> \o v
     ELSE LET out == Cut(Tail(v), ":", << >>)
          IN k \o <<"=">> \o Glue(SelectSeq(OptionsOf(pr, k), LAMBDA o : ~\E i \in 1..Len(out) : out[i] = o), <<":">>)
Var(d, pair, var) ==
  LET p == Prefs(d, pair) items == Cut(var, ",", << >>) set == [i \in 1..Len(items) |-> Setting(p[1], items[i])]
  IN IF var = << >> \/ p = << >> THEN var ELSE Glue(SelectSeq(set, LAMBDA x : x # << >>), <<",">>)
\* does the failure of a program come through?  Of those that read and write the format, and of the last of the mode; for the formats that are one pipe
Noticed(f, pipe, bad) == LET nd == Len(Des(f, NoOpts)) IN
  f \in Generic \union {N.none} /\ (  (nd > 0 /\ pipe[1][1] = bad) \/ Last1(pipe)[1] = bad \/ (Re(f) # << >> /\ Len(pipe) > 1 /\ pipe[Len(pipe) - 1][1] = bad) \/ (bad = N.tmxproc /\ \E i \in 1..Len(pipe) : pipe[i][1] = bad))
Run(av, var, bad) ==
  LET i0 == Pre(av, 1)
      r == Opts(av, i0, 1, NoOpts)
  IN IF r.end # "ok" THEN [end |-> r.end]
     ELSE IF r.o.l THEN [end |-> "list", dir |-> r.o.d]
     ELSE LET plain == SubSeq(av, 1, i0 - 1) \o SubSeq(av, r.i, Len(av))
              k == Len(plain)
          IN IF k < 1 \/ k > 3 THEN [end |-> "error"]
             ELSE IF k >= 2 /\ plain[2] \notin World.files THEN [end |-> "error"]
             ELSE IF r.o.m \in World.tmbad THEN [end |-> "error"]
             ELSE IF r.o.d \notin World.dirs THEN [end |-> "error"]
             ELSE IF plain[1] \notin DOMAIN World.modes[r.o.d] THEN [end |-> "error"]
             ELSE [end |-> "run", f |-> IF Known(r.o.f) THEN Base(r.o.f) ELSE N.txt, in |-> IF k >= 2 THEN plain[2] ELSE << >>, out |-> IF k = 3 THEN plain[3] ELSE << >>,
                   warn |-> ~Known(r.o.f), z |-> r.o.z, un |-> r.o.u \/ Unmarked(r.o.f), pipe |-> Pipeline(r.o.f, r.o, plain[1]),
                   \* a spreadsheet inside the document
                   emb |-> Pipeline(N.xlsx, [NoOpts EXCEPT !.d = r.o.d, !.u = r.o.u \/ Unmarked(r.o.f)], plain[1]), var |-> Var(r.o.d, plain[1], var),
                   fails |-> LET f1 == IF Known(r.o.f) THEN Base(r.o.f) ELSE N.txt IN bad # << >> /\ Noticed(f1, Pipeline(r.o.f, r.o, plain[1]), bad)]
===============================================================================
