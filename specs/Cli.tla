------------------------------- MODULE Cli -------------------------------
(***************************************************************************)
(* The command line of the tools: which words are options, which are the   *)
(* names of files, and what the tool is asked to do.  The interface of     *)
(* each tool (its usage text) is a table; words are read one after the     *)
(* other by a machine.  Five ways of reading them:                         *)
(*   gnu    options and names in any order, letters in clusters, long      *)
(*          names and what they abbreviate, -- ends the options            *)
(*   cli    the same, long names written in full                           *)
(*   lead   options first, one letter each; whatever follows is a name     *)
(*   one    the same, one option at most                                   *)
(*   names  names only                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Flag(c, long) == [c |-> c, long |-> long, arg |-> FALSE]
WithArg(c, long) == [c |-> c, long |-> long, arg |-> TRUE]
Tool(name, style, opts, roles, lo) == [name |-> name, style |-> style, opts |-> opts, roles |-> roles, lo |-> lo]

\* f1, f2..: files of rules and data; in, out: what is read and written, standard input and output when not named
IO == <<"in", "out">>
Chunkers == <<Flag("t", "trace"), Flag("w", "dictionary-case"), Flag("z", "null-flush"), Flag("h", "help")>>
Des == <<Flag("i", ""), Flag("n", ""), Flag("o", "")>>
Tools == <<
  Tool("pretransfer", "cli", <<Flag("e", "compounds"), Flag("n", "no-surface-forms"), Flag("z", "null-flush"), Flag("h", "help")>>, IO, 0),
  Tool("posttransfer", "gnu", <<Flag("z", "null-flush"), Flag("h", "help")>>, IO, 0),
  Tool("transfer", "gnu", <<Flag("b", "from-bilingual"), Flag("n", "no-bilingual"), WithArg("x", "extended"), Flag("c", "case-sensitive"), Flag("w", "dictionary-case"),
                            Flag("z", "null-flush"), Flag("t", "trace"), Flag("T", "trace_att"), Flag("h", "help")>>, <<"f1", "f2", "f3">> \o IO, 3),
  Tool("interchunk", "cli", Chunkers, <<"f1", "f2">> \o IO, 2),
  Tool("postchunk", "cli", Chunkers, <<"f1", "f2">> \o IO, 2),
  Tool("extract-caps", "cli", <<Flag("s", "surface"), Flag("z", "null-flush"), Flag("h", "help")>>, IO, 0),
  Tool("restore-caps", "cli", <<Flag("k", "keep"), Flag("z", "null-flush"), Flag("h", "help")>>, <<"f1">> \o IO, 1),
  Tool("compile-caps", "cli", <<Flag("h", "help")>>, <<"f1", "out">>, 2),
  Tool("tagger", "gnu", <<Flag("g", "tagger"), Flag("d", "debug"), Flag("f", "first"), Flag("m", "mark"), Flag("p", "show-superficial"), Flag("z", "null-flush"), Flag("b", "sent-seg"),
                          WithArg("u", "unigram"), Flag("w", "sliding-window"), Flag("x", "perceptron"), WithArg("r", "retrain"), WithArg("s", "supervised"), WithArg("t", "train"),
                          Flag("e", "skip-on-error"), Flag("h", "help")>>, <<"f1">> \o IO, 1),
  Tool("tagger-apply-new-rules", "gnu", <<WithArg("i", "filein"), WithArg("o", "fileout"), WithArg("x", "tsxfile")>>, << >>, 0),
  Tool("tagger-readwords", "gnu", <<WithArg("x", "tsxfile"), WithArg("p", "probfile"), WithArg("l", "clength"), Flag("h", "help")>>, << >>, 0),
  Tool("preprocess-transfer", "names", << >>, <<"f1", "out">>, 2),
  Tool("multiple-translations", "names", << >>, <<"f1", "f2">> \o IO, 2),
  Tool("filter-ambiguity", "names", << >>, <<"f1">> \o IO, 1),
  Tool("destxt", "lead", Des, IO, 0), Tool("deshtml", "lead", Des, IO, 0), Tool("deshtml-alt", "lead", Des, IO, 0), Tool("deslatex", "lead", Des, IO, 0), Tool("desodt", "lead", Des, IO, 0),
  Tool("retxt", "names", << >>, IO, 0), Tool("rehtml", "names", << >>, IO, 0), Tool("relatex", "names", << >>, IO, 0), Tool("rertf", "names", << >>, IO, 0),
  Tool("prelatex", "one", <<Flag("i", "")>>, IO, 0), Tool("postlatex", "one", <<Flag("i", "")>>, IO, 0), Tool("postlatex-raw", "one", <<Flag("i", "")>>, IO, 0) >>

Ran(s) == {s[i] : i \in 1..Len(s)}
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OptOf(p, c) == {o \in Ran(p.opts) : o.c = c}
Longs(p, n) == LET full == {o \in Ran(p.opts) : o.long = n /\ n # ""} IN
               IF full # {} \/ p.style # "gnu" THEN full ELSE {o \in Ran(p.opts) : o.long # "" /\ IsPre(n, o.long)}

(***************************************************************************)
(* Words: letters after one dash (v: what is attached to the last one, ""  *)
(* for nothing), a long name after two (v: what follows =), the two dashes *)
(* alone, a plain name.                                                    *)
(***************************************************************************)
Short(ls, v) == [k |-> "short", ls |-> ls, n |-> "", v |-> v, has |-> v # ""]
Long(n, v, has) == [k |-> "long", ls |-> << >>, n |-> n, v |-> v, has |-> has]
End == [k |-> "end", ls |-> << >>, n |-> "", v |-> "", has |-> FALSE]
Name(n) == [k |-> "name", ls |-> << >>, n |-> n, v |-> "", has |-> FALSE]
RECURSIVE Glue(_)
Glue(s) == IF s = << >> THEN "" ELSE Head(s) \o Glue(Tail(s))
Text(w) == CASE w.k = "short" -> "-" \o Glue(w.ls) \o w.v
             [] w.k = "long" -> "--" \o w.n \o (IF w.has THEN "=" \o w.v ELSE "")
             [] w.k = "end" -> "--"
             [] OTHER -> w.n

(***************************************************************************)
(* The machine.  res: "" while words are left, then run, usage (asked for) *)
(* or error.  opts: the options in the order given, with their arguments.  *)
(***************************************************************************)
Start(argv) == [todo |-> argv, opts |-> << >>, files |-> << >>, names |-> FALSE, res |-> ""]
Stop(s, r) == [s EXCEPT !.res = r, !.todo = << >>]
Given(s) == {s.opts[i].c : i \in 1..Len(s.opts)}
ValOf(s, c) == s.opts[CHOOSE i \in 1..Len(s.opts) : s.opts[i].c = c /\ \A j \in (i + 1)..Len(s.opts) : s.opts[j].c # c].v
\* the tagger says no at once to what contradicts what came before
Kind == {"u", "w", "x"}
Act == {"g", "r", "s", "t"}
Clash(p, s, c) == p.name = "tagger" /\ (c \in Given(s) \/ (c \in Kind /\ Given(s) \cap Kind # {}) \/ (c \in Act /\ Given(s) \cap Act # {}))
Ints == {"0", "2", "5"}
BadVal(p, c, v) == CASE p.name = "tagger" /\ c = "u" -> v \notin {"1", "2", "3"}
                     [] p.name = "tagger" /\ c \in {"r", "s", "t"} -> v \notin Ints
                     [] p.name = "tagger-readwords" /\ c = "l" -> v \notin Ints \ {"0"}
                     [] OTHER -> FALSE
Take(p, s, o, v) == IF o.c = "h" THEN Stop(s, "usage")
                    ELSE IF Clash(p, s, o.c) \/ BadVal(p, o.c, v) THEN Stop(s, "error")
                    ELSE [s EXCEPT !.opts = Append(@, [c |-> o.c, v |-> v])]
\* an option that wants an argument takes the next word, whatever it is
TakeNext(p, s, o) == IF s.todo = << >> THEN Stop(s, "error")
                     ELSE Take(p, [s EXCEPT !.todo = Tail(@)], o, Text(Head(s.todo)))
RECURSIVE Cluster(_, _, _, _)
Cluster(p, s, ls, v) == IF s.res # "" THEN s
                        ELSE IF ls = << >> THEN IF v = "" THEN s ELSE Stop(s, "error")    \* letters nobody knows
                        ELSE IF OptOf(p, Head(ls)) = {} THEN Stop(s, "error")
                        ELSE LET o == CHOOSE x \in OptOf(p, Head(ls)) : TRUE IN
                             IF ~o.arg THEN Cluster(p, Take(p, s, o, ""), Tail(ls), v)
                             ELSE IF Tail(ls) # << >> \/ v # "" THEN Take(p, s, o, Glue(Tail(ls)) \o v)
                             ELSE TakeNext(p, s, o)
LongStep(p, s, w) == LET m == Longs(p, w.n) IN
                     IF Cardinality(m) # 1 THEN Stop(s, "error")
                     ELSE LET o == CHOOSE x \in m : TRUE IN
                          IF o.arg THEN IF w.has THEN Take(p, s, o, w.v) ELSE TakeNext(p, s, o)
                          ELSE IF w.has THEN Stop(s, "error") ELSE Take(p, s, o, "")
AsFile(s, w) == [s EXCEPT !.files = Append(@, Text(w))]
Step(p, s) ==
  LET w == Head(s.todo)
      t == [s EXCEPT !.todo = Tail(@)]
  IN IF p.style = "names" \/ s.names THEN AsFile(t, w)
     ELSE IF p.style \in {"lead", "one"} THEN
          IF (p.style = "lead" \/ s.opts = << >>) /\ w.k = "short" /\ Len(w.ls) = 1 /\ w.v = "" /\ OptOf(p, w.ls[1]) # {} THEN [t EXCEPT !.opts = Append(@, [c |-> w.ls[1], v |-> ""])]
          ELSE [AsFile(t, w) EXCEPT !.names = TRUE]
     ELSE CASE w.k = "name" -> AsFile(t, w)
            [] w.k = "end" -> [t EXCEPT !.names = TRUE]
            [] w.k = "short" -> Cluster(p, t, w.ls, w.v)
            [] w.k = "long" -> LongStep(p, t, w)

(***************************************************************************)
(* When the words are used up: are there enough files, and are they there? *)
(***************************************************************************)
Roles(p, s) == IF p.name = "transfer" /\ Given(s) \cap {"b", "n"} # {} THEN <<"f1", "f2">> \o IO ELSE p.roles
Lo(p, s) == IF p.name = "transfer" /\ Given(s) \cap {"b", "n"} # {} THEN 2 ELSE p.lo
Exists == {"f1", "f2", "f3", "in", "ext", "m1", "m2", "m3", "mw", "mx", "mh"}
\* the tagger's first file is a model of the kind asked for
Model(s) == IF "u" \in Given(s) THEN "m" \o ValOf(s, "u") ELSE IF "w" \in Given(s) THEN "mw" ELSE IF "x" \in Given(s) THEN "mx" ELSE "mh"
Right(p, s, r) == IF p.name = "tagger" /\ r = "f1" THEN Model(s) ELSE r
\* what an option's file should be
ArgFile(p, c) == CASE p.name = "transfer" /\ c = "x" -> "ext"
                   [] p.name = "tagger-apply-new-rules" /\ c = "i" -> "f1"
                   [] p.name = "tagger-apply-new-rules" /\ c = "x" -> "f2"
                   [] p.name = "tagger-apply-new-rules" /\ c = "o" -> "out"
                   [] p.name = "tagger-readwords" /\ c = "x" -> "f2"
                   [] p.name = "tagger-readwords" /\ c = "p" -> "f1"
                   [] OTHER -> ""
IsOut(p, c) == p.name = "tagger-apply-new-rules" /\ c = "o"
Needed(p, s) == CASE p.name = "tagger" -> Given(s) \cap Act # {}
                  [] p.name = "tagger-apply-new-rules" -> {"i", "o", "x"} \subseteq Given(s)
                  [] p.name = "tagger-readwords" -> Cardinality(Given(s) \cap {"x", "p"}) = 1
                  [] OTHER -> TRUE
\* verdicts on one file: right, gone (nothing of the name), other (there, but something else: not judged)
Verdict(want, got, out) == IF out THEN IF got \in Exists THEN "other" ELSE "right"
                           ELSE IF got = want THEN "right" ELSE IF got \in Exists THEN "other" ELSE "gone"
Verdicts(p, s) == {Verdict(Right(p, s, Roles(p, s)[i]), s.files[i], Roles(p, s)[i] = "out") : i \in 1..Len(s.files)}
                  \cup {Verdict(ArgFile(p, c), ValOf(s, c), IsOut(p, c)) : c \in {x \in Given(s) : ArgFile(p, x) # ""}}
Finish(p, s) ==
  IF s.res # "" THEN s
  ELSE IF ~Needed(p, s) THEN [s EXCEPT !.res = IF p.name = "tagger" THEN "usage" ELSE "error"]
  ELSE IF p.name = "tagger" /\ "g" \notin Given(s) THEN [s EXCEPT !.res = "other"]       \* training is not looked at here
  ELSE IF p.roles = << >> /\ s.files # << >> THEN [s EXCEPT !.res = "other"]             \* names nobody asked for
  ELSE IF p.name = "transfer" /\ Len(s.files) = 5 /\ Len(Roles(p, s)) = 4 THEN [s EXCEPT !.res = "other"]   \* a dictionary it has no use for
  ELSE IF Len(s.files) < Lo(p, s) \/ Len(s.files) > Len(Roles(p, s)) THEN [s EXCEPT !.res = "error"]
  ELSE IF "other" \in Verdicts(p, s) \/ Cardinality(Ran(s.files)) # Len(s.files) THEN [s EXCEPT !.res = "other"]
  ELSE IF "gone" \in Verdicts(p, s) THEN [s EXCEPT !.res = "error"]
  ELSE [s EXCEPT !.res = "run"]
RECURSIVE Parse(_, _)
Parse(p, s) == IF s.todo = << >> THEN Finish(p, s) ELSE Parse(p, Step(p, s))

(***************************************************************************)
(* What was asked for: the set of options, the files by their roles.       *)
(***************************************************************************)
Pos(p, s, r) == {i \in 1..Len(s.files) : i <= Len(Roles(p, s)) /\ Roles(p, s)[i] = r}
FileOf(p, s, r) == IF Pos(p, s, r) = {} THEN "" ELSE s.files[CHOOSE i \in Pos(p, s, r) : TRUE]
OutName(p, s) == IF \E c \in Given(s) : IsOut(p, c) THEN ValOf(s, CHOOSE c \in Given(s) : IsOut(p, c)) ELSE FileOf(p, s, "out")
Asked(p, s) == [opts |-> {[c |-> c, v |-> IF IsOut(p, c) THEN "" ELSE ValOf(s, c)] : c \in Given(s)},
                fixed |-> SelectSeq(SubSeq(s.files, 1, Lo(p, s)), LAMBDA f : f \in Exists), inp |-> FileOf(p, s, "in")]
\* the plainest way to ask for the same: short options one by one, in the order of the table, then the files
RECURSIVE CanonOpts(_, _, _)
CanonOpts(p, s, i) == IF i > Len(p.opts) THEN << >>
                      ELSE LET o == p.opts[i] IN
                           (IF o.c \in Given(s) THEN <<Short(<<o.c>>, "")>> \o (IF o.arg THEN <<Name(ValOf(s, o.c))>> ELSE << >>) ELSE << >>) \o CanonOpts(p, s, i + 1)
Canon(p, s, withio) == CanonOpts(p, s, 1) \o [i \in 1..(IF withio THEN Len(s.files) ELSE Lo(p, s)) |-> Name(s.files[i])]
=============================================================================
