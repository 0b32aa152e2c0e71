------------------------------ MODULE MCCli ------------------------------
(***************************************************************************)
(* Command lines of every tool: up to two groups of option words among the *)
(* names of up to two files too many, in every order (Mode "all"); or      *)
(* command lines from a file, [p, w: words] (Mode "file").                 *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils
CONSTANTS Mode, Pairwise
Cases == IF Mode = "file" THEN ndJsonDeserialize(IOEnv.CASES) ELSE << >>
VARIABLES p, argv, s, src
vars == <<p, argv, s, src>>
P == Tools[p]
NoArg(t) == {o \in Ran(t.opts) : ~o.arg}
Args(t) == {o \in Ran(t.opts) : o.arg}
Vals(t, o) == IF ArgFile(t, o.c) # "" THEN {ArgFile(t, o.c)} ELSE CASE o.c = "u" -> {"1", "2", "3", "9"} [] o.c = "l" -> {"2", "0", "x"} [] OTHER -> {"0", "x"}
Simple(t) ==
  IF t.style = "names" THEN {<<Short(<<"q">>, "")>>, <<End>>}
  ELSE {<<Short(<<o.c>>, "")>> : o \in NoArg(t)}
  \cup UNION {{<<Short(<<o.c>>, ""), Name(v)>> : v \in Vals(t, o)} : o \in Args(t)}
  \cup (IF t.style \in {"lead", "one"} THEN {<<Short(<<"q">>, "")>>}
        ELSE {<<Long(o.long, "", FALSE)>> : o \in NoArg(t)}
             \cup UNION {{<<Long(o.long, v, TRUE)>> : v \in Vals(t, o)} : o \in Args(t)}
             \cup {<<End>>, <<Short(<<"Q">>, "")>>})
Prefixes(t) == UNION {{SubSeq(o.long, 1, n) : n \in {1, 2, 3, Len(o.long) - 1} \cap (1..Len(o.long))} : o \in {x \in Ran(t.opts) : x.long # ""}}
Odd(t) ==
  IF t.style \in {"names", "lead", "one"} THEN {}
  ELSE {<<Short(<<a.c, b.c>>, "")>> : a, b \in NoArg(t)}
  \cup {<<Short(<<a.c, "Q">>, "")>> : a \in NoArg(t)}
  \cup UNION {{<<Short(<<o.c>>, v)>>, <<Long(o.long, "", FALSE), Name(v)>>} \cup {<<Short(<<a.c, o.c>>, v)>> : a \in NoArg(t)} \cup {<<Short(<<a.c, o.c>>, ""), Name(v)>> : a \in NoArg(t)} : <<o, v>> \in
               UNION {{<<o, v>> : v \in Vals(t, o)} : o \in Args(t)}}
  \cup {<<Short(<<o.c>>, "")>> : o \in Args(t)} \cup {<<Long(o.long, "", FALSE)>> : o \in Args(t)}
  \cup {<<Long(o.long, "1", TRUE)>> : o \in NoArg(t)}
  \cup (IF t.style = "gnu" THEN {<<Long(n, "", FALSE)>> : n \in Prefixes(t)} \cup {<<Long("nonsense", "", FALSE)>>} ELSE {})
\* rows of files: the right ones in order, too few, too many, one of them missing
RowsOf(t) == CASE t.name = "transfer" -> {t.roles, <<"f1", "f2">> \o IO}
               [] t.name = "tagger" -> {<<m>> \o IO : m \in {"mh", "m1", "m2", "m3", "mw", "mx"}}
               [] OTHER -> {t.roles}
Rows(t) == UNION {{SubSeq(Append(Append(r, "extra"), "more"), 1, n) : n \in 0..(Len(r) + (IF r = << >> THEN 1 ELSE 2))} : r \in RowsOf(t)}
Missing(t) == UNION {{[r EXCEPT ![i] = "missing"] : i \in 1..Len(r)} : r \in Rows(t)}
\* (the tagger does nothing without being told what)
Named(r) == (IF P.name = "tagger" THEN <<Short(<<"g">>, "")>> ELSE << >>) \o [i \in 1..Len(r) |-> Name(r[i])]
Put(r, g, i) == SubSeq(r, 1, i) \o g \o SubSeq(r, i + 1, Len(r))
Put2(r, g, i, h, j) == SubSeq(r, 1, i) \o g \o SubSeq(r, i + 1, j) \o h \o SubSeq(r, j + 1, Len(r))
Bare(t) == {r \in Rows(t) : t.name # "tagger" \/ r = << >> \/ r[1] \in {"mh", "m1"}}
RECURSIVE WordsOf(_)
Init == /\ s = Start(<< >>)
        /\ argv = << >>
        /\ IF Mode = "file" THEN p = 1 /\ src \in 0..14 ELSE src = 0 /\ p \in 1..Len(Tools)
WordsOf(ws) == IF ws = << >> THEN << >> ELSE <<[k |-> Head(ws).k, ls |-> Head(ws).ls, n |-> Head(ws).n, v |-> Head(ws).v, has |-> Head(ws).has]>> \o WordsOf(Tail(ws))
Pick == /\ s.res = "" /\ argv = << >> /\ (Mode = "file" \/ src = 0)
        /\ IF Mode = "file"
           THEN \E c \in {x \in 1..Len(Cases) : x % 15 = src} : /\ p' = Cases[c].p /\ argv' = WordsOf(Cases[c].w) /\ src' = 100 + c
                                                                /\ s' = Start(argv')
           ELSE /\ p' = p /\ src' = 100
                /\ \/ argv' \in {Named(r) : r \in Rows(P) \cup Missing(P)}
                   \/ \E r \in Rows(P), g \in Simple(P) \cup Odd(P) : \E i \in 0..Len(Named(r)) : argv' = Put(Named(r), g, i)
                   \/ \E r \in Missing(P), g \in Simple(P) : \E i \in 0..Len(Named(r)) : argv' = Put(Named(r), g, i)
                   \/ Pairwise /\ \E r \in Bare(P), g \in Simple(P), h \in Simple(P) : \E i \in 0..Len(Named(r)) : \E j \in i..Len(Named(r)) : argv' = Put2(Named(r), g, i, h, j)
                /\ s' = Start(argv')
Read == /\ src >= 100 /\ s.res = "" /\ s.todo # << >>
        /\ s' = Step(P, s) /\ UNCHANGED <<p, argv, src>>
Check == /\ src >= 100 /\ s.res = "" /\ s.todo = << >>
         /\ s' = Finish(P, s) /\ UNCHANGED <<p, argv, src>>
Next == Pick \/ Read \/ Check
Done == s.res # ""

\* whatever way it is asked for, the plainest way asks for the same
Same(a, b) == a.res = b.res /\ Asked(P, a) = Asked(P, b) /\ OutName(P, a) = OutName(P, b)
Plain == Done /\ s.res = "run" => Same(s, Parse(P, Start(Canon(P, s, TRUE))))
\* names of files and -- apart, where the options stand makes no difference
Ahead == (Done /\ s.res = "run" /\ P.style \in {"gnu", "cli"} /\ \A i \in 1..Len(argv) : argv[i].k # "end") =>
         Parse(P, Start(CanonOpts(P, s, 1) \o [i \in 1..Len(s.files) |-> Name(s.files[i])])).files = s.files
\* a name is never lost and none made up
Kept == (Done /\ s.res = "run") => \A i \in 1..Len(s.files) : \E j \in 1..Len(argv) : Text(argv[j]) = s.files[i]
Texts == [i \in 1..Len(argv) |-> Text(argv[i])]
Row(x) == [i \in 1..Len(x) |-> Text(x[i])]
\* the material for longer command lines
Table == (src = 0 /\ Mode = "all" /\ s.res = "") => PrintT(ToJson([tool |-> p, name |-> P.name, groups |-> Simple(P) \cup Odd(P), rows |-> Rows(P), opts |-> {o.c : o \in Ran(P.opts)}]))
Dump == (Done /\ s.res # "other") =>
          PrintT(ToJson([p |-> P.name, w |-> Texts, res |-> s.res, canon |-> IF s.res = "run" THEN Row(Canon(P, s, FALSE)) ELSE << >>,
                         inp |-> IF s.res = "run" THEN FileOf(P, s, "in") ELSE "", out |-> IF s.res = "run" THEN OutName(P, s) ELSE "",
                         given |-> IF s.res = "run" THEN Given(s) ELSE {}, src |-> src]))
=============================================================================
