------------------------------- MODULE GenModes -------------------------------
(***************************************************************************)
(* apertium-gen-modes: from modes.xml to one command line per mode.        *)
(*                                                                         *)
(* A mode is [name, install, debug, steps]; a step is [cmd, suff, args];   *)
(* an argument is [v, file].  Texts are sequences of characters.  For a    *)
(* mode marked gendebug, one more mode is derived for every step (and      *)
(* every suffix of that step): the pipeline up to that step, the last      *)
(* program with its trace option, and the same with the untrimmed          *)
(* analyser.  Names already taken are left alone.                          *)
(***************************************************************************)
EXTENDS StreamBase

Has1(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
FirstAt(s, p) == LET I == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p} IN CHOOSE i \in I : \A j \in I : i <= j
LastAt(s, p) == LET I == {i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p} IN CHOOSE i \in I : \A j \in I : i >= j
Replaced(s, at, n, by) == SubSeq(s, 1, at - 1) \o by \o SubSeq(s, at + n, Len(s))

CONSTANT K          \* the names of programs and suffixes as texts, by name
D1 == <<"$", "1">>

\* the suffixes of a program, unless modes.xml gives them
DebugSuff(c) ==
  CASE StartsWith(c, K.cgproc)       -> <<K.s_disam>>
    [] StartsWith(c, K.tagger)       -> <<K.s_tagger>>
    [] StartsWith(c, K.pretransfer)  -> <<K.s_pretransfer>>
    [] StartsWith(c, K.posttransfer) -> <<K.s_posttransfer>>
    [] StartsWith(c, K.lrxproc)      -> <<K.s_lex, K.s_lextor>>
    [] StartsWith(c, K.transfer)     -> IF Has1(c, K.o_n) THEN <<K.s_transfer2>> ELSE <<K.s_chunker, K.s_transfer>>
    [] StartsWith(c, K.interchunk)   -> <<K.s_interchunk>>
    [] StartsWith(c, K.postchunk)    -> <<K.s_postchunk>>
    [] Has1(c, D1)                   -> <<K.s_dgen, K.s_generador>>
    [] StartsWith(c, K.ltproc)       -> IF Has1(c, K.o_b) THEN <<K.s_biltrans>> ELSE IF Has1(c, K.o_p) THEN <<K.s_pgen>>
                                        ELSE IF Has1(c, K.o_g) THEN <<K.s_morph>> ELSE <<K.s_morph, K.s_anmor>>
    [] StartsWith(c, K.hfstproc)     -> IF Has1(c, K.o_g) THEN <<K.s_morph>> ELSE <<K.s_morph, K.s_anmor>>
    [] StartsWith(c, K.lsxproc)      -> IF Has1(c, K.o_p) THEN <<K.s_pgen>> ELSE <<K.s_autoseq>>
    [] StartsWith(c, K.rtxproc)      -> <<K.s_transfer>>
    [] StartsWith(c, K.anaphora)     -> <<K.s_anaph>>
    [] StartsWith(c, K.extractcaps)  -> <<K.s_decase>>
    [] StartsWith(c, K.restorecaps)  -> <<K.s_recase>>
    [] OTHER                         -> <<K.s_nameme>>

\* the program run so that it shows how it came to its output
Traced(c) ==
  CASE \E p \in {K.cgproc, K.lrxproc, K.transfer, K.interchunk, K.postchunk} : StartsWith(c, p) -> c \o K.o_t
    [] StartsWith(c, K.rtxproc)  -> c \o K.o_r
    [] StartsWith(c, K.anaphora) -> c \o K.o_d
    [] Has1(c, D1)               -> Replaced(c, FirstAt(c, D1), 2, Tail(K.o_d))
    [] OTHER                     -> c

Untrimmed(a) == IF Has1(a.v, K.automorf) THEN [a EXCEPT !.v = Replaced(@, LastAt(@, K.automorf), Len(K.automorf), K.automorfu)] ELSE a

\* the steps 1..i of a mode, the last one traced
Upto(m, i) == [j \in 1..i |-> IF j = i THEN [m.steps[j] EXCEPT !.cmd = Traced(@)] ELSE m.steps[j]]
WithUntrimmed(steps) == [j \in 1..Len(steps) |-> [steps[j] EXCEPT !.args = [a \in 1..Len(@) |-> Untrimmed(@[a])]]]
SuffOf(s) == IF s.suff # << >> THEN s.suff ELSE DebugSuff(s.cmd)

\* what debug modes a mode asks for, in order: [name, steps]
Asked(m) == FlattenSeq([i \in 1..Len(m.steps) |-> [k \in 1..Len(SuffOf(m.steps[i])) |-> [name |-> m.name \o SuffOf(m.steps[i])[k], steps |-> Upto(m, i)]]])

VARIABLES modes,    \* the modes there are, in order of definition: declared ones first
          todo      \* the debug modes still to derive
Names(ms) == {ms[i].name : i \in 1..Len(ms)}
New(n, st) == [name |-> n, install |-> FALSE, debug |-> FALSE, steps |-> st]
\* order of names
CONSTANT Alphabet
Rank(c) == CHOOSE i \in 1..Len(Alphabet) : Alphabet[i] = c
RECURSIVE Before(_, _)
Before(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE ELSE IF a[1] = b[1] THEN Before(Tail(a), Tail(b)) ELSE Rank(a[1]) < Rank(b[1])
GInit(decl) == /\ modes = decl
               /\ todo = FlattenSeq([i \in 1..Len(decl) |-> LET ms == SortSeq(decl, LAMBDA x, y : Before(x.name, y.name)) IN IF ms[i].debug THEN Asked(ms[i]) ELSE << >>])
Derive == /\ todo # << >>
          /\ todo' = Tail(todo)
          /\ LET d == Head(todo)
                 u == <<"@">> \o d.name
             IN modes' = IF d.name \in Names(modes) THEN modes
                         ELSE LET ms == Append(modes, New(d.name, d.steps))
                              IN IF u \in Names(ms) THEN ms ELSE Append(ms, New(u, WithUntrimmed(d.steps)))

\* the command line of a mode; Path(f): the file f as an absolute path
Q == <<"'">>
Arg(a, Path(_)) == <<" ">> \o (IF a.file THEN Q \o Path(a.v) \o Q ELSE a.v)
StepLine(s, Path(_)) == s.cmd \o FlattenSeq([i \in 1..Len(s.args) |-> Arg(s.args[i], Path)])
Line(m, Path(_)) == FlattenSeq([i \in 1..Len(m.steps) |-> (IF i > 1 THEN <<" ", "|", " ">> ELSE << >>) \o StepLine(m.steps[i], Path)])

\* installing writes the modes marked so, otherwise all are written
Written(inst) == {i \in 1..Len(modes) : ~inst \/ modes[i].install}
=============================================================================
