------------------------------ MODULE MCCut ------------------------------
(***************************************************************************)
(* Every stream of up to MaxWords words of each vocabulary (and texts of   *)
(* it closed by null characters), read character by character (Mode        *)
(* "all"); streams from a file [k, w: indices of words, 0 a null character]*)
(* (Mode "file"); texts that tools wrote [c: of chunks, t: characters]     *)
(* (Mode "read").                                                          *)
(***************************************************************************)
EXTENDS Cut, TLC, Json, IOUtils
CONSTANTS Mode, MaxWords
Cases == IF Mode = "all" THEN << >> ELSE ndJsonDeserialize(IOEnv.CASES)
VARIABLES kind, words, txt, edge, pos, s, src,
          base,      \* up to here the stream is one
          choice,    \* analyses of the unit that is open, or was closed last
          settled, answered, cuts
vars == <<kind, words, txt, edge, pos, s, src, base, choice, settled, answered, cuts>>
Word(k, i) == IF i = 0 THEN <<NUL>> ELSE Ch(Vocabulary[k][i])
Idle == /\ words = << >> /\ txt = << >> /\ edge = {0} /\ pos = 0 /\ s = Empty /\ base = 0 /\ choice = 0 /\ settled = 0 /\ answered = 0
        /\ cuts = <<[all |-> 0, settled |-> 0, answered |-> 0]>>
Init == /\ Idle
        /\ IF Mode = "all" THEN kind \in DOMAIN Vocabulary /\ src = 0 ELSE kind = "plain" /\ src \in 0..14
RECURSIVE Flat(_, _)
Flat(k, ws) == IF ws = << >> THEN << >> ELSE Word(k, Head(ws)) \o Flat(k, Tail(ws))
Pick == /\ src < 100 /\ pos = 0
        /\ IF Mode = "all"
           THEN /\ Len(words) < MaxWords
                /\ \E i \in (IF kind \in Streams THEN 0 ELSE 1)..Len(Vocabulary[kind]) :
                     /\ words' = Append(words, i)
                     /\ txt' = txt \o Word(kind, i)
                     /\ edge' = edge \cup {Len(txt')}
                     /\ UNCHANGED <<kind, src>>
           ELSE \E c \in {x \in 1..Len(Cases) : x % 15 = src} :
                  IF Mode = "file"
                  THEN /\ kind' = Cases[c].k /\ words' = Cases[c].w /\ txt' = Flat(kind', words') /\ src' = 100 + c
                       /\ edge' = {Len(Flat(kind', SubSeq(words', 1, n))) : n \in 0..Len(words')}
                  ELSE /\ kind' = (IF Cases[c].c THEN "chunk" ELSE "plain") /\ words' = << >> /\ txt' = Cases[c].t /\ src' = 100 + c /\ edge' = {}
        /\ UNCHANGED <<pos, s, base, choice, settled, answered, cuts>>
Read == /\ pos < Len(txt)
        /\ pos' = pos + 1
        /\ s' = Step(s, txt[pos'], Chunks(kind))
        /\ base' = (IF Clean(s') THEN pos' ELSE base)
        /\ choice' = (IF s.st = << >> THEN 0 ELSE IF s.st = <<"unit">> /\ ~s.esc /\ txt[pos'] = "/" THEN choice + 1 ELSE choice)
        /\ settled' = (IF Clean(s') /\ (txt[pos'] = NUL \/ (s.st = <<"unit">> /\ choice < 2)) THEN pos' ELSE settled)
        /\ answered' = (IF Clean(s') /\ txt[pos'] = NUL THEN pos' ELSE answered)
        /\ cuts' = Append(cuts, [all |-> base', settled |-> settled', answered |-> answered'])
        /\ UNCHANGED <<kind, words, txt, edge, src>>
Next == Pick \/ Read
Full == pos = Len(txt) /\ (words # << >> \/ src >= 100)
-----------------------------------------------------------------------------
Whole(i) == Len(Word(kind, words[i])) = 1
\* what the generator puts together the machine takes apart: it is clean between words and nowhere else
Edges == (Mode # "read" /\ kind \in Streams) => (Clean(s) <=> pos \in edge) /\ ~s.bad
\* whatever is open can be closed
Closable == ~s.bad => Clean(ReadAll(s, Closing(s), Chunks(kind)))
\* the part before a cut that counts is a stream, and no longer one is
Base == /\ answered <= settled /\ settled <= base /\ base <= pos
        /\ Mode # "read" => Clean(ReadAll(Empty, SubSeq(txt, 1, settled), Chunks(kind)))
        /\ Mode # "read" => Clean(ReadAll(Empty, SubSeq(txt, 1, base), Chunks(kind)))
        /\ \A n \in (base + 1)..pos : ~Clean(ReadAll(Empty, SubSeq(txt, 1, n), Chunks(kind)))
Dump == Full => IF Mode = "read" THEN PrintT(ToJson([src |-> src - 100, clean |-> Clean(s), at |-> base]))
                ELSE PrintT(ToJson([kind |-> kind, words |-> Len(words), txt |-> txt, cuts |-> cuts, stream |-> kind \in Streams]))
Table == (Mode = "all" /\ pos = 0 /\ words = << >> /\ kind = "plain") => PrintT(ToJson([stages |-> Stages, words |-> [k \in DOMAIN Vocabulary |-> Len(Vocabulary[k])]]))
=============================================================================
