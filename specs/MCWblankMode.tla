----------------------------- MODULE MCWblankMode -----------------------------
\* every pipeline of up to MaxStages stages of the vocabulary, and the pipelines of a file
EXTENDS WblankMode, Json, IOUtils
CONSTANT MaxStages
Data == ndJsonDeserialize(IOEnv.WORDS)[1]
WC == Data.w
Voc == Data.stages
Given == ndJsonDeserialize(IOEnv.CASES)
VARIABLES pl, z, given
Init == z \in BOOLEAN /\ pl = << >> /\ given \in -15..0
Next == \/ given = 0 /\ Len(pl) < MaxStages /\ (\E i \in 1..Len(Voc) : pl' = Append(pl, Voc[i])) /\ UNCHANGED <<z, given>>
        \/ given < 0 /\ pl = << >> /\ (\E i \in 1..Len(Given) : i % 15 = given + 15 /\ pl' = Given[i].pl /\ z = Given[i].z /\ given' = i) /\ UNCHANGED z
Out == WMode(pl, z)
\* the programs of the mode are all there, in their order, with their words
Kept == pl # << >> => NoHelpers(NoZ(Out)) = NoHelpers(NoZ(Split(pl)))
\* doing it again changes nothing (a mode that looks the bilingual dictionary up both before transfer and
\* in transfer is not split, which a second run cannot see once -z stands in front of -b)
Mixed == Splits(pl) /\ SomeStage(pl, Old)
Again == pl # << >> /\ ~(z /\ Mixed) => /\ WMode(Out, FALSE) = Out
                                        /\ NoZ(WMode(Out, z)) = NoZ(Out)
\* with -z, everything flushes except the helpers, which always do
AllFlush == z /\ pl # << >> => \A i \in 1..Len(Out) : HasZ(Out[i]) \/ Out[i] \in {<<W.attach>>, <<W.detach>>}
\* no analysis without attachment, unless the mode sees to it itself
Attached == ~Helped(pl) => \A i \in 1..Len(Out) : Analyser(Out[i]) => i < Len(Out) /\ Out[i + 1] = <<W.attach>>
Detached == ~Helped(pl) /\ ~Recased(pl) => \A i \in 1..Len(Out) : Generator(Out[i]) /\ ~Analyser(Out[i]) => i > 1 /\ Out[i - 1] = <<W.detach>>
Dump == pl # << >> => PrintT(ToJson([g |-> given, z |-> z, p |-> [i \in 1..Len(pl) |-> [j \in 1..Len(pl[i]) |-> Str(pl[i][j])]],
                                                      o |-> [i \in 1..Len(Out) |-> [j \in 1..Len(Out[i]) |-> Str(Out[i][j])]]]))
=============================================================================
