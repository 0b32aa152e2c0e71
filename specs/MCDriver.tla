------------------------------ MODULE MCDriver ------------------------------
\* every command line of up to MaxLen words of the vocabulary, and those of a file
EXTENDS Driver, Json, IOUtils
CONSTANT MaxLen
Data == ndJsonDeserialize(IOEnv.DATA)[1]
WC == Data.w
NC == Data.n
Words == {Data.words[i] : i \in 1..Len(Data.words)}
WorldC == [files |-> {Data.files[i] : i \in 1..Len(Data.files)}, tmbad |-> {Data.tmbad[i] : i \in 1..Len(Data.tmbad)}, dflt |-> Data.dflt,
           dirs |-> {Data.dirs[i].d : i \in 1..Len(Data.dirs)},
           prefs |-> [d \in {Data.dirs[i].d : i \in 1..Len(Data.dirs)} |-> LET x == Data.dirs[CHOOSE i \in 1..Len(Data.dirs) : Data.dirs[i].d = d].prefs
                                                                           IN [m \in {x[i].m : i \in 1..Len(x)} |-> x[CHOOSE i \in 1..Len(x) : x[i].m = m].ps]],
           modes |-> [d \in {Data.dirs[i].d : i \in 1..Len(Data.dirs)} |-> LET x == Data.dirs[CHOOSE i \in 1..Len(Data.dirs) : Data.dirs[i].d = d].modes
                                                                           IN [m \in {x[i].m : i \in 1..Len(x)} |-> x[CHOOSE i \in 1..Len(x) : x[i].m = m].pl]]]
Given == ndJsonDeserialize(IOEnv.CASES)
VARIABLES av, given, e
Init == av = << >> /\ e = [var |-> << >>, bad |-> << >>] /\ given \in -15..0
Next == \/ given = 0 /\ Len(av) < MaxLen /\ (\E w \in Words : av' = Append(av, w)) /\ UNCHANGED <<given, e>>
        \/ given < 0 /\ av = << >> /\ \E i \in 1..Len(Given) : i % 15 = given + 15 /\ av' = Given[i].av /\ given' = i /\ e' = [var |-> Given[i].var, bad |-> Given[i].bad]
Run1(a) == Run(a, e.var, e.bad)
R == Run1(av)
\* the deformatter comes first, the reformatter last, and the memory before the mode
Ends == R.end = "run" => LET p == R.pipe IN R.f = N.none \/ (StartsWith(Last1(p)[1], N.re) \/ Last1(p)[1] = N.postlatex)
\* -u and formats of the unmarked kind reach the generator, -a the tagger, and nothing else changes
Swap(x, a, b) == [i \in 1..Len(x) |-> [j \in 1..Len(x[i]) |-> IF x[i][j] = a THEN b ELSE x[i][j]]]
\* flags mean the same wherever they stand: in front of everything, a cluster of its own, or after the plain words
Moved == (R.end = "run" /\ Len(av) >= 1 /\ av[1] \in {<<"-", c>> : c \in {"u", "a", "z", "n", "H", "s"}}) =>
           LET k == Pre(Tail(av), 1) IN k > 1 => Run1(SubSeq(Tail(av), 1, k - 1) \o <<av[1]>> \o SubSeq(Tail(av), k, Len(av) - 1)) = R
\* giving a flag twice is giving it once
Twice == (R.end = "run" /\ av[1] \in {<<"-", c>> : c \in {"u", "a", "z", "n", "H", "s"}}) => Run1(<<av[1]>> \o av) = R
\* asking for all but the options that all but these leave gives these
Inverted == (R.end = "run" /\ e.var # << >>) => (Var(World.dflt, av[1], R.var) = Var(World.dflt, av[1], Var(World.dflt, av[1], R.var)))
Dump == (av # << >> \/ given > 0) => PrintT(ToJson([g |-> given, var |-> Str(e.var), bad |-> Str(e.bad), av |-> [i \in 1..Len(av) |-> Str(av[i])],
           r |-> IF R.end = "run" THEN [end |-> "run", f |-> Str(R.f), in |-> Str(R.in), out |-> Str(R.out), warn |-> R.warn, un |-> R.un, var |-> Str(R.var), fails |-> R.fails, z |-> R.z,
                                        emb |-> [i \in 1..Len(R.emb) |-> [j \in 1..Len(R.emb[i]) |-> Str(R.emb[i][j])]],
                                        pipe |-> [i \in 1..Len(R.pipe) |-> [j \in 1..Len(R.pipe[i]) |-> Str(R.pipe[i][j])]]]
                 ELSE IF R.end = "list" THEN [end |-> "list", dir |-> Str(R.dir)] ELSE [end |-> R.end]]))
=============================================================================
