------------------------------ MODULE MCFilters -------------------------------
EXTENDS Filters, Json
CONSTANTS MaxItems, Tool
XItems == {<<" ">>, <<"a">>, <<"[">>, <<BSL>>, <<NUL>>, <<NL>>, <<"\t">>}
CItems == {<<" ">>, <<"x">>, <<BSL, "^">>, <<"[", "b", "^", "]">>, <<"[", "[", "w", "]", "]">>, <<"^", "u", "$">>,
           <<"^", BSL, "$", "[", "/", "v", "<", "n", ">", "$">>, <<NL>>, <<"]">>, <<"[", BSL, "]", "]">>}
Opts == IF Tool = "x" THEN {[t |-> "x", n |-> FALSE, b |-> FALSE]} ELSE [t : {"c"}, n : BOOLEAN, b : BOOLEAN]
VARIABLES hist, opt, st, inp, out
Init == /\ hist = << >> /\ inp = << >> /\ out = << >> /\ opt \in Opts
        /\ st = IF Tool = "x" THEN XStart(0) ELSE CStart(opt)
St(s, c) == IF Tool = "x" THEN XStep(s, c, opt) ELSE CStep(s, c, opt)
Run(s, tx) == FoldLeft(LAMBDA a, c : LET q == St(a.s, c) IN [s |-> q.s, e |-> a.e \o q.e], [s |-> s, e |-> << >>], tx)
Next == /\ Len(hist) < MaxItems
        /\ \E u \in (IF Tool = "x" THEN XItems ELSE CItems) :
             LET r == Run(st, u) IN hist' = Append(hist, u) /\ st' = r.s /\ inp' = inp \o u /\ out' = out \o r.e
        /\ UNCHANGED opt
Final == out \o (IF Tool = "x" THEN << >> ELSE CStop(st, opt))

NonSp(x) == SelectSeq(x, LAMBDA c : c # " ")
\* posttransfer: same non-space characters, no two spaces in a row, a space wherever there was one
Squeezed == Tool = "x" =>
   /\ NonSp(out) = NonSp(inp)
   /\ \A i \in 1..Len(out) - 1 : ~(out[i] = " " /\ out[i + 1] = " ")
   /\ Len(out) = Len(inp) - Cardinality({i \in 1..Len(inp) - 1 : inp[i] = " " /\ inp[i + 1] = " "})
\* cleanstream: the units, verbatim and in order, are all that is kept (and the blanks with -b)
IsUnit(u) == u[1] = "^"
IsBlank(u) == u[1] = "["
Kept(h) == SelectSeq(h, LAMBDA u : IsUnit(u) \/ (opt.b /\ IsBlank(u)))
RECURSIVE Peel(_, _)   \* o is the pieces in order, with only separators (in c) between them
Peel(o, ps) == IF ps = << >> THEN \A i \in 1..Len(o) : o[i] = WS(opt)
               ELSE IF o = << >> THEN FALSE
               ELSE IF StartsWith(o, ps[1]) THEN Peel(SubSeq(o, Len(ps[1]) + 1, Len(o)), Tail(ps))
               ELSE o[1] = WS(opt) /\ Peel(Tail(o), ps)
Kept_ok == Tool = "c" => Peel(Final, Kept(hist))
Dump == (Len(hist) = MaxItems) => PrintT(ToJson([n |-> opt.n, b |-> opt.b, i |-> Str(inp), o |-> Str(Final)]))
=============================================================================
