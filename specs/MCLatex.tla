-------------------------------- MODULE MCLatex --------------------------------
EXTENDS Latex
(* Cases: documents.  One stage of the chain per step.                              *)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs, st, cur, ls
vars == <<cs, st, cur, ls>>
Parts == 15
Init == cs \in {0 - i : i \in 1..Parts} /\ st = "doc" /\ cur = << >> /\ ls = << >>
Pick == /\ cs < 0 /\ \E x \in {y \in 1..Len(Cases) : y % Parts = (-cs) - 1} : cs' = x /\ cur' = Cases[x]
        /\ UNCHANGED <<st, ls>>
DoPre == /\ cs > 0 /\ st = "doc" /\ LET p == Pre(cur) IN
            IF p.m = "unmodelled" THEN st' = "unmodelled" /\ UNCHANGED <<cur, ls>>
            ELSE st' = "pre" /\ ls' = p.ls /\ cur' = Written(p.ls)
         /\ UNCHANGED cs
DoFix  == cs > 0 /\ st = "pre" /\ st' = "fix" /\ cur' = Fix(cur) /\ UNCHANGED <<cs, ls>>
DoAwk  == cs > 0 /\ st = "fix" /\ st' = "awk" /\ cur' = Awk(cur) /\ UNCHANGED <<cs, ls>>
DoRaw  == cs > 0 /\ st = "awk" /\ st' = "raw" /\ cur' = Post(cur, TRUE) /\ UNCHANGED <<cs, ls>>
DoPost == cs > 0 /\ st = "awk" /\ st' = "post" /\ cur' = Post(cur, FALSE) /\ UNCHANGED <<cs, ls>>
\* once more round, from what postlatex wrote
Again  == /\ cs > 0 /\ st = "post" /\ st' = "again"
          /\ cur' = Post(Awk(Fix(Written(Pre(cur).ls))), FALSE) /\ UNCHANGED <<cs, ls>>
Next == Pick \/ DoPre \/ DoFix \/ DoAwk \/ DoRaw \/ DoPost \/ Again
\* the document comes back
RoundTrip == (st = "raw" => cur = Norm(ls, TRUE)) /\ (st \in {"post", "again"} => cur = Norm(ls, FALSE))
\* the lexemes are the document
Covers == st = "pre" => Cat([i \in DOMAIN ls |-> ls[i].s]) = Cases[cs]
Modelled == st # "unmodelled"
Dump == (st \in {"pre", "fix", "awk", "raw", "post"}) =>
        PrintT(ToJson([c |-> cs, s |-> st, t |-> Str(cur), v |-> IF st = "pre" THEN Str(Letters(Visible(ls))) ELSE ""]))
================================================================================
