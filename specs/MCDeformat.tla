------------------------------ MODULE MCDeformat ------------------------------
(***************************************************************************)
(* All documents of at most MaxFrags fragments, of every format: written,  *)
(* deformatted one token per step, reformatted one token per step.         *)
(***************************************************************************)
EXTENDS Deformat
CONSTANTS MaxFrags, AllOpts
Frags == TLCEval(JsonDeserialize(IOEnv.FRAGS))   \* format -> sequence of texts
NoOpt == [n |-> FALSE, i |-> FALSE, o |-> FALSE]
Opts == IF AllOpts THEN {[n |-> a, i |-> b, o |-> c] : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN}
        ELSE {NoOpt}
VARIABLES f, opt, phase, k, inp, d, r, out, back
vars == <<f, opt, phase, k, inp, d, r, out, back>>
Init == /\ f \in DOMAIN Frags /\ opt \in Opts /\ phase = "write" /\ k = 0
        /\ inp = << >> /\ d = DStart /\ r = RStart /\ out = << >> /\ back = << >>
Write == /\ phase = "write" /\ k < MaxFrags
         /\ \E x \in DOMAIN Frags[f] : inp' = inp \o Frags[f][x]
         /\ k' = k + 1
         /\ UNCHANGED <<f, opt, phase, d, r, out, back>>
Submit == /\ phase = "write" /\ phase' = "deformat" /\ UNCHANGED <<f, opt, k, inp, d, r, out, back>>
DeformatToken == /\ phase = "deformat"
                 /\ LET q == DStep(Formats[f], inp, d, opt) IN
                      /\ d' = q.s /\ out' = out \o q.e
                      /\ phase' = IF q.s.done THEN "reformat" ELSE phase
                 /\ UNCHANGED <<f, opt, k, inp, r, back>>
ReformatToken == /\ phase = "reformat"
                 /\ LET q == RStep(Formats[f], out, r) IN
                      /\ r' = q.s /\ back' = back \o q.e
                      /\ phase' = IF q.s.done THEN "done" ELSE phase
                 /\ UNCHANGED <<f, opt, k, inp, d, out>>
Next == Write \/ Submit \/ DeformatToken \/ ReformatToken

\* C14: the document comes back (a heading mark, -o, is text of its own)
RoundTrip == (phase = "done" /\ ~opt.o) => back = d.norm
\* ... literally, when nothing in it is replaced by or written as markup
F == Formats[f]
Literal == (phase = "done" /\ ~opt.o /\ DOMAIN F.subst = {} ) => back = inp
\* C15
P == ParseStream(F, out)
Streams == phase = "reformat" => P.ok
Texts == (phase = "reformat" /\ ~opt.o) => P.text = d.text
\* (with -o a full stop before a heading mark looks like an inserted one: known finding)
Dots == (phase = "reformat" /\ ~opt.i /\ ~opt.o) => IF opt.n THEN P.dots = 0 ELSE P.dots <= d.eos + 1 /\ P.dots >= 1
Dump == phase = "done" => PrintT(ToJson([f |-> f, n |-> opt.n, i |-> opt.i, h |-> opt.o, in |-> Str(inp), out |-> Str(out), back |-> Str(back)]))
=============================================================================
