------------------------------ MODULE StreamBase ------------------------------
(***************************************************************************)
(* Shared vocabulary.  Text is a sequence of one-character strings.  The   *)
(* Apertium stream format:                                                 *)
(*   \c         escaped character          [ ... ]    superblank           *)
(*   [[ ... ]]  word-bound blank           ^ ... $    lexical unit         *)
(*   NUL        flush marker                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

NUL == "@NUL@"    \* the trace files write the NUL byte as this string
BSL == "\\"
NL  == "\n"

Cat(ss) == FlattenSeq(ss)                       \* concatenation of a sequence of texts
Str(s)  == FoldLeft(LAMBDA a, b : a \o b, "", s) \* text -> TLC string (for printing)
Last1(s) == s[Len(s)]
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
IndexFrom(s, i, c) == \* least j >= i with s[j] = c, 0 when there is none
  LET J == {j \in i..Len(s) : s[j] = c} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
=============================================================================
