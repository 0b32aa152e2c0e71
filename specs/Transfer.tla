------------------------------- MODULE Transfer -------------------------------
(* The three structural-transfer stages: words are read one at a time, all rule   *)
(* patterns are followed at once from the first unprocessed word, the last        *)
(* acceptance is remembered, and when no pattern can go on the remembered rule is *)
(* applied (or the word gets its default treatment).                              *)
(*                                                                                *)
(* A case is a record: rs (index of its rule file) and segs, a sequence of        *)
(* segments separated by null flushes.  A segment has words (n of them) and       *)
(* blanks (n+1 strings).                                                          *)
EXTENDS RuleLang, Json, IOUtils
(* rule files and cases come from JSON files named by the environment *)
Rules == ndJsonDeserialize(IOEnv.RULES)
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cs,       \* which case
          sg,       \* which segment of it
          start,    \* first unprocessed word
          k,        \* words read after start-1
          live,     \* pattern positions alive: <<rule, items passed>>
          cand,     \* <<rule, words>> of the last acceptance, <<0,0>>: none
          banned,   \* rules set aside at this start
          vars, varwb,
          out,      \* symbols written in this segment
          outs,     \* finished segments
          used,     \* ghost: <<first, last, rule>> of every decision that moved on
          bl        \* ghost: blanks written, as indexes
vv == <<cs, sg, start, k, live, cand, banned, vars, varwb, out, outs, used, bl>>

RS == Rules[Cases[cs].rs]
Seg == Cases[cs].segs[sg]
N == Len(Seg.words)
RuleIx == DOMAIN RS.rules
Vars0(rs) == rs.vars
NoWb(rs) == [n \in DOMAIN rs.vars |-> <<>>]
Fresh == {<<r, 0>> : r \in RuleIx}
(* a rule whose pattern repeats an earlier one letter by letter is never reached *)
Shadowed(r) == \E q \in RuleIx : q < r /\ RS.rules[q].pat = RS.rules[r].pat
Accepting(L) == {r \in RuleIx : <<r, Len(RS.rules[r].pat)>> \in L /\ ~Shadowed(r)} \ banned

Bl(i) == IF Seg.blanks[i] = "" THEN <<>> ELSE <<Seg.blanks[i]>>

(* ---- what a chunk contains (postchunk) ---- *)
NumOf(t) == \* number named by a tag, -1 when it is not one
  LET b == SubSeq(t, 2, Len(t)-1)
      RECURSIVE G(_,_)
      G(i, a) == IF i > Len(b) THEN a
                 ELSE LET d == SubSeq(b,i,i) IN IF d \in Digits THEN G(i+1, 10*a + (CHOOSE x \in 0..9 : ToString(x) = d)) ELSE -1
  IN G(1, 0)
ChunkTags(w) == SelectSeq(w.tl, IsTag)
Pseudo(w) == SubSeq(w.tl, 1, RunEnd(w.tl, 1, NotTag))
Refs(w, v) == \* tags of v that are numbers stand for the tags of the chunk
  LET ct == ChunkTags(w)
      RECURSIVE G(_)
      G(i) == IF i > Len(v) THEN <<>>
              ELSE (IF IsTag(v[i]) /\ NumOf(v[i]) # -1
                    THEN IF NumOf(v[i]) \in DOMAIN ct THEN <<ct[NumOf(v[i])]>> ELSE <<>>
                    ELSE <<v[i]>>) \o G(i+1)
  IN G(1)
(* the words of a chunk with references resolved and the case of its name applied *)
Inner(rs, w) ==
  LET key == IF rs.dictcase THEN "aa" ELSE GetCase(Pseudo(w))
      RECURSIVE Fst(_,_)    \* capital on the first letter or digit
      Fst(v, i) == IF i > Len(v) THEN [v |-> v, done |-> FALSE]
                   ELSE IF IsAlnum(v[i]) THEN [v |-> [v EXCEPT ![i] = Up(@)], done |-> TRUE] ELSE Fst(v, i+1)
      RECURSIVE G(_,_)
      G(i, pend) ==
        IF i > Len(w.in.words) THEN <<>>
        ELSE LET v == Refs(w, w.in.words[i].tl)
                 f == Fst(v, 1)
                 v2 == IF key = "AA" THEN UpperV(v) ELSE IF key = "Aa" /\ pend THEN f.v ELSE v
             IN <<[sl |-> <<>>, ref |-> <<>>, q |-> <<>>, tl |-> v2, wb |-> w.in.words[i].wb]>> \o G(i+1, pend /\ ~f.done)
  IN G(1, TRUE)
InBl(w, i) == IF w.in.blanks[i] = "" THEN <<>> ELSE <<w.in.blanks[i]>>
Unchunk(rs, w) ==
  LET ws == Inner(rs, w)
      RECURSIVE G(_)
      G(i) == IF i > Len(ws) THEN InBl(w, i)
              ELSE InBl(w, i) \o RenderWb(ws[i].wb) \o <<"^">> \o ws[i].tl \o <<"$">> \o G(i+1)
  IN G(1)

(* ---- default treatment of a word no rule takes ---- *)
Default(rs, w) ==
  CASE rs.stage = "i" -> <<"^">> \o w.tl \o w.q \o <<"$">>
    [] rs.stage = "p" -> Unchunk(rs, w)
    [] OTHER ->
       LET lu == RenderWb(w.wb) \o <<"^">> \o w.tl \o <<"$">>
       IN IF w.tl = <<>> THEN <<>>
          ELSE IF rs.dflt = "lu" THEN lu
          ELSE IF w.tl[1] = "*" THEN <<"^unknown<unknown>{">> \o lu \o <<"}$">>
          ELSE <<"^default<default>{">> \o lu \o <<"}$">>

(* ---- applying rule r to n words from start ---- *)
Own(n, rej) == \* number of blanks between the words that this application consumes
  IF rej = -1 THEN n - 1 ELSE IF rej = 0 THEN 0 ELSE rej - 1
Flushed(bq) == SelectSeq(bq, LAMBDA b : b # " " /\ b # "")
DoRule(r, n) ==
  IF RS.stage = "p"
  THEN LET w == Seg.words[start]
           ws == Inner(RS, w)
           w0 == [sl |-> <<>>, ref |-> <<>>, q |-> <<>>, tl |-> w.tl, wb |-> <<>>]
           nb == Len(ws)
           lead == InBl(w, 1)
           trail == IF nb > 0 /\ w.in.blanks[nb+1] # "" THEN <<w.in.blanks[nb+1]>> ELSE <<>>
           mid == IF nb = 0 THEN <<>> ELSE [i \in 1..nb-1 |-> w.in.blanks[i+1]] \o trail
           a == Apply(RS, RS.rules[r].act, <<w0>> \o ws, [i \in 1..nb+1 |-> i], 0, nb, lead, mid, vars, varwb)
       IN [a EXCEPT !.out = a.out \o (IF a.rej = 0 THEN <<>> ELSE Flushed(a.lead \o a.bq))]
  ELSE LET ws == [i \in 1..n |-> Seg.words[start+i-1]]
           bs == [i \in 1..n-1 |-> Seg.blanks[start+i]]
           a == Apply(RS, RS.rules[r].act, ws, [i \in 1..n |-> i], n, n, <<>>, bs, vars, varwb)
           popped == n - 1 - Len(a.bq)
           left == Own(n, a.rej) - popped
       IN [a EXCEPT !.out = @ \o Flushed(SubSeq(a.bq, 1, IF left < 0 THEN 0 ELSE left))]

(* ---- transitions ---- *)
Begin(c, s) ==
  LET rs == Rules[Cases[c].rs]
      seg == Cases[c].segs[s]
  IN /\ start' = 1 /\ k' = 0 /\ live' = {<<r, 0>> : r \in DOMAIN rs.rules} /\ cand' = <<0, 0>> /\ banned' = {}
     /\ vars' = rs.vars /\ varwb' = NoWb(rs)
     /\ out' = IF seg.blanks[1] = "" THEN <<>> ELSE <<seg.blanks[1]>>
     /\ used' = <<>> /\ bl' = <<1>>
TInit == /\ cs \in DOMAIN Cases /\ sg = 1 /\ start = 1 /\ k = 0 /\ live = Fresh /\ cand = <<0,0>> /\ banned = {}
         /\ vars = RS.vars /\ varwb = NoWb(RS) /\ out = Bl(1) /\ outs = <<>> /\ used = <<>> /\ bl = <<1>>
More == live # {} /\ start + k <= N       \* worth reading another word
Read ==
  /\ sg <= Len(Cases[cs].segs) /\ start <= N /\ More
  /\ LET w == Seg.words[start + k]
         L == {<<p[1], p[2]+1>> : p \in {q \in live : q[2] < Len(RS.rules[q[1]].pat) /\ CatMatches(RS, RS.rules[q[1]].pat[q[2]+1], w)}}
         A == Accepting(L)
     IN /\ live' = L /\ k' = k + 1
        /\ cand' = IF A = {} THEN cand ELSE <<MinS(A), k + 1>>
  /\ UNCHANGED <<cs, sg, start, banned, vars, varwb, out, outs, used, bl>>
Restart(s) == start' = s /\ k' = 0 /\ live' = Fresh /\ cand' = <<0,0>>
Decide ==
  /\ sg <= Len(Cases[cs].segs) /\ start <= N /\ ~More
  /\ IF cand[1] = 0
     THEN /\ out' = out \o Default(RS, Seg.words[start]) \o Bl(start + 1)
          /\ Restart(start + 1) /\ banned' = {}
          /\ used' = Append(used, <<start, start, 0>>) /\ bl' = Append(bl, start + 1)
          /\ UNCHANGED <<vars, varwb>>
     ELSE LET a == DoRule(cand[1], cand[2])
              n == IF a.rej = -1 THEN cand[2] ELSE a.rej
          IN /\ vars' = a.vars /\ varwb' = a.varwb
             /\ IF n = 0
                THEN /\ banned' = banned \cup {cand[1]} /\ Restart(start)
                     /\ out' = out \o a.out
                     /\ UNCHANGED <<used, bl>>
                ELSE /\ banned' = {} /\ Restart(start + n)
                     /\ out' = out \o a.out \o Bl(start + n)
                     /\ used' = Append(used, <<start, start + n - 1, cand[1]>>)
                     /\ bl' = bl \o [i \in 1..n |-> start + i]
  /\ UNCHANGED <<cs, sg, outs>>
Flush ==   \* end of a segment: the next one starts from scratch
  /\ sg <= Len(Cases[cs].segs) /\ start > N
  /\ outs' = Append(outs, out)
  /\ sg' = sg + 1 /\ cs' = cs
  /\ IF sg < Len(Cases[cs].segs) THEN Begin(cs, sg + 1)
     ELSE UNCHANGED <<start, k, live, cand, banned, vars, varwb, out, used, bl>>
TNext == Read \/ Decide \/ Flush
Done == sg > Len(Cases[cs].segs)

(* ------------------------------ properties ---------------------------------- *)
PatMatches(r, i) == /\ i + Len(RS.rules[r].pat) - 1 <= N
                    /\ \A j \in DOMAIN RS.rules[r].pat : CatMatches(RS, RS.rules[r].pat[j], Seg.words[i+j-1])
(* left to right, longest match, first rule among the longest, rejected rules left out *)
LongestMatch ==
  (~Done /\ start <= N /\ ~More) =>
    LET R == {r \in RuleIx \ banned : ~Shadowed(r) /\ PatMatches(r, start)}
    IN IF R = {} THEN cand = <<0,0>>
       ELSE LET m == MaxS({Len(RS.rules[r].pat) : r \in R})
            IN cand = <<MinS({r \in R : Len(RS.rules[r].pat) = m}), m>>
(* every word is dealt with exactly once, in order, and so is every blank *)
Covered ==
  (~Done /\ start > N) =>
    /\ N > 0 => used[1][1] = 1 /\ used[Len(used)][2] = N
    /\ \A i \in 1..Len(used)-1 : used[i+1][1] = used[i][2] + 1
    /\ bl = [i \in 1..N+1 |-> i]
(* a rejected rule never comes back at the same place *)
BanHolds == (cand[1] # 0) => cand[1] \notin banned

(* ------------------------------ text ----------------------------------------- *)
StrOf(v) == LET RECURSIVE G(_) G(i) == IF i > Len(v) THEN "" ELSE v[i] \o G(i+1) IN G(1)
InWord(rs, w) ==
  CASE rs.stage = "t" -> StrOf(RenderWb(w.wb)) \o "^" \o StrOf(w.sl) \o (IF w.bi THEN "/" \o StrOf(w.tl) ELSE "")
                         \o (IF w.ref = <<>> THEN "" ELSE "/" \o StrOf(w.ref)) \o "$"
    [] rs.stage = "i" -> "^" \o StrOf(w.tl) \o StrOf(w.q) \o "$"
    [] OTHER -> LET RECURSIVE G(_)
                    G(i) == IF i > Len(w.in.words) THEN w.in.blanks[i]
                            ELSE w.in.blanks[i] \o StrOf(RenderWb(w.in.words[i].wb)) \o "^" \o StrOf(w.in.words[i].tl) \o "$" \o G(i+1)
                IN "^" \o StrOf(w.tl) \o "{" \o G(1) \o "}$"
InText(rs, seg) == LET RECURSIVE G(_)
                       G(i) == IF i > Len(seg.words) THEN seg.blanks[i] ELSE seg.blanks[i] \o InWord(rs, seg.words[i]) \o G(i+1)
                   IN G(1)
Result == [c |-> cs, i |-> [j \in DOMAIN Cases[cs].segs |-> InText(RS, Cases[cs].segs[j])],
           o |-> [j \in DOMAIN outs |-> StrOf(outs[j])], u |-> used]
=============================================================================
