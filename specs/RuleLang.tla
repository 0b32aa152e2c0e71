------------------------------ MODULE RuleLang ------------------------------
(* The language of transfer, interchunk and postchunk rules: values, conditions, *)
(* instructions and macros, and the matching of one word against a category.     *)
(*                                                                               *)
(* Text is a sequence of symbols.  A symbol is a character, an escaped character *)
(* ("\\+"), a whole tag ("<n>") or an opaque piece (a blank, the queue of a       *)
(* chunk).  A word-bound blank is the sequence of its pieces; <<>> is "none".     *)
(* A rule file is a record (see gen in lib/xfer.py, which writes the same record  *)
(* as XML for the real compiler):                                                 *)
(*   stage "t" | "i" | "p", dflt "lu" | "chunk", dictcase, cats, attrs, vars,     *)
(*   lists, macros, rules                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------ symbols and case ---------------------------- *)
LoSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z","é","ñ","ž","ж">>
UpSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","É","Ñ","Ž","Ж">>
LoSet == {LoSeq[i] : i \in DOMAIN LoSeq}
UpSet == {UpSeq[i] : i \in DOMAIN UpSeq}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
LoOf == [c \in UpSet |-> LoSeq[CHOOSE i \in DOMAIN UpSeq : UpSeq[i] = c]]
UpOf == [c \in LoSet |-> UpSeq[CHOOSE i \in DOMAIN LoSeq : LoSeq[i] = c]]
IsUp(c) == c \in UpSet
IsAlnum(c) == c \in LoSet \/ c \in UpSet \/ c \in Digits
Lo(c) == IF c \in UpSet THEN LoOf[c] ELSE c
Up(c) == IF c \in LoSet THEN UpOf[c] ELSE c
LowerV(v) == [i \in DOMAIN v |-> Lo(v[i])]
UpperV(v) == [i \in DOMAIN v |-> Up(v[i])]
(* every word of the text gets a capital, the rest is small *)
TitleV(v) == [i \in DOMAIN v |-> IF i = 1 \/ ~IsAlnum(v[IF i = 1 THEN 1 ELSE i-1]) THEN Up(v[i]) ELSE Lo(v[i])]

IsTag(x) == IF Len(x) > 2 THEN SubSeq(x,1,1) = "<" ELSE FALSE

GetCase(v) ==
  IF v = <<>> THEN "aa"
  ELSE IF ~IsUp(v[1]) THEN "aa"
  ELSE IF Len(v) > 1 /\ IsUp(v[Len(v)]) THEN "AA" ELSE "Aa"
CaseSyms(k) == IF k = "aa" THEN <<"a","a">> ELSE IF k = "Aa" THEN <<"A","a">> ELSE <<"A","A">>
ApplyCase(k, v) == IF k = "AA" THEN UpperV(v) ELSE IF k = "Aa" THEN TitleV(v) ELSE LowerV(v)
(* plain copying of case; an empty source changes nothing *)
CopyCase(src, v) == IF src = <<>> THEN v ELSE ApplyCase(GetCase(src), v)
TagPos(v) == {i \in DOMAIN v : IsTag(v[i])}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
(* copying of case that leaves everything from the first to the last tag alone *)
CopyCaseTags(src, v) ==
  IF TagPos(v) = {} THEN CopyCase(src, v)
  ELSE LET a == MinS(TagPos(v))
           b == MaxS(TagPos(v))
           k == GetCase(src)
       IN ApplyCase(k, SubSeq(v,1,a-1)) \o SubSeq(v,a,b)
          \o (IF k = "AA" THEN UpperV(SubSeq(v,b+1,Len(v))) ELSE LowerV(SubSeq(v,b+1,Len(v))))

(* ------------------------------ parts of a word ----------------------------- *)
(* The part of text v named p is v[lo..hi]; lo > hi means there is none. *)
NoRange == <<1,0>>
RunEnd(v, from, P(_)) ==    \* last index of the run of P starting at from (from-1 when empty)
  LET bad == {i \in from..Len(v) : ~P(v[i])} IN IF bad = {} THEN Len(v) ELSE MinS(bad) - 1
StartsAt(v, i, alt) == /\ i + Len(alt) - 1 <= Len(v)
                       /\ \A k \in 1..Len(alt) : v[i+k-1] = alt[k]
LowTag(x) == LET RECURSIVE L(_) L(i) == IF i > Len(x) THEN "" ELSE Lo(SubSeq(x,i,i)) \o L(i+1) IN L(1)
Fold(v) == [i \in DOMAIN v |-> IF Len(v[i]) = 1 THEN Lo(v[i]) ELSE LowTag(v[i])]
NotTag(x) == ~IsTag(x)
HeadSym(x) == ~IsTag(x) /\ x # "#"
PartRange(rs, p, v) ==
  CASE p = "lem"   -> <<1, RunEnd(v, 1, NotTag)>>
    [] p = "lemh"  -> <<1, RunEnd(v, 1, HeadSym)>>
    [] p = "lemq"  -> LET S == {i \in 1..Len(v)-2 : v[i] = "#" /\ v[i+1] \in {"-"," ","_"} /\ ~IsTag(v[i+2])}
                      IN IF S = {} THEN NoRange ELSE <<MinS(S), RunEnd(v, MinS(S), NotTag)>>
    [] p = "whole" -> <<1, Len(v)>>
    [] p = "tags"  -> IF TagPos(v) = {} THEN NoRange ELSE <<MinS(TagPos(v)), RunEnd(v, MinS(TagPos(v)), IsTag)>>
    [] p \in {"content","chcontent"} -> NoRange
    [] OTHER       ->
       \* the first place where one of the alternatives stands (upper or lower case), the longest there
       LET alts == {Fold(rs.attrs[p][k]) : k \in DOMAIN rs.attrs[p]}
           u == Fold(v)
           S == {i \in 1..Len(v) : \E a \in alts : StartsAt(u, i, a)}
       IN IF S = {} THEN NoRange
          ELSE LET i == MinS(S)
                   L == {Len(a) : a \in {b \in alts : StartsAt(u, i, b)}}
               IN <<i, i + MaxS(L) - 1>>
GetPart(rs, p, v) == LET r == PartRange(rs, p, v) IN SubSeq(v, r[1], r[2])
SetPart(rs, p, v, val) == LET r == PartRange(rs, p, v)
                          IN IF r[1] > r[2] THEN v ELSE SubSeq(v,1,r[1]-1) \o val \o SubSeq(v,r[2]+1,Len(v))
(* a word of interchunk is its name and tags plus an opaque queue "{...}" *)
GetChunkPart(rs, p, w) ==
  IF p \in {"content","chcontent"}
  THEN IF w.q = <<>> THEN <<>> ELSE IF p = "chcontent" THEN w.q
       ELSE LET c == SubSeq(w.q[1], 2, Len(w.q[1])-1) IN IF c = "" THEN <<>> ELSE <<c>>
  ELSE IF p = "whole" THEN w.tl \o w.q
  ELSE GetPart(rs, p, w.tl)

(* ------------------------------ categories ---------------------------------- *)
(* pat matches v when v is pat with every "*" standing for one or more symbols *)
RECURSIVE Glob(_,_,_,_)
Glob(pat, i, v, j) ==
  IF i > Len(pat) THEN j > Len(v)
  ELSE IF j > Len(v) THEN FALSE
  ELSE IF pat[i] = "*" THEN Glob(pat, i+1, v, j+1) \/ Glob(pat, i, v, j+1)
  ELSE pat[i] = v[j] /\ Glob(pat, i+1, v, j+1)
Unesc(x) == IF Len(x) = 2 THEN SubSeq(x,2,2) ELSE x
ItemMatches(it, v) ==
  \* all characters, then all tags; letters are compared in small letters
  LET n == RunEnd(v, 1, NotTag)
      cs == [i \in 1..n |-> Lo(Unesc(v[i]))]
      ts == SubSeq(v, n+1, Len(v))
  IN /\ \A i \in DOMAIN ts : IsTag(ts[i])
     /\ IF it.anylem THEN n > 0 ELSE Glob(it.lem, 1, cs, 1)
     /\ Glob(it.tags, 1, ts, 1)
Matched(rs, w) == \* what patterns look at
  CASE rs.stage = "t" -> w.sl
    [] rs.stage = "i" -> w.tl
    [] OTHER -> SubSeq(w.tl, 1, RunEnd(w.tl, 1, NotTag))
CatMatches(rs, c, w) == \E k \in DOMAIN rs.cats[c] : ItemMatches(rs.cats[c][k], Matched(rs, w))

(* ------------------------------ evaluation ---------------------------------- *)
(* State of a rule application (s):                                              *)
(*   rs      rule file            words  the words (mutable)                      *)
(*   map     positions -> words   m      how many words decide about word-bound   *)
(*   vars, varwb                         blanks (see Many)                        *)
(*   owb, inlu, letv, inout       bq     blanks still to be placed                *)
(*   lead   the blank before the first word of a chunk, until it is written       *)
(*   out     what was written     rej    -1, or the number given by reject        *)
(*   nlu     number of words of the chunk (postchunk)                             *)
MapIx(s, p) == IF s.rs.stage = "p" THEN p + 1 ELSE p
HasPos(s, p) == MapIx(s, p) \in 1..Len(s.map)
WordAt(s, p) == s.words[s.map[MapIx(s, p)]]
NPos(s) == IF s.rs.stage = "p" THEN Len(s.map) - 1 ELSE Len(s.map)
Many(s) == IF s.rs.stage = "p" THEN NPos(s) > 1 ELSE IF s.rs.stage = "t" THEN s.m > 1 ELSE FALSE
Single(s) == IF s.rs.stage = "p" THEN NPos(s) = 1 ELSE IF s.rs.stage = "t" THEN s.m = 1 ELSE FALSE
SideOf(w, side) == IF side = "sl" THEN w.sl ELSE IF side = "ref" THEN w.ref ELSE w.tl
Part(s, p, side, part) ==
  IF s.rs.stage = "i" THEN GetChunkPart(s.rs, part, WordAt(s, p)) ELSE GetPart(s.rs, part, SideOf(WordAt(s, p), side))
LemmaParts == {"lem","lemh","whole"}
RenderWb(wb) ==
  LET RECURSIVE J(_)
      J(k) == IF k > Len(wb) THEN "" ELSE (IF k > 1 THEN "; " ELSE "") \o wb[k] \o J(k+1)
  IN IF wb = <<>> THEN <<>> ELSE <<"[[" \o J(1) \o "]]">>
V(v, s) == [v |-> v, s |-> s]

RECURSIVE Eval(_,_), EvalAll(_,_), EvalLus(_,_,_)
(* value of e, and the state after evaluating it *)
Eval(e, s) ==
  CASE e.op = "lit"    -> V(e.v, s)
    [] e.op = "littag" -> V(e.v, s)
    [] e.op = "var"    -> V(s.vars[e.n], IF Many(s) THEN [s EXCEPT !.owb = @ \o s.varwb[e.n]] ELSE s)
    [] e.op = "clip"   ->
       IF ~HasPos(s, e.pos) THEN V(<<>>, s)
       ELSE LET x == Part(s, e.pos, e.side, e.part)
                wb == WordAt(s, e.pos).wb
                bound == e.part \in LemmaParts /\ Many(s) /\ e.side # "ref" /\ e.as = ""
                s2 == IF ~bound THEN s
                      ELSE IF s.inlu THEN [s EXCEPT !.owb = @ \o wb]
                      ELSE IF s.letv # "" THEN [s EXCEPT !.varwb[s.letv] = @ \o wb]
                      ELSE s
            IN IF e.as = "" THEN V(x, s2) ELSE V(IF x = <<>> THEN <<>> ELSE <<"<" \o e.as \o ">">>, s)
    [] e.op = "b"      ->
       IF s.bq = <<>> THEN V(<<" ">>, s)
       ELSE V(<<Head(s.bq)>>, IF s.inout THEN [s EXCEPT !.bq = Tail(@)] ELSE s)
    [] e.op = "casefrom" ->
       IF ~HasPos(s, e.pos) THEN V(<<>>, s)
       ELSE LET r == Eval(e.e, s)
                src == Part(s, e.pos, "sl", "lem")
                src2 == IF s.rs.stage = "t" THEN src ELSE Part(s, e.pos, "tl", "lem")
            IN V(IF s.rs.dictcase THEN r.v ELSE CopyCaseTags(src2, r.v), r.s)
    [] e.op = "caseof" -> IF ~HasPos(s, e.pos) THEN V(<<>>, s) ELSE V(CaseSyms(GetCase(Part(s, e.pos, e.side, e.part))), s)
    [] e.op = "concat" -> EvalAll(e.es, s)
    [] e.op = "lucount" -> V(<<ToString(s.nlu)>>, s)
    [] e.op = "lu"     ->
       LET r == EvalAll(e.es, [s EXCEPT !.inlu = TRUE, !.owb = <<>>])
           s2 == [r.s EXCEPT !.inlu = FALSE]
           wb == IF Single(s2) /\ HasPos(s2, 1) THEN WordAt(s2, 1).wb ELSE s2.owb
       IN V(IF r.v = <<>> THEN <<>> ELSE RenderWb(wb) \o <<"^">> \o r.v \o <<"$">>, s2)
    [] e.op = "mlu"    ->
       LET r == EvalLus(e.lus, 1, [s EXCEPT !.inlu = TRUE, !.owb = <<>>])
           s2 == [r.s EXCEPT !.inlu = FALSE]
           wb == IF Single(s2) /\ HasPos(s2, 1) THEN WordAt(s2, 1).wb ELSE s2.owb
       IN V(IF r.v = <<>> THEN <<>> ELSE RenderWb(wb) \o <<"^">> \o r.v \o <<"$">>, s2)
    [] e.op = "chunk"  ->
       IF s.rs.stage = "i"
       THEN LET r == EvalAll(e.es, s) IN V(<<"^">> \o r.v \o <<"$">>, r.s)
       ELSE LET name == IF e.namefrom = "" THEN e.name ELSE s.vars[e.namefrom]
                cased == IF s.rs.dictcase \/ e.case = "" THEN name ELSE CopyCase(s.vars[e.case], name)
                t == EvalAll(e.tags, s)
                b == EvalAll(e.es, t.s)
            IN V(<<"^">> \o cased \o t.v \o <<"{">> \o b.v \o <<"}","$">>, b.s)
    [] OTHER -> Assert(FALSE, e)
EvalAll(es, s) ==
  IF es = <<>> THEN V(<<>>, s)
  ELSE LET a == Eval(es[1], s)
           b == EvalAll(Tail(es), a.s)
       IN V(a.v \o b.v, b.s)
(* the members of a joined word; no plus sign before the first non-empty member or before a queue *)
EvalLus(lus, k, s) ==
  LET RECURSIVE G(_,_,_)
      G(i, acc, t) == IF i > Len(lus) THEN V(acc, t)
                      ELSE LET r == EvalAll(lus[i], t)
                               sep == IF acc = <<>> \/ r.v = <<>> THEN <<>> ELSE IF r.v[1] = "#" THEN <<>> ELSE <<"+">>
                           IN G(i+1, acc \o sep \o r.v, r.s)
  IN G(k, <<>>, s)

(* conditions *)
Has(v, sub) == \E i \in 1..(Len(v)-Len(sub)+1) : StartsAt(v, i, sub)
Begins(v, pre) == StartsAt(v, 1, pre)
Ends(v, suf) == Len(suf) <= Len(v) /\ StartsAt(v, Len(v)-Len(suf)+1, suf)
RECURSIVE Cond(_,_)
Cond(c, s) ==
  CASE c.op = "and" -> \A k \in DOMAIN c.cs : Cond(c.cs[k], s)
    [] c.op = "or"  -> \E k \in DOMAIN c.cs : Cond(c.cs[k], s)
    [] c.op = "not" -> ~Cond(c.cs[1], s)
    [] c.op \in {"in","beginsl","endsl"} ->
         LET a0 == Eval(c.a, s).v
             a == IF c.cl THEN Fold(a0) ELSE a0
             items == {IF c.cl THEN Fold(s.rs.lists[c.list][k]) ELSE s.rs.lists[c.list][k] : k \in DOMAIN s.rs.lists[c.list]}
         IN CASE c.op = "in" -> a \in items
              [] c.op = "beginsl" -> \E x \in items : Begins(a, x)
              [] OTHER -> \E x \in items : Ends(a, x)
    [] OTHER ->
         LET a0 == Eval(c.a, s).v
             b0 == Eval(c.b, s).v
             a == IF c.cl THEN Fold(a0) ELSE a0
             b == IF c.cl THEN Fold(b0) ELSE b0
         IN CASE c.op = "equal" -> a = b
              [] c.op = "begins" -> Begins(a, b)
              [] c.op = "ends" -> Ends(a, b)
              [] c.op = "contains" -> Has(a, b)

(* instructions *)
SetWord(s, p, side, part, val) ==
  IF ~HasPos(s, p) THEN s
  ELSE LET ix == s.map[MapIx(s, p)]
           w == s.words[ix]
       IN IF side = "sl" THEN [s EXCEPT !.words[ix].sl = SetPart(s.rs, part, w.sl, val)]
          ELSE IF side = "ref" THEN [s EXCEPT !.words[ix].ref = SetPart(s.rs, part, w.ref, val)]
          ELSE [s EXCEPT !.words[ix].tl = SetPart(s.rs, part, w.tl, val)]
RECURSIVE Exec(_,_), Instr(_,_), OutAll(_,_)
Exec(is, s) ==      \* a list of instructions, ended early by a rejection
  IF is = <<>> \/ s.rej # -1 THEN s ELSE Exec(Tail(is), Instr(Head(is), s))
OutAll(es, s) ==
  IF es = <<>> THEN s
  ELSE LET r == Eval(es[1], [s EXCEPT !.inout = TRUE])
       IN OutAll(Tail(es), [r.s EXCEPT !.inout = FALSE, !.out = @ \o r.v])
Instr(i, s) ==
  CASE i.op = "out" -> OutAll(i.es, [s EXCEPT !.out = @ \o s.lead, !.lead = <<>>])
    [] i.op = "let" ->
         IF i.l.op = "var"
         THEN LET r == Eval(i.r, IF s.rs.stage = "i" THEN s ELSE [s EXCEPT !.letv = i.l.n, !.varwb[i.l.n] = <<>>])
              IN [r.s EXCEPT !.vars[i.l.n] = r.v, !.letv = ""]
         ELSE LET r == Eval(i.r, s) IN SetWord(r.s, i.l.pos, i.l.side, i.l.part, r.v)
    [] i.op = "append" ->
         \* one value after the other: a later one sees what the earlier ones added
         LET RECURSIVE G(_,_)
             G(es, t) == IF es = <<>> THEN t
                         ELSE LET r == Eval(es[1], IF t.rs.stage = "i" THEN t ELSE [t EXCEPT !.letv = i.n])
                              IN G(Tail(es), [r.s EXCEPT !.vars[i.n] = @ \o r.v, !.letv = ""])
         IN G(i.es, s)
    [] i.op = "modcase" ->
         IF s.rs.dictcase THEN s
         ELSE LET r == Eval(i.r, s)
              IN IF i.l.op = "var" THEN [r.s EXCEPT !.vars[i.l.n] = CopyCase(r.v, @)]
                 ELSE IF ~HasPos(s, i.l.pos) THEN r.s
                 ELSE SetWord(r.s, i.l.pos, i.l.side, i.l.part, CopyCase(r.v, Part(r.s, i.l.pos, i.l.side, i.l.part)))
    [] i.op = "choose" ->
         LET K == {k \in DOMAIN i.whens : Cond(i.whens[k].c, s)}
         IN IF K = {} THEN Exec(i.other, s) ELSE Exec(i.whens[MinS(K)].is, s)
    [] i.op = "macro" ->
         LET mac == s.rs.macros[i.n]
             base == IF s.rs.stage = "p" THEN <<s.map[1]>> ELSE <<>>
             ok == \A k \in DOMAIN i.ps : HasPos(s, i.ps[k])
             map2 == base \o [k \in 1..Len(i.ps) |-> s.map[MapIx(s, i.ps[k])]]
             RECURSIVE M(_,_)   \* a rejection inside a macro does not reach the rule
             M(is, t) == IF is = <<>> THEN t ELSE M(Tail(is), [Instr(Head(is), t) EXCEPT !.rej = -1])
             r == M(mac.body, [s EXCEPT !.map = map2])
         IN IF ~ok THEN s ELSE [r EXCEPT !.map = s.map]
    [] i.op = "reject" -> [s EXCEPT !.rej = i.n]
    [] OTHER -> Assert(FALSE, i)

(* One application of an action.  words: the matched words; blanks: those between them. *)
Apply(rs, act, words, map, m, nlu, lead, blanks, vars, varwb) ==
  Exec(act, [rs |-> rs, words |-> words, map |-> map, m |-> m, nlu |-> nlu, lead |-> lead, bq |-> blanks, vars |-> vars, varwb |-> varwb,
             owb |-> <<>>, inlu |-> FALSE, letv |-> "", inout |-> FALSE, out |-> <<>>, rej |-> -1])
=============================================================================
