----------------------------- MODULE MCExtractCaps -----------------------------
EXTENDS Caps
CONSTANTS MaxItems
Lems == {<<"a">>, <<"A">>, <<"A","b">>, <<"A","B">>, <<"a","B">>, <<"É","ж","Ж">>, <<"É">>, <<"*","A">>, <<"\\^","A">>, <<"A","\\$">>, << >>, <<"A","1">>, <<"N","Y"," ","C">>}
Tg == {<< >>, <<"<n>">>, <<"<N>","<SG>">>}
Simple == {l \o t : l \in Lems, t \in Tg}
Queue == {<<"T","o","<vb>","#"," ","O">>, <<"T","O","<vb>","#"," ","o">>}
Comp == {a \o <<"+">> \o b : a \in {<<"A","<n>">>, <<"a","<n>">>, <<"X","y","<n>">>, <<"x","+","y","<n>">>}, b \in {<<"B","<v>">>, <<"b","<v>">>, <<"N","r","K","<v>","<w>">>, <<"B">>}}
        \cup {<<"A","<n>","+","b","<n>","+","C","<x>">>, <<"A","<n>","+","b","<n>","+","c","<x>">>}
Anas == Simple \cup Queue \cup Comp
Few == {<<"A","B","<n>">>, <<"x","+","Y">>, <<"a">>}
WBS == {<< >>, <<"t:b:1">>, <<"t:b:1", "c:Aa/AA">>, <<"x\\]">>}
Units == [k : {"u"}, wb : {<< >>}, surf : Lems, anas : {<<a>> : a \in Few}]
    \cup [k : {"u"}, wb : {<< >>}, surf : {<<"a","b">>, <<"A">>}, anas : {<<a>> : a \in Anas}]
    \cup [k : {"u"}, wb : WBS, surf : {<<"A","B">>}, anas : {<< >>, <<<<"A","b">>>>, <<<<"A","b","<x>">>, <<"A","B">>>>, <<<<"a">>, <<"B">>, <<"\\/","C">>>>, <<<<"a","<n>">>, <<"B","\\$","c","<x>">>, <<"\\\\">>>>}]
Texts == [k : {"t"}, t : {" ", "\n", "[ <A>^$/ ]", "\\[\\^", "A. ", "[\\]]"}]
VARIABLES hist, keep
Init == hist = << >> /\ keep \in BOOLEAN
Next == /\ Len(hist) < MaxItems /\ \E u \in Units \cup Texts : hist' = Append(hist, u)
        /\ UNCHANGED keep
In1(u) == IF u.k = "t" THEN u.t ELSE ExtractIn(u)
Out1(u) == IF u.k = "t" THEN u.t ELSE ExtractOut(u, keep)
Join(F(_)) == FoldLeft(LAMBDA a, u : a \o F(u), "", hist)
\* the case item is the only thing added, and one of the nine known values
Values == \A i \in DOMAIN hist : hist[i].k = "u" => CaseItem(hist[i].surf, FirstAna(hist[i])) \in {"c:" \o a \o "/" \o b : a, b \in {"aa", "Aa", "AA"}}
EDump == Len(hist) = MaxItems => PrintT(ToJson([k |-> keep, i |-> Join(In1), o |-> Join(Out1)]))
=============================================================================
