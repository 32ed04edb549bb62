------------------------------- MODULE MC_Walk -------------------------------
(* Every walk of some objects under every answer of the filter: calls nest,  *)
(* come in the order of the schema, once each; without a filter everything is *)
(* visited; depth, length and path filters visit exactly what they name.     *)
EXTENDS Walk
CONSTANT Deep \* every answer for the large object too
VARIABLES root, log
mv == <<vars, root, log>>
I(n, w) == <<"i", NatBits(n, w)>>
Txt(c) == <<"o", << <<"s", <<c>>>> >> >>
Roots == {
  [t |-> "WalkerObject", v |-> <<"o", << I(1, 32), Txt(97), <<"s", <<98>>>>, <<"a", << <<"c", 1, <<I(5, 32)>>>>, <<"c", 3, << <<"a", << Txt(99) >>>> >> >> >> >>,
        <<"n">>, I(8, 8), <<"c", 1, <<I(7, 8)>>>> >> >>],
  [t |-> "WalkerObject", v |-> <<"o", << I(0, 32), <<"n">>, <<"s", <<>>>>, <<"a", <<>>>>, <<"a", << <<"c", 2, << <<"s", <<>>>> >> >> >>>>, I(9, 8), <<"c", 0, <<>>>> >> >>],
  [t |-> "ReflectableUtilUnion", v |-> <<"c", 3, << <<"o", << I(1, 8), <<"c", 1, << <<"a", <<I(1, 32), I(2, 32), I(3, 32)>>>> >> >> >> >> >> >>]}
Re == { << <<"lit", "nested">> >>, << <<"lit", "nested.text">> >>, << <<"any">>, <<"lit", "text">> >>, << <<"lit", "unionArray[">>, <<"num">>, <<"lit", "].">>, <<"seg">> >>,
        << <<"lit", "unionArray[1]">>, <<"any">> >>, << <<"seg">> >>, << <<"any">> >>, << <<"lit", "nothing">> >>, << <<"any">>, <<"lit", "value">>, <<"seg">> >> }
Filters == { <<"all">>, <<"script">>, <<"depth", 0>>, <<"depth", 1>>, <<"depth", 2>>, <<"depth", 3>>, <<"len", 0>>, <<"len", 1>>, <<"len", 2>>,
             <<"and", << >> >>, <<"and", << <<"depth", 2>>, <<"len", 1>> >> >> }
           \cup { <<"re", r>> : r \in Re } \cup { <<"and", << <<"depth", 3>>, <<"re", r>> >> >> : r \in Re }
All == LET fs == Fields(root.t, root.v, "") IN FlattenSeq([i \in 1..Len(fs) |-> Below(fs[i])])
MInit == /\ Init /\ log = <<>>
         /\ \E r \in Roots : root = r
Mark == [c |-> Due, p |-> Top.node.path, d |-> Depth]
MNext == \/ before = 0 /\ \E f \in Filters : (f = <<"script">> => Deep \/ Len(All) < 9) /\ UseFilter(f) /\ filter = <<"all">> /\ f # filter /\ UNCHANGED <<root, log>>
         \/ before = 0 /\ Start(root.t, root.v) /\ UNCHANGED <<root, log>>
         \/ Tell /\ log' = Append(log, Mark) /\ UNCHANGED root
         \/ \E a \in BOOLEAN : Ask(a) /\ log' = Append(log, [Mark EXCEPT !.c = @ \o (IF a THEN "+" ELSE "-")]) /\ UNCHANGED root
Spec == MInit /\ [][MNext]_mv /\ WF_mv(MNext)

Visited == LET s == SelectSeq(log, LAMBDA e : e.c = "visit") IN [i \in 1..Len(s) |-> s[i].p]
PathsOf(ns) == [i \in 1..Len(ns) |-> ns[i].path]
Values == SelectSeq(All, LAMBDA n : n.k = "value")
DepthOf(path) == LET RECURSIVE D(_) D(i) == IF i > Len(path) THEN 1 ELSE (IF Char(path, i) \in {".", "["} THEN 1 ELSE 0) + D(i + 1) IN D(1)
(* ends and begins pair up *)
Open == FoldLeft(LAMBDA st, e :
            IF e.c \in {"begin", "beginRoot"} THEN Append(st, e.p)
            ELSE IF e.c \in {"end", "endRoot"} THEN (IF st # <<>> /\ st[Len(st)] = e.p THEN SubSeq(st, 1, Len(st) - 1) ELSE <<"bad">>) ELSE st, <<>>, log)
Nested == Idle /\ log # <<>> => Open = <<>>
(* every node is asked for at most once and in the order of the object *)
Asked == LET s == SelectSeq(log, LAMBDA e : e.c \in {"before+", "before-"}) IN [i \in 1..Len(s) |-> s[i].p]
InOrder(s, all) == FoldLeft(LAMBDA k, p : LET r == SelectInSeq(SubSeq(all, k + 1, Len(all)), LAMBDA q : q = p) IN IF r = 0 THEN Len(all) + 1 ELSE k + r, 0, s) <= Len(all)
Ordered == log # <<>> => InOrder(Asked, PathsOf(All))
Done == Idle /\ log # <<>>
Complete == Done =>
    CASE filter = <<"all">> \/ filter = <<"and", <<>>>> -> Visited = PathsOf(Values)
      [] filter[1] = "depth" -> Visited = PathsOf(SelectSeq(Values, LAMBDA n : DepthOf(n.path) <= filter[2]))
      [] filter[1] = "re" -> Visited = PathsOf(SelectSeq(Values, LAMBDA n : Matches(n.path, filter[2])))
      [] filter[1] = "len" -> \A i \in 1..Len(All) : (\E j \in 1..Len(Asked) : Asked[j] = All[i].path /\ All[i].idx >= 0) => All[i].idx <= filter[2]
      [] OTHER -> TRUE
Finishes == <>Done
=============================================================================
