------------------------------- MODULE T_Walk -------------------------------
EXTENDS Walk, TraceBase
VARIABLE none \* the walker has no filter: nobody sees what is asked
tv == <<l, vars, none>>
TInit == l = 1 /\ Init /\ none = FALSE
Suffix(k) == CASE k = "array" -> "Array" [] k = "compound" -> "Compound" [] k = "value" -> "Value"
CallName == IF Due \in {"beginRoot", "endRoot"} THEN Due ELSE Due \o Suffix(Top.node.k)
Shown(n) == CASE n.k = "array" -> Len(n.v[2]) [] n.k = "compound" -> n.f.t [] OTHER -> n.v
Agrees == /\ Line.c = CallName
          /\ Due \notin {"beginRoot", "endRoot"} => Line.f = Top.node.f.n /\ Line.idx = Top.node.idx /\ Line.v = Shown(Top.node)
TFilter == /\ IsEvent("Filter") /\ none' = (Line.f = <<"none">>)
           /\ UseFilter(IF Line.f = <<"none">> THEN <<"all">> ELSE Line.f)
TStart == IsEvent("Start") /\ Start(Line.t, Line.v) /\ UNCHANGED none
(* without a filter every answer is yes and nobody sees the question *)
RECURSIVE Silent(_)
Silent(s) == IF s # <<>> /\ DueOf(s) \in {"before", "after"} THEN Silent(Call(s, TRUE)) ELSE s
TTell == /\ IsEvent("Tell") /\ ~Idle /\ Agrees /\ UNCHANGED none
         /\ IF none THEN stack' = Silent(Call(stack, TRUE)) /\ UNCHANGED <<filter, before>> ELSE Tell
TAsk == IsEvent("Ask") /\ ~Idle /\ ~none /\ Agrees /\ Ask(Line.ans) /\ UNCHANGED none
TNoObject == IsEvent("NoObject") /\ Idle /\ Line.refused = 2 /\ UNCHANGED <<vars, none>>
TEnd == IsEvent("End") /\ Idle /\ UNCHANGED <<vars, none>>
TNext == TFilter \/ TStart \/ TTell \/ TAsk \/ TNoObject \/ TEnd
TSpec == TInit /\ [][TNext]_tv
=============================================================================
