------------------------------ MODULE G_Holder ------------------------------
(* The complete labelled graph of two slots (types, resources, moved-from) for one container and     *)
(* allocator; every edge is executed later.  A failure is injected at the n-th chance.               *)
EXTENDS Holder, TLC, Json, IOUtils
VARIABLE op
gv == <<cfg, sl, op>>
Is(x, y) == x = y
A == IOEnv.ALLOC
GInit == /\ cfg = [c |-> IOEnv.CONT, ca |-> A \in {"ppmr", "mca"}, ma |-> A \in {"ppmr", "mma", "cnt"} , sw |-> A \in {"ppmr", "msw"},
                   st |-> A # "cnt", sel |-> A \in {"ppmr", "cnt"}]
         /\ sl = [s \in Slots |-> IF IOEnv.CONT = "var" THEN [r |-> 0, k |-> 1, v |-> 0] ELSE Empty(0)]
         /\ op = <<>>
Rs == IF cfg.st THEN {0, 1} ELSE {0}
Full == IOEnv.FULL = "1"
Ks == IF Full THEN Kinds(cfg.c) ELSE Kinds(cfg.c) \ {4}
Hows == IF Full \/ IsOpt(cfg.c) THEN {0, 1, 2, 3} ELSE {0, 1}
Fails == IF Full \/ IsOpt(cfg.c) THEN 1..2 ELSE {1}
(* the source of a move as this implementation leaves it *)
GMoved(x) == IF ~Engaged(x) THEN {x}
             ELSE CASE cfg.c \in {"optS", "optT"} -> {[x EXCEPT !.v = -1]}
                    [] cfg.c \in {"optB", "optR"} -> {Empty(x.r), [x EXCEPT !.v = -1]}
                    [] OTHER -> {Empty(x.r)}
(* where the specification leaves the outcome of a failure open, the graph follows one of the outcomes; *)
(* the replayed execution is judged by T_Holder, which allows all of them                                *)
V(s) == 1 + s
Do(name, s, t, r, k, how, fail) == op' = <<name, s, t, r, k, IF name = "Conv" /\ how >= 2 THEN -1 ELSE V(s), how, fail>>
OptOnly == IsOpt(cfg.c)
Copyable == cfg.c # "uptr"
SwapOk(s, t) == ~OptOnly \/ cfg.sw \/ sl[s].r = sl[t].r
GNext ==
    \/ \E s \in Slots, r \in Rs : Ctor(s, r) /\ Do("Ctor", s, 0, r, 0, 0, 0)
    \/ \E s \in Slots, r \in Rs, k \in Ks, how \in Hows : CtorV(s, r, k, V(s)) /\ Do("CtorV", s, 0, r, k, how, 0)
    \/ \E s \in Slots, r \in Rs, k \in Ks, f \in Fails : Same /\ Do("CtorV", s, 0, r, k, f, f)
    \/ \E s, t \in Slots : /\ s # t
          /\ \/ Copyable /\ CopyC(s, t) /\ Do("CopyC", s, t, 0, 0, 0, 0)
             \/ Copyable /\ Engaged(sl[s]) /\ Same /\ \E f \in Fails : Do("CopyC", s, t, 0, 0, 0, f)
             \/ MoveC(s, t) /\ Do("MoveC", s, t, 0, 0, 0, 0)
             \/ \E r \in Rs : Copyable /\ CopyCA(s, t, r) /\ Do("CopyCA", s, t, r, 0, 0, 0)
             \/ \E r \in Rs : Copyable /\ MoveCA(s, t, r) /\ Do("MoveCA", s, t, r, 0, 0, 0)
             \/ \E r \in Rs, f \in Fails : Copyable /\ Engaged(sl[s]) /\ Same /\ Do("MoveCA", s, t, r, 0, 0, f)
             \/ SwapOk(s, t) /\ Engaged(sl[s]) /\ Set(s, Empty(sl[s].r)) /\ \E f \in Fails : Do("Swap", s, t, 0, 0, 0, f)
    \/ \E s, t \in Slots :
          \/ Copyable /\ CopyA(s, t) /\ Do("CopyA", s, t, 0, 0, 0, 0)
          \/ Copyable /\ Engaged(sl[s]) /\ Set(t, Empty(sl[t].r)) /\ \E f \in Fails : Do("CopyA", s, t, 0, 0, 0, f)
          \/ MoveA(s, t) /\ Do("MoveA", s, t, 0, 0, 0, 0)
          \/ Copyable /\ Engaged(sl[s]) /\ s # t /\ Set(t, Empty(sl[t].r)) /\ \E f \in Fails : Do("MoveA", s, t, 0, 0, 0, f)
          \/ SwapOk(s, t) /\ Swap(s, t) /\ Do("Swap", s, t, 0, 0, 0, 0)
          \/ Same /\ Do("Cmp", s, t, 0, 0, 0, 0)
    \/ \E s \in Slots : Copyable /\ \E k \in Ks, how \in Hows :
          \/ SetV(s, k, V(s)) /\ Do("SetV", s, 0, 0, k, how, 0)
          \/ Set(s, Empty(sl[s].r)) /\ \E f \in Fails : Do("SetV", s, 0, 0, k, how, f)
    \/ \E s \in Slots : Copyable /\ \E k \in Ks :
          \/ SetV(s, k, V(s)) /\ Do("Empl", s, 0, 0, k, 0, 0)
          \/ Set(s, Empty(sl[s].r)) /\ \E f \in Fails : Do("Empl", s, 0, 0, k, 0, f)
    \/ \E s \in Slots, how \in {0, 1} : cfg.c # "var" /\ Reset(s) /\ Do("Reset", s, 0, 0, 0, how, 0)
    \/ \E s \in Slots, how \in {0, 1} : cfg.c \notin {"var", "uptr"} /\ Engaged(sl[s]) /\ Alias(s) /\ Do("Alias", s, 0, 0, 0, how, 0)
    \/ \E s \in Slots, how \in Hows, r \in Rs : OptOnly /\
          \/ Conv(s, how, IF how >= 2 THEN -1 ELSE V(s), r) /\ Do("Conv", s, 0, r, 0, how, 0)
          \/ how < 2 /\ Set(s, Empty(sl[s].r)) /\ \E f \in Fails : Do("Conv", s, 0, r, 0, how, f)
GSpec == GInit /\ [][GNext]_gv
Shape(f) == [s \in Slots |-> <<f[s].r, f[s].k, f[s].v = -1>>]
GView == Shape(sl)
Edge == PrintT(<<"EDGE", ToJson(Shape(sl)), ToJson(op'), ToJson(Shape(sl'))>>)
(* --- checked on the whole graph *)
TypeOk == \A s \in Slots : /\ sl[s].r \in Rs /\ sl[s].k \in Ks \cup {0}
                           /\ (sl[s].k = 0) => (sl[s].v = 0)
Holding(f, v) == Cardinality({s \in Slots : Engaged(f[s]) /\ f[s].v = v})
(* moving and swapping never duplicates a value, nothing changes without being named by the operation *)
NoDup == [][op'[1] \in {"MoveC", "MoveCA", "MoveA", "Swap"} => \A v \in 1..2 : Holding(sl', v) <= Holding(sl, v)]_gv
Local == [][op'[1] \in {"Ctor", "CtorV", "SetV", "Empl", "Reset", "Alias", "Conv"} =>
              \A s \in Slots : s # op'[2] => sl'[s] = sl[s]]_gv
SourceKept == [][op'[1] \in {"CopyC", "CopyCA", "CopyA"} => (op'[2] # op'[3] => sl'[op'[2]] = sl[op'[2]])]_gv
(* a variant is without a value only after a move or a failure *)
Valued == [][(cfg.c = "var" /\ op'[8] = 0 /\ op'[1] \notin {"MoveC", "MoveCA", "MoveA"}) =>
              Cardinality({s \in Slots : ~Engaged(sl'[s])}) <= 1 + Cardinality({s \in Slots : ~Engaged(sl[s])})]_gv
=============================================================================
