------------------------------ MODULE T_Holder ------------------------------
EXTENDS Holder, TraceBase
tv == <<cfg, sl, l>>
TInit == cfg = [c |-> ""] /\ sl = [s \in Slots |-> [r |-> 0, k |-> 0, v |-> 0]] /\ l = 1
LookOk(x, o) ==
    /\ o.k = x.k /\ o.v = x.v /\ o.r \in {x.r, -1}
    /\ IF IsOpt(cfg'.c)
       THEN LET w == IF Engaged(x) THEN x.v ELSE NoVal
                d == IF Engaged(x) THEN x.v ELSE 77
            IN o.g = <<w, w, w>> /\ o.f = <<w, w, w>> /\ o.m = <<d, d, BoolInt(Engaged(x))>>
       ELSE IF cfg'.c = "uptr" THEN TRUE
       ELSE LET w == [i \in 1..4 |-> IF i = x.k THEN x.v ELSE NoVal]
            IN /\ o.g = w /\ o.f = w
               /\ IF cfg'.c = "any" THEN o.m = <<BoolInt(Engaged(x)), BoolInt(Engaged(x)), NoVal, 0>>
                  ELSE IF Engaged(x) THEN o.m = <<1000 * x.k + x.v, 1000 * x.k + x.v, 2, x.k - 1>>
                  ELSE o.m = <<NoVal, NoVal, 0, -1>>
(* everything visible agrees with the state: values, live objects, blocks per resource, no misuse *)
Agrees == /\ \A s \in Slots : LookOk(sl'[s], Line.sl[s + 1])
          /\ Line.live = Live' /\ Line.blk = <<Blocks(0)', Blocks(1)'>> /\ Line.bad = 0
Good == Line.ok /\ ~Line.inj
Fail == ~Line.ok /\ Line.inj      \* nothing fails unless a failure was injected, and it is reported
Op == Line.e
s == Line.s
t == Line.t
Ev(e) == IsEvent(e)
TNext ==
    \/ Ev("Cfg") /\ Start([c |-> Line.c, ca |-> Line.ca, ma |-> Line.ma, sw |-> Line.sw, st |-> Line.st, sel |-> Line.sel])
                 /\ (Agrees = TRUE)
    \/ Ev("Ctor") /\ ((Good /\ Ctor(s, Line.r)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("CtorV") /\ ((Good /\ CtorV(s, Line.r, Line.k, Line.v)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("CopyC") /\ ((Good /\ CopyC(s, t)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("CopyCA") /\ ((Good /\ CopyCA(s, t, Line.r)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("MoveC") /\ ((Good /\ MoveC(s, t)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("MoveCA") /\ ((Good /\ MoveCA(s, t, Line.r)) \/ (Fail /\ Same)) /\ (Agrees = TRUE)
    \/ Ev("CopyA") /\ ((Good /\ CopyA(s, t)) \/ (Fail /\ CopyAFail(s, t))) /\ (Agrees = TRUE)
    \/ Ev("MoveA") /\ ((Good /\ MoveA(s, t)) \/ (Fail /\ MoveAFail(s, t))) /\ (Agrees = TRUE)
    \/ Ev("SetV") /\ ((Good /\ SetV(s, Line.k, Line.v)) \/ (Fail /\ SetFail(s))) /\ (Agrees = TRUE)
    \/ Ev("Empl") /\ ((Good /\ Line.ret = Line.v /\ SetV(s, Line.k, Line.v)) \/ (Fail /\ SetFail(s))) /\ (Agrees = TRUE)
    \/ Ev("Reset") /\ Good /\ Reset(s) /\ (Agrees = TRUE)
    \/ Ev("Alias") /\ ((Good /\ Alias(s)) \/ (Fail /\ SetFail(s))) /\ (Agrees = TRUE)
    \/ Ev("Conv") /\ ((Good /\ Conv(s, Line.how, Line.v, Line.r)) \/ (Fail /\ ConvFail(s, Line.r))) /\ (Agrees = TRUE)
    \/ Ev("Swap") /\ ((Good /\ Swap(s, t)) \/ (Fail /\ SwapFail(s, t))) /\ (Agrees = TRUE)
    \/ Ev("Cmp") /\ Same /\ (Agrees = TRUE)
       /\ (( /\ (sl[s].k = sl[t].k /\ sl[s].v = sl[t].v) => Line.h1 = Line.h2
             /\ IF IsOpt(cfg.c)
                THEN /\ Line.c = Rel(Key(sl[s]), Key(sl[t]))
                     /\ Line.n = Rel(Key(sl[s]), -100) /\ Line.nr = Rel(-100, Key(sl[s]))
                     /\ Line.cv = Rel(Key(sl[s]), Line.w) /\ Line.cvr = Rel(Line.w, Key(sl[s]))
                ELSE \* the place of valueless variants in the order is not specified
                     LET r == RelVar(sl[s], sl[t]) q == RelVar(sl[t], sl[s])
                     IN (Line.c = r) \/ ((Engaged(sl[s]) # Engaged(sl[t])) /\ Line.c = q)) = TRUE)
    \/ Ev("Gone") /\ (Line.live = 0 /\ Line.bad = 0 /\ Line.blk = <<0, 0>>) /\ Same
    \/ Ev("End") /\ Same
TSpec == TInit /\ [][TNext]_tv
=============================================================================
