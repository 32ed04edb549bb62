------------------------------ MODULE T_Items ------------------------------
EXTENDS Items, NumText, TraceBase
TInit == l = 1 /\ Init
TDef == IsEvent("Def") /\ Define([c |-> Line.c, names |-> Line.names, vals |-> Line.vals])
At(i) == IF i = 0 THEN <<>> ELSE def.vals[i]
TByName == IsEvent("ByName") /\ UNCHANGED vars /\ Line.r = At(ByName(Line.n))
TItem == /\ IsEvent("Item") /\ UNCHANGED vars
         /\ LET i == ByValue(Line.v) IN
            /\ Line.ord = i - 1 /\ Line.back = At(i) /\ Line.val = Line.v
            /\ Line.name = (IF i = 0 THEN <<>> ELSE def.names[i])
            /\ Line.msg = (IF i = 0 THEN <<>> ELSE def.names[i])
            /\ Line.round = At(i)
TWrite == /\ IsEvent("Write") /\ UNCHANGED vars
          /\ LET known == (IF Line.mask THEN TRUE ELSE ByValue(Line.v) # 0) /\ InType(Line.v) IN
             /\ Line.ok = known
             /\ known => Line.bits = Code(Line.v) /\ Line.size = Len(Line.bits)
TRead == /\ IsEvent("Read") /\ UNCHANGED vars
         /\ LET d == DecItem(Line.bits, Line.pos, Line.mask) IN
            /\ Line.ok = (d.st = "ok")
            /\ Line.ok => Line.v = d.v /\ Line.p = Line.pos + d.len
TOps == /\ IsEvent("Ops") /\ UNCHANGED vars
        /\ LET a == Line.a b == Line.b IN
           /\ Line.or = Or(a, b) /\ Line.and = And(a, b) /\ Line.xor = Xor(a, b) /\ Line.not = Not(a)
           /\ Line.orEq = Line.or /\ Line.andEq = Line.and /\ Line.xorEq = Line.xor
           /\ Line.set = IsSet(a, b) /\ Line.rel = <<a = b, a # b, LtU(a, b), ~LtU(b, a), LtU(b, a), ~LtU(a, b)>>
           /\ Line.val = a
           /\ Line.text = (IF Line.hasText THEN UText(a) \o <<91>> \o Join(SetItems(a)) \o <<93>> ELSE <<>>)
TNumBits == IsEvent("NumBits") /\ UNCHANGED vars /\ Line.r = NumBits(Line.v)
TEnd == IsEvent("End") /\ UNCHANGED vars
TNext == TDef \/ TByName \/ TItem \/ TWrite \/ TRead \/ TOps \/ TNumBits \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, vars>>
=============================================================================
