------------------------------ MODULE G_Creator ------------------------------
(* Every call in every state of building an object of type ROOT: the open     *)
(* levels are the state, the object built so far is left out of it.           *)
EXTENDS Creator, Json, IOUtils
VARIABLE op
gv == <<vars, op>>
GInit == Init(IOEnv.ROOT) /\ op = <<>>
Word(n) == [i \in 1..n |-> 1]
Vals == [ null |-> <<"null">>, yes |-> <<"bool", TRUE>>, five |-> <<"int", FALSE, NatBits(5, 64)>>, big |-> <<"int", FALSE, Zero(31) \o Word(33)>>,
          minus |-> <<"int", TRUE, Word(64)>>, dbl |-> <<"dbl">>, two |-> <<"str", <<84, 87, 79>>>>, read |-> <<"str", <<82, 69, 65, 68>>>>,
          u32 |-> <<"obj", "u32", <<"i", Zero(32)>>>>, bits |-> <<"obj", "extern", <<"x", <<1, 0, 1>>>>>>, bytes |-> <<"obj", "bytes", <<"y", <<7>>>>>>,
          own |-> <<"obj", "WalkerNested", <<"o", <<<<"s", <<65>>>>>>>>>> ]
NamesIn == IF stack = <<>> \/ ~Compound(Top.t) THEN {"value"}
           ELSE {Types[Top.t].fields[i].n : i \in 1..Len(Types[Top.t].fields)} \cup {"valu"}
Try(o, n, v) == Call(o, n, IF v = "-" THEN <<>> ELSE Vals[v]) /\ op' = <<o, n, v>>
GNext == \/ \E o \in {"beginRoot", "endRoot", "endArray", "endCompound", "beginCompoundElement", "endCompoundElement", "getElementType"} : Try(o, "-", "-")
         \/ \E o \in {"beginArray", "beginCompound", "getFieldType"}, n \in NamesIn : Try(o, n, "-")
         \/ \E n \in NamesIn, v \in DOMAIN Vals : Try("setValue", n, v)
         \/ \E v \in DOMAIN Vals : Try("addValueElement", "-", v)
GSpec == GInit /\ [][GNext]_gv
Levels(s) == [i \in 1..Len(s) |-> <<s[i].t, s[i].arr, s[i].at>>]
GView == Levels(stack)
Edge == PrintT(<<"EDGE", ToJson(Levels(stack)), ToJson(op'), ToJson(Levels(stack'))>>)
(* --- on the whole graph *)
Root1 == Len(stack) > 0 => stack[1].t = root /\ ~stack[1].arr
(* an array holds elements of its type, a compound is where its field says *)
Nested == \A i \in 2..Len(stack) : LET b == stack[i - 1] c == stack[i] IN
            IF b.arr THEN ~c.arr /\ c.t = b.t /\ Compound(c.t) /\ c.at = 0
            ELSE c.at \in 1..Len(Types[b.t].fields) /\ Types[b.t].fields[c.at].t = c.t /\ Types[b.t].fields[c.at].arr = c.arr
(* calls open or close at most one level; a refused one changes nothing *)
Steps == [][LET d == Len(stack') - Len(stack) IN d \in {-1, 0, 1} /\ (d # 0 => op'[1] \notin {"setValue", "addValueElement", "getFieldType", "getElementType"})]_gv
=============================================================================
