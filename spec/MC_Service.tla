----------------------------- MODULE MC_Service -----------------------------
(* Service data in small: what a slot delivers is what it was made of, whatever happens elsewhere. *)
EXTENDS Services
VARIABLE made     \* ghost: what each slot was made of
Bytes1 == {<<>>, <<0, 1, 0, 1, 0, 1, 0, 1>>}
VTexts == {[t |-> "DebugStringObject", v |-> <<"o", <<<<"s", x>>>>>>] : x \in {<<>>, <<65>>}}
tvars == <<sd, src, made>>
MCInit == sd = [s \in Slots |-> Gone] /\ src = <<>> /\ made = [s \in Slots |-> Gone]
Note(s, x) == made' = [made EXCEPT ![s] = x]
MCNext ==
    \E s \in Slots, t \in Slots :
        \/ \E o \in VTexts : MakeIntro(s, o.t, o.v) /\ Note(s, <<"obj", o>>)
        \/ \E o \in VTexts : MakeObject(s, o.t, o.v, TRUE) /\ Note(s, <<"obj", o>>)
        \/ \E b \in Bytes1 : MakeHold(s, b) /\ Note(s, <<"hold", b>>)
        \/ MakeView(s) /\ Note(s, <<"view">>)
        \/ \E b \in Bytes1 : Change(b) /\ UNCHANGED made
        \/ CopyS(s, t) /\ Note(t, made[s])
        \/ s # t /\ MoveS(s, t) /\ made' = [made EXCEPT ![t] = made[s], ![s] = Gone]
        \/ DropS(s) /\ Note(s, Gone)
Delivers ==
    \A s \in Slots :
        IF sd[s] = Gone THEN made[s] = Gone
        ELSE LET d == DataOf(sd[s][1]) IN
             /\ Len(d) % 8 = 0
             /\ CASE made[s][1] = "obj" -> SubSeq(d, 1, Len(Bits(made[s][2].t, made[s][2].v))) = Bits(made[s][2].t, made[s][2].v) /\ Len(d) < Len(Bits(made[s][2].t, made[s][2].v)) + 8
                  [] made[s][1] = "hold" -> d = made[s][2]
                  [] made[s][1] = "view" -> d = src
MCSpec == MCInit /\ [][MCNext]_tvars
=============================================================================
