------------------------------ MODULE T_Service -----------------------------
EXTENDS Services, TraceBase
tv == <<sd, src, l>>
TInit == l = 1 /\ sd = [s \in Slots |-> Gone] /\ src = <<>>
S0 == Line.s
TLook == /\ IsEvent("Look") /\ UNCHANGED <<sd, src>>
         /\ IF sd[S0] = Gone THEN ~Line.there
            ELSE LET x == sd[S0][1] IN
                 /\ Line.there
                 /\ \A b \in Range(Line.data) : b = DataOf(x)
                 /\ Line.intro = (x.k = "intro")
                 /\ x.k = "intro" => Line.tree = x.v
TNext == \/ IsEvent("Begin") /\ Fresh
         \/ IsEvent("Intro") /\ MakeIntro(S0, Line.k, Line.v)
         \/ IsEvent("Object") /\ MakeObject(S0, Line.k, Line.v, Line.ok)
         \/ IsEvent("Hold") /\ MakeHold(S0, Line.b)
         \/ IsEvent("View") /\ MakeView(S0)
         \/ IsEvent("Change") /\ Change(Line.b)
         \/ IsEvent("Copy") /\ CopyS(S0, Line.t)
         \/ IsEvent("Move") /\ MoveS(S0, Line.t)
         \/ IsEvent("Drop") /\ DropS(S0)
         \/ IsEvent("End") /\ UNCHANGED <<sd, src>>
         \/ TLook
TSpec == TInit /\ [][TNext]_tv
=============================================================================
