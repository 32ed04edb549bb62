-------------------------------- MODULE Walk --------------------------------
(* Walking an object: the calls made to the observer and to the filter, one  *)
(* after the other, and how the answers of the filter steer the walk.        *)
EXTENDS Schema
VARIABLES stack,  \* open levels, innermost last: [node, phase, rest]; rest: siblings to come
          filter, \* the filter in use
          before  \* the root objects walked so far (the filter is used again and again)
vars == <<stack, filter, before>>

(* A node: what a call is made for.  k: array, compound or value; idx: -1 if no element. *)
Dot(path) == IF path = "" THEN "" ELSE path \o "."
Leaf(f, v) == ~Set(v) \/ ~Compound(f.t)
FieldNode(f, v, path) ==
    [k |-> IF Set(v) /\ f.arr THEN "array" ELSE IF Leaf(f, v) THEN "value" ELSE "compound",
     f |-> f, v |-> v, path |-> Dot(path) \o f.n, idx |-> -1]
ElementNode(n, i) ==
    [k |-> IF Leaf(n.f, n.v[2][i]) THEN "value" ELSE "compound", f |-> n.f, v |-> n.v[2][i],
     path |-> n.path \o "[" \o ToString(i - 1) \o "]", idx |-> i - 1]
Fields(t, v, path) ==
    LET T == Types[t] IN
    IF T.kind = "struct" THEN [i \in 1..Len(T.fields) |-> FieldNode(T.fields[i], v[2][i], path)]
    ELSE IF v[2] = 0 THEN <<>> ELSE <<FieldNode(T.fields[v[2]], v[3][1], path)>>
Children(n) == CASE n.k = "value" -> <<>>
                 [] n.k = "array" -> [i \in 1..Len(n.v[2]) |-> ElementNode(n, i)]
                 [] OTHER -> Fields(n.f.t, n.v, n.path)
RECURSIVE Below(_)
(* the node and everything below it, in order *)
Below(n) == <<n>> \o FlattenSeq([i \in 1..Len(Children(n)) |-> Below(Children(n)[i])])

-----------------------------------------------------------------------------
(* Filters: <<"all">>, <<"script">> (any answer), <<"depth", n>>, <<"len", n>>, <<"re", atoms>>, <<"and", filters>>.
   An atom of a path pattern: <<"lit", text>>, <<"any">> (.-star), <<"seg">> ([^.]-star), <<"num">> (digits). *)
Char(s, i) == SubSeq(s, i, i)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
After1(s, ps, atom) ==
    CASE atom[1] = "lit" -> {p + Len(atom[2]) : p \in {q \in ps : q + Len(atom[2]) <= Len(s) /\ SubSeq(s, q + 1, q + Len(atom[2])) = atom[2]}}
      [] atom[1] = "any" -> IF ps = {} THEN {} ELSE {q \in 0..Len(s) : \E p \in ps : p <= q}
      [] atom[1] = "seg" -> {q \in 0..Len(s) : \E p \in ps : p <= q /\ \A i \in (p + 1)..q : Char(s, i) # "."}
      [] atom[1] = "num" -> {q \in 0..Len(s) : \E p \in ps : p < q /\ \A i \in (p + 1)..q : Char(s, i) \in Digits}
Matches(s, atoms) == Len(s) \in FoldLeft(LAMBDA ps, a : After1(s, ps, a), {0}, atoms)
SomeBelow(n, atoms) == LET all == Below(n) IN \E i \in 1..Len(all) : Matches(all[i].path, atoms)

(* depth of the innermost call to come: 1 for the fields of the root *)
RECURSIVE Answers(_, _, _, _)
Answers(f, cb, n, depth) ==
    CASE f[1] = "all" -> {TRUE}
      [] f[1] = "script" -> BOOLEAN
      [] f[1] = "depth" -> {cb = "after" \/ depth <= f[2]}
      [] f[1] = "len" -> {n.idx = -1 \/ n.idx < f[2]}
      [] f[1] = "re" -> {cb = "after" \/ SomeBelow(n, f[2])}
      [] f[1] = "and" -> LET sets == [i \in 1..Len(f[2]) |-> Answers(f[2][i], cb, n, depth)] IN
                         (IF \A i \in 1..Len(sets) : TRUE \in sets[i] THEN {TRUE} ELSE {})
                         \cup (IF \E i \in 1..Len(sets) : FALSE \in sets[i] THEN {FALSE} ELSE {})

-----------------------------------------------------------------------------
TopOf(s) == s[Len(s)]
Top == TopOf(stack)
(* the call due now *)
DueOf(s) ==
    LET Tp == TopOf(s) IN
    CASE Tp.phase = "before" -> "before" [] Tp.phase = "begin" -> (IF Tp.node.k = "value" THEN "visit" ELSE "begin")
         [] Tp.phase = "end" -> "end" [] Tp.phase = "after" -> "after"
         [] Tp.phase = "rootBegin" -> "beginRoot" [] Tp.phase = "rootEnd" -> "endRoot"
Due == DueOf(stack)
Depth == Len(stack) - 1
SetTop(s, fr) == [s EXCEPT ![Len(s)] = fr]
Enter(s, nodes) == IF nodes = <<>> THEN s
                   ELSE Append(s, [node |-> Head(nodes), phase |-> "before", rest |-> Tail(nodes)])
(* a list of siblings is over: its parent ends *)
Close(s) == LET up == SubSeq(s, 1, Len(s) - 1) fr == up[Len(up)]
            IN SetTop(up, [fr EXCEPT !.phase = IF fr.phase = "rootIn" THEN "rootEnd" ELSE "end"])
Inside(s, fr, kids, in, done) == IF kids = <<>> THEN SetTop(s, [fr EXCEPT !.phase = done])
                                 ELSE Enter(SetTop(s, [fr EXCEPT !.phase = in]), kids)
(* the call due now is made and answered *)
Call(s, ans) ==
    LET fr == TopOf(s) IN
    CASE fr.phase = "rootBegin" -> Inside(s, fr, Fields(fr.node.f.t, fr.node.v, ""), "rootIn", "rootEnd")
      [] fr.phase = "rootEnd" -> <<>>
      [] fr.phase = "before" -> SetTop(s, [fr EXCEPT !.phase = IF ans THEN "begin" ELSE "after"])
      [] fr.phase = "begin" -> IF fr.node.k = "value" THEN SetTop(s, [fr EXCEPT !.phase = "after"])
                               ELSE Inside(s, fr, Children(fr.node), "in", "end")
      [] fr.phase = "end" -> SetTop(s, [fr EXCEPT !.phase = "after"])
      [] fr.phase = "after" -> IF ans /\ fr.rest # <<>>
                               THEN SetTop(s, [node |-> Head(fr.rest), phase |-> "before", rest |-> Tail(fr.rest)])
                               ELSE Close(s)

Idle == stack = <<>>
Init == stack = <<>> /\ filter = <<"all">> /\ before = 0
UseFilter(f) == Idle /\ filter' = f /\ UNCHANGED <<stack, before>>
Start(t, v) == /\ Idle /\ before' = before + 1 /\ UNCHANGED filter
               /\ stack' = <<[node |-> [k |-> "root", f |-> F("", t), v |-> v, path |-> "", idx |-> -1], phase |-> "rootBegin", rest |-> <<>>]>>
Tell == /\ ~Idle /\ Due \in {"beginRoot", "endRoot", "begin", "end", "visit"}
        /\ stack' = Call(stack, TRUE) /\ UNCHANGED <<filter, before>>
Ask(ans) == /\ ~Idle /\ Due \in {"before", "after"} /\ ans \in Answers(filter, Due, Top.node, Depth)
            /\ stack' = Call(stack, ans) /\ UNCHANGED <<filter, before>>
=============================================================================
