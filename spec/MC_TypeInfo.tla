---------------------------- MODULE MC_TypeInfo ----------------------------
(* The categories and the built-in descriptors agree with each other. *)
EXTENDS TypeInfos
VARIABLE b
MInit == b \in Builtins \cup {<<"kind", k>> : k \in SchemaKinds} \cup {<<"cpp", k>> : k \in CppKinds}
MNext == UNCHANGED b
MSpec == MInit /\ [][MNext]_b
Cats(p) == /\ p[2] => p[1]                      \* a choice is a compound
           /\ p[1] => ~p[3] /\ ~p[4] /\ ~p[5]   \* compounds are no numbers
           /\ ~(p[4] /\ p[6])                   \* integral or floating point
           /\ p[5] => p[4] \/ p[6]              \* only numbers are signed
           /\ p[6] => p[5] /\ p[3]
Consistent == CASE b[1] = "kind" -> Cats(SchemaIs(b[2])) [] b[1] = "cpp" -> Cats(CppIs(b[2]))
    [] OTHER -> LET x == Builtin(b[1], b[2], b[3]) s == SchemaIs(x[2]) c == CppIs(x[3]) IN
                /\ x[2] \in SchemaKinds /\ x[3] \in CppKinds
                /\ s[1] = c[1] /\ s[2] = c[2] /\ s[4] = c[4] /\ s[5] = c[5] /\ s[6] = c[6]
                /\ s[3] => c[3]
                /\ s[3] <=> x[4] > 0
=============================================================================
