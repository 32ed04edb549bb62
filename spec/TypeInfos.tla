------------------------------ MODULE TypeInfos ------------------------------
(* Type information: what the descriptors of all kinds of types report, the  *)
(* descriptors of the built-in and the generated types, and the categories.  *)
EXTENDS Naturals, Integers, Sequences, TLC
IntName(sg, w) == (IF sg THEN "INT" ELSE "UINT") \o ToString(w)
Ints == {IntName(sg, w) : sg \in BOOLEAN, w \in 1..64}
SInts == {IntName(TRUE, w) : w \in 1..64}
VarS == {"VARINT16", "VARINT32", "VARINT64", "VARINT"}
VarU == {"VARUINT16", "VARUINT32", "VARUINT64", "VARUINT", "VARSIZE"}
Dyn == {"DYNAMIC_SIGNED_BITFIELD", "DYNAMIC_UNSIGNED_BITFIELD"}
Floats == {"FLOAT16", "FLOAT32", "FLOAT64"}
Compounds == {"STRUCT", "CHOICE", "UNION"}
Rest == {"BYTES", "STRING", "ENUM", "BITMASK", "SQL_TABLE", "SQL_DATABASE", "SERVICE", "PUBSUB"}
SchemaKinds == Ints \cup VarS \cup VarU \cup Dyn \cup Floats \cup Compounds \cup Rest \cup {"BOOL", "EXTERN"}
CppS == {"INT8", "INT16", "INT32", "INT64"}
CppU == {"UINT8", "UINT16", "UINT32", "UINT64"}
CppKinds == CppS \cup CppU \cup {"BOOL", "FLOAT", "DOUBLE", "BIT_BUFFER"} \cup Compounds \cup Rest
(* compound, has a choice, of fixed size, integral, signed, floating point *)
SchemaIs(k) == <<k \in Compounds, k \in {"CHOICE", "UNION"}, k \in Ints \cup Floats \cup {"BOOL"},
                 k \in Ints \cup VarS \cup VarU \cup Dyn \cup {"BOOL"}, k \in SInts \cup VarS \cup Floats \cup {"DYNAMIC_SIGNED_BITFIELD"}, k \in Floats>>
CppIs(k) == <<k \in Compounds, k \in {"CHOICE", "UNION"}, k \in CppS \cup CppU \cup {"BOOL", "FLOAT", "DOUBLE"},
              k \in CppS \cup CppU \cup {"BOOL"}, k \in CppS \cup {"FLOAT", "DOUBLE"}, k \in {"FLOAT", "DOUBLE"}>>
(* --- descriptors: the answers a kind of type gives *)
Getters == <<"bits", "fields", "params", "functions", "selector", "cases", "underlying", "items", "masks", "columns", "constraint",
             "using", "norowid", "tables", "template", "targs", "messages", "methods", "create">>
CompoundGets == {"fields", "params", "functions", "template", "targs", "create"}
Gets(kind) == CASE kind = "fixed" -> {"bits"} [] kind = "builtin" -> {}
                [] kind \in {"struct", "union"} -> CompoundGets [] kind = "choice" -> CompoundGets \cup {"selector", "cases"}
                [] kind = "enum" -> {"underlying", "items"} [] kind = "mask" -> {"underlying", "masks"}
                [] kind = "table" -> {"template", "targs", "columns", "constraint", "using", "norowid"}
                [] kind = "database" -> {"tables"} [] kind = "pubsub" -> {"messages"} [] kind = "service" -> {"methods"}
KindOf(kind) == CASE kind = "struct" -> "STRUCT" [] kind = "union" -> "UNION" [] kind = "choice" -> "CHOICE" [] kind = "enum" -> "ENUM"
                  [] kind = "mask" -> "BITMASK" [] kind = "table" -> "SQL_TABLE" [] kind = "database" -> "SQL_DATABASE"
                  [] kind = "pubsub" -> "PUBSUB" [] kind = "service" -> "SERVICE"
Tells(x) == <<"v", x>>
Silent == <<"no", <<>>>>
(* what is told about a type made of the contents c *)
Report(kind, c) == [k \in 1..Len(Getters) |->
    IF Getters[k] \in Gets(kind) /\ ~(Getters[k] = "create" /\ c[k] = "") THEN Tells(c[k]) ELSE Silent]
(* --- built-in types: kind, bits, signedness *)
Storage(w) == IF w <= 8 THEN 8 ELSE IF w <= 16 THEN 16 ELSE IF w <= 32 THEN 32 ELSE 64
Named == [ bool |-> <<"bool", "BOOL", "BOOL", 1>>, f16 |-> <<"float16", "FLOAT16", "FLOAT", 16>>, f32 |-> <<"float32", "FLOAT32", "FLOAT", 32>>,
           f64 |-> <<"float64", "FLOAT64", "DOUBLE", 64>>, v16 |-> <<"varint16", "VARINT16", "INT16", 0>>, v32 |-> <<"varint32", "VARINT32", "INT32", 0>>,
           v64 |-> <<"varint64", "VARINT64", "INT64", 0>>, v |-> <<"varint", "VARINT", "INT64", 0>>, vu16 |-> <<"varuint16", "VARUINT16", "UINT16", 0>>,
           vu32 |-> <<"varuint32", "VARUINT32", "UINT32", 0>>, vu64 |-> <<"varuint64", "VARUINT64", "UINT64", 0>>, vu |-> <<"varuint", "VARUINT", "UINT64", 0>>,
           vs |-> <<"varsize", "VARSIZE", "UINT32", 0>>, bytes |-> <<"bytes", "BYTES", "BYTES", 0>>, string |-> <<"string", "STRING", "STRING", 0>>,
           extern |-> <<"extern", "EXTERN", "BIT_BUFFER", 0>> ]
Builtin(k, w, sg) ==
    CASE k = "fix" -> <<(IF sg THEN "int:" ELSE "bit:") \o ToString(w), IntName(sg, w), IntName(sg, Storage(w)), w>>
      [] k = "dyn" -> <<IF sg THEN "int<>" ELSE "bit<>", IF sg THEN "DYNAMIC_SIGNED_BITFIELD" ELSE "DYNAMIC_UNSIGNED_BITFIELD", IntName(sg, Storage(w)), 0>>
      [] OTHER -> Named[k]
Builtins == {<<"fix", w, sg>> : w \in 1..64, sg \in BOOLEAN} \cup {<<"dyn", w, sg>> : w \in {8, 16, 32, 64}, sg \in BOOLEAN}
            \cup {<<k, 0, FALSE>> : k \in DOMAIN Named}
BuiltinReport(b) == Report(IF b[4] = 0 THEN "builtin" ELSE "fixed", [k \in 1..Len(Getters) |-> IF k = 1 THEN b[4] ELSE ""])
=============================================================================
