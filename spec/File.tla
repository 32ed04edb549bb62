-------------------------------- MODULE File --------------------------------
(* Files of a directory, written and read as whole buffers of bits. A name    *)
(* is a sequence of characters; a file is absent, a sequence of bytes, a      *)
(* place nothing can be written to, or one whose content is not known (what   *)
(* a failed write leaves behind).                                             *)
EXTENDS Integers, Sequences
VARIABLE fs
Absent == [k |-> "absent", d |-> <<>>]
Bytes(d) == [k |-> "file", d |-> d]
Unknown == [k |-> "unknown", d |-> <<>>]
Refuses == [k |-> "refuses", d |-> <<>>]  (* a directory, a name that cannot exist *)
Full == [k |-> "full", d |-> <<>>]        (* a device without room *)
Used(d, n) == SubSeq(d, 1, (n + 7) \div 8)
NoLimit == -1
(* the write is possible: the target takes it and all of it fits *)
Fits(f, d, n, limit, fd) == /\ fd /\ f.k # "refuses" /\ (f.k = "full" => n = 0)
                            /\ limit = NoLimit \/ (n + 7) \div 8 <= limit
Write(name, d, n, limit, fd, ok) ==
    /\ ok = Fits(fs[name], d, n, limit, fd)
    /\ fs' = IF fs[name].k \in {"refuses", "full"} \/ ~fd THEN fs
             ELSE [fs EXCEPT ![name] = IF ok THEN Bytes(Used(d, n)) ELSE Unknown]
CanRead(f, fd) == fd /\ f.k \notin {"refuses", "absent"}
Read(name, fd, ok, d, n) ==
    /\ ok = CanRead(fs[name], fd)
    /\ ok /\ fs[name].k = "file" => d = fs[name].d /\ n = 8 * Len(d)
    /\ ok /\ fs[name].k = "unknown" => n = 8 * Len(d)
    /\ UNCHANGED fs
Delete(name) == fs[name].k \in {"file", "unknown"} /\ fs' = [fs EXCEPT ![name] = Absent]
(* content as seen by others: exactly the bytes, under exactly this name *)
Seen(name, there, d) == /\ fs[name].k \in {"absent", "file"}
                        /\ there = (fs[name].k = "file") /\ (there => d = fs[name].d)
                        /\ UNCHANGED fs
Learn(name, d) == fs[name].k = "unknown" /\ fs' = [fs EXCEPT ![name] = Bytes(d)]
=============================================================================
