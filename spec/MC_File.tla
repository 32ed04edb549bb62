------------------------------ MODULE MC_File ------------------------------
(* A failed operation never makes another name's content differ; a successful *)
(* write is read back; histories of both are explored.                        *)
EXTENDS File
VARIABLE last
Ds == {<<>>, <<1>>, <<1, 2>>}
N == {"a", "ab", "d", "f"}
Init == fs = [n \in N |-> CASE n = "d" -> Refuses [] n = "f" -> Full [] OTHER -> Absent] /\ last = <<"init">>
DoW(n, d, b, lim, fd) == /\ b <= 8 * Len(d)
                         /\ Write(n, d, b, lim, fd, Fits(fs[n], d, b, lim, fd))
                         /\ last' = <<"w", n, Used(d, b), Fits(fs[n], d, b, lim, fd), fs>>
DoR(n, fd) == /\ CanRead(fs[n], fd) \in BOOLEAN
              /\ Read(n, fd, CanRead(fs[n], fd), fs[n].d, 8 * Len(fs[n].d)) /\ last' = <<"r", n>>
DoDel(n) == Delete(n) /\ last' = <<"d", n>>
Next == \E n \in N : \/ \E d \in Ds, b \in {0, 3, 8, 9}, lim \in {NoLimit, 0, 1}, fd \in BOOLEAN : DoW(n, d, b, lim, fd)
                     \/ \E fd \in BOOLEAN : DoR(n, fd)
                     \/ DoDel(n)
Spec == Init /\ [][Next]_<<fs, last>>
OnlyThatFile == last[1] = "w" => \A n \in N : n # last[2] => fs[n] = last[5][n]
Stored == last[1] = "w" /\ last[4] => fs[last[2]].k = "full" \/ fs[last[2]] = Bytes(last[3])
NeverRefuser == fs["d"] = Refuses /\ fs["f"] = Full
=============================================================================
