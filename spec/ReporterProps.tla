--------------------------- MODULE ReporterProps ---------------------------
EXTENDS Reporter
Tail2(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
C22 == /\ Len(mem.err) <= Max /\ Len(mem.warn) <= Max /\ Len(mem.evs) <= Max
       \* whoever is not in the middle of a report sees the latest one
       /\ lk = "" /\ ~failed => file \in {<<>>, Show(mem)}
       /\ Max > 0 => mem.err = Tail2(sent["error"], Max) /\ mem.warn = Tail2(sent["warning"], Max)
       /\ \A q \in {mem.err, mem.warn} : \A i \in 1..(Len(q) - 1) : q[i] # q[i + 1]
NoBad == TRUE
=============================================================================
