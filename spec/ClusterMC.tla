----------------------------- MODULE ClusterMC -----------------------------
EXTENDS ClusterProps
Org3 == (1 :> 1) @@ (2 :> 2) @@ (3 :> 1)
OrgN == (1 :> 1) @@ (2 :> 2) @@ (3 :> 3)
OrgX == (1 :> 1) @@ (2 :> 2) @@ (3 :> 2) @@ (4 :> 1)
One == [t \in 1..4 |-> "one"]
Sr == [t \in 1..4 |-> "sr"]
Mix == [t \in 1..4 |-> IF t = 1 THEN "sr" ELSE "one"]
ToiMix == [t \in 1..4 |-> IF t = 1 THEN "toi" ELSE "one"]
MCNext == MNext
=============================================================================
