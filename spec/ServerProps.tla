---------------------------- MODULE ServerProps ----------------------------
EXTENDS Server
\* Every announced change is an edge of the graph; nothing but "disconnected"
\* follows "disconnecting"; a verdict once reached is what the waiter reports.
C14 == /\ ~bad
       /\ edges
       /\ \A t \in Thr : pc[t] = "v_ret" /\ fn[t] = "wait" => (rv[t] = 0 <=> seen[t] = "ok")
\* At the end of an execution nobody is left waiting for what has happened.
Ended == cur = <<0, 0>> /\ Tr
C14w == Ended => \A t \in Thr : wt[t] # "" => seen[t] = "none"
\* Joined only with the full state; the provider is told exactly once.
C15 == /\ ~joinedbad
       /\ told <= 1
       /\ pc["x"] = "v_ret" /\ fn["x"] = "sst_received" => told = 1
       \* a donor is back, or was moved on, when sending has ended
       /\ ss = "donor" => donor \/ Tr \/ pc["p"] # "main" \/ pc["y"] # "main"
NoBad == ~bad
=============================================================================
