----------------------------- MODULE SessionMC -----------------------------
\* Model checking of the session specification.
EXTENDS SessionProps
Finished == \/ halted
            \/ /\ \A t \in Sess : ph[t] = "end"
               /\ \A t \in Bfs \cup Vw : ph[t] = "end"
               /\ RQ = <<>>
               /\ pc["r"] = "main"
\* Steps which touch only what the thread owns (registers, or the session
\* while its mutex is held) commute with the steps of other threads.
IsLocal(p) == /\ SubSeq(pc[p], 1, 2) \notin {"v_", "g_", "k_", "m_", "s_"}
              /\ pc[p] \notin {"main", "Done", "cch", "rph"}
Locals == { p \in Threads : IsLocal(p) }
MCNext == \/ /\ ~halted
             /\ IF Locals # {} THEN LET p == CHOOSE p \in Locals : TRUE IN TrStep(p)
                ELSE \E p \in Threads : TrStep(p)
          \/ Finished /\ UNCHANGED vars


=============================================================================
