---------------------------- MODULE PauseProps ----------------------------
EXTENDS Pause
\* One user at a time, one resume per pause by the user who paused; a resync
\* undoes a desync of the same user only.
C16 == /\ Cardinality(paused) <= 1 /\ ~badpause /\ ~badresume
       /\ ~badresync /\ \A u \in Users : own[u] \in 0..1
       \* nothing is kept when a call has ended which does not hand it over
       /\ \A u \in Users : pc[u] = "v_ret" =>
            /\ fn[u] \in {"resume", "resync", "resume_and_resync", "end_rsu"} /\ ~lostresume => u \notin paused
            /\ fn[u] \in {"resync", "resume_and_resync", "end_rsu"} /\ ~lostresume => own[u] = 0
            /\ fn[u] = "begin_rsu" => IF rv[u] = 0 THEN u \in paused /\ own[u] = 1 ELSE u \notin paused /\ own[u] = 0
            /\ fn[u] = "desync_and_pause" => IF rv[u] = Seq7 THEN u \in paused ELSE u \notin paused /\ own[u] = 0
            /\ mode[u] = "rsu" => u \in paused /\ own[u] = 1
NoBad == TRUE
=============================================================================
