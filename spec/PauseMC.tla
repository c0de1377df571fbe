------------------------------ MODULE PauseMC ------------------------------
EXTENDS PauseProps
\* done, or waiting for a provider which could not be resumed
Quiet == \A u \in Users : (pc[u] = "main" /\ (left[u] = 0 \/ lostresume) /\ fn[u] = "") \/ (pc[u] = "k_pa" /\ lostresume)
MCNext == (\E p \in Users : TrStep(p)) \/ (Quiet /\ UNCHANGED vars)
=============================================================================
