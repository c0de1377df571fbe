------------------------------ MODULE ServerMC ------------------------------
EXTENDS ServerProps
\* every thread is done, or legitimately waits for something which may never come
Rest(t) == pc[t] = "main" \/ (pc[t] = "k_wa" /\ seen[t] = "none" /\ t # "x" /\ t # "p" /\ t # "y")
Quiet == ph = "over" /\ (\A t \in Thr : Rest(t)) /\ ~donor
MCNext == (\E p \in Thr : TrStep(p)) \/ (Quiet /\ UNCHANGED vars)
=============================================================================
