----------------------------- MODULE ReporterMC -----------------------------
EXTENDS ReporterProps
MCNext == (\E t \in Thr : TrStep(t)) \/ ((\A t \in Thr : pc[t] = "main" /\ left[t] = 0) /\ UNCHANGED vars)
=============================================================================
