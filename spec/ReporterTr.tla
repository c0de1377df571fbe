----------------------------- MODULE ReporterTr -----------------------------
EXTENDS ReporterProps
TrNext == IF cur = <<0, 0>> THEN UNCHANGED vars ELSE TrStep(CurEv.t)
=============================================================================
