------------------------------ MODULE PauseTr ------------------------------
EXTENDS PauseProps
TrNext == IF cur = <<0, 0>> THEN UNCHANGED vars ELSE TrStep(CurEv.t)
=============================================================================
