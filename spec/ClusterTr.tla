----------------------------- MODULE ClusterTr -----------------------------
EXTENDS ClusterProps
TrNext == IF cur = <<0, 0>> THEN UNCHANGED vars ELSE TrStep
=============================================================================
