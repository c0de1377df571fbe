------------------------------ MODULE ApplyTr ------------------------------
EXTENDS ApplyProps
Noise == \/ CurEv.k = "seg"
         \/ CurEv.f \in {"state", "log_view", "connect", "disconnect", "sst_request", "sst_received", "bootstrap"} /\ CurEv.k = "cb"
TrNext ==
  IF cur = <<0, 0>> THEN UNCHANGED vars
  ELSE IF Noise THEN (\E e \in Kids(cur[2]) : cur' = e) /\ UNCHANGED rest
  ELSE TrStep("a")
=============================================================================
