------------------------------ MODULE ServerTr ------------------------------
EXTENDS ServerProps
Skippable == \/ CurEv.k = "seg" /\ CurEv.s = <<ss>>
             \/ CurEv.k = "cb" /\ CurEv.f \in {"hps.new", "hps.del"}
TrNext ==
  IF cur = <<0, 0>> THEN UNCHANGED vars
  ELSE LET p == CurEv.t IN
       IF Skippable /\ ~ENABLED TrStep(p)
       THEN (\E e \in Kids(cur[2]) : cur' = e) /\ UNCHANGED rest
       ELSE TrStep(p)
=============================================================================
