----------------------------- MODULE SessionTr -----------------------------
\* Trace validation: only the thread of the next recorded event moves.  A
\* mutex release which changed nothing may be absent from either side.
EXTENDS SessionProps

Skippable == /\ CurEv.k = "seg"
             /\ \/ CurEv.f = "srv"
                \/ CurEv.f \in Sess /\ lastp[CurEv.f] = << CurEv.a, CurEv.s >>
TrNext ==
  IF cur = <<0, 0>> THEN UNCHANGED vars
  ELSE LET p == CurEv.t IN
       IF Skippable /\ ~ENABLED TrStep(p)
       THEN /\ \E e \in Kids(cur[2]) : cur' = e
            /\ UNCHANGED rest
       ELSE TrStep(p)
TrSpec == Init /\ [][TrNext]_vars
=============================================================================
