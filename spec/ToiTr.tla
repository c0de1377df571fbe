------------------------------- MODULE ToiTr -------------------------------
EXTENDS ToiProps
TrNext == IF cur = <<0, 0>> THEN UNCHANGED vars ELSE Next
=============================================================================
