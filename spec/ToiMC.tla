------------------------------- MODULE ToiMC -------------------------------
EXTENDS ToiProps
MCNext == Next \/ (left = 0 /\ ~cmd /\ UNCHANGED vars)
=============================================================================
