------------------------------ MODULE ApplyMC ------------------------------
EXTENDS ApplyProps
WsOps == { Op("ws", f, t, 0, "") : f \in {FStart, 0, FCommit, FRollback, FPrepare}, t \in Tids } \cup { Op("ws", FStart + FCommit, 41, 0, "") }
ViewOps == { Op("view", 0, 0, n, v) : n \in {1, 2, 3}, v \in {"primary"} } \cup { Op("view", 0, 0, 3, "non"), Op("view", 0, 0, 1, "disc") }
McWs == WsOps \cup { Op("ws", f, 0, 0, "") : f \in {FStart + FCommit + FToi, FStart + FToi, FCommit + FToi} } \cup { Op("bf", 0, 0, 0, "") }
McView == { o \in WsOps : o.fl # FPrepare } \cup ViewOps \cup { Op("misc", 0, 0, 0, "sst_received") }
McAll == WsOps \cup ViewOps \cup { Op("bf", 0, 0, 0, "") }
MCNext == TrStep("a") \/ (pc["a"] = "Done" /\ UNCHANGED vars)
=============================================================================
