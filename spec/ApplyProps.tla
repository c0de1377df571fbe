----------------------------- MODULE ApplyProps -----------------------------
EXTENDS Apply
AtRest == pc["a"] = "main" /\ st # "halt"
AfterWs == AtRest /\ kind = "ws" /\ nops > 0
\* Every position is consumed exactly once; write sets are applied exactly
\* once, unless they carry nothing to apply or their context is gone.
C09 == /\ hist.n <= 1 /\ hist.ap <= 1
       /\ AfterWs => hist.n = 1
       /\ \A s, t \in SA : s.sid = t.sid /\ s.tid = t.tid => s = t
       /\ \A s \in SA : s.h \in DOMAIN Y /\ (Y[s.h].tid # 0 => Y[s.h].tid = s.tid)
       /\ AfterWs => DOMAIN Y = {"a"} \cup { s.h : s \in SA }
       /\ AfterWs /\ ws.fl \in {FStart, 0, FPa, FPrepare} /\ hist.ap = 1 /\ hist.fail = 0 =>
            << ws.sid, ws.tid, ws.seq >> \in FR /\ SAof(ws.sid, ws.tid) # {}
       /\ AfterWs /\ (Has(ws.fl, FCommit) \/ Has(ws.fl, FRollback)) /\ ~Has(ws.fl, FToi) => SAof(ws.sid, ws.tid) = {}
       /\ AfterWs /\ Has(ws.fl, FRollback) => hist.ap = 0
\* A failed apply is rolled back, its context is discarded, and the outcome
\* reported is success exactly if there was something to vote on.
Failed == kind = "ws" /\ pc["a"] = "main" /\ nops > 0 /\ hist.fail > 0 /\ hist.cleanup = 0
C10 == /\ Failed /\ ~Has(ws.fl, FToi) => hist.rb = 1
       /\ Failed /\ ~Has(ws.fl, FToi) /\ ~(hist.ret # 0 /\ ws.fl \in {FCommit, FCommit + FPa}) => SAof(ws.sid, ws.tid) = {}
       /\ Failed => (hist.ret # 0 <=> hist.fail = 2)
       /\ Failed /\ hist.ret = 0 => hist.n = 1
       /\ kind = "ws" /\ pc["a"] = "main" /\ nops > 0 /\ hist.cleanup = 1 /\ hist.fail = 0 => hist.ret # 0
\* High priority transactions: ordered while committing; clean in between.
C11 == /\ \A h \in DOMAIN Y : Y[h].ts \in {"committing"} => Y[h].cert /\ Y[h].seq # 0
       /\ AtRest => Y["a"].tid = 0 /\ Y["a"].seq = 0 /\ ~Y["a"].cert /\ Y["a"].fc = 0
       /\ AtRest => \A s \in SA : /\ Y[s.h].tid = s.tid /\ Y[s.h].sid = s.sid /\ Y[s.h].seq = 0
                                  /\ Y[s.h].ts \in {"executing", "prepared"} /\ Y[s.h].fc = Y[s.h].fs
AfterView == AtRest /\ kind = "primary"
C12 == /\ AfterView => \A s \in SA : Y[s.h].ts = "prepared" \/ (s.sid \in cmem /\ cmem # pmem)
       /\ AfterView => \A f \in FR : SAof(f[1], f[2]) # {} \/ << f[1], f[2] >> \in lost
C13 == /\ AtRest /\ own = -1 /\ kind \in {"non", "disc"} => SA = {} /\ ~rec
       /\ AtRest /\ rec => \A f \in FR : SAof(f[1], f[2]) # {} \/ << f[1], f[2] >> \in lost
       /\ AtRest /\ kind = "primary" => rec
NoBad == \A h \in DOMAIN Y : Y[h].fs <= Y[h].fc
=============================================================================
