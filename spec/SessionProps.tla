--------------------------- MODULE SessionProps ---------------------------
\* The properties of sessions as invariants of Session.tla.  They are checked
\* in model checking and on every recorded execution.
EXTENDS Session

Trx == DOMAIN P
Count(seq, v) == Cardinality({ i \in 1..Len(seq) : seq[i] = v })
Done(h) == P[h].fin \in {"committed", "aborted"}
Idle(s) == lk[s] = "" /\ ph[s] \in {"idle", "closed", "end"} /\ pc[s] \in {"main", "Done"}

\* A granted abort is final: the execution does not commit, except by replay.
C01 == /\ \A h \in Trx : P[h].bfed /\ P[h].fin = "committed" => (P[h].rp = 1 /\ P[h].ro = "ok") \/ P[h].xc
       /\ \A h \in Trx : P[h].bfed /\ P[h].rp = 0 => P[h].ne = P[h].nl \/ ~P[h].certok \/ P[h].fin = ""
       /\ \A h \in Trx : ~P[h].late
       /\ \A s \in Sess : X[s].h # 0 /\ P[X[s].h].bfed /\ P[X[s].h].rp = 0 => X[s].ts \notin {"ordered_commit", "committed"}
       /\ \A s \in Sess : X[s].h # 0 /\ X[s].bf => P[X[s].h].bfed

\* Commit needs certification; commit order is entered and left once.
C02 == /\ \A s \in Sess : X[s].h # 0 /\ X[s].ts \in {"ordered_commit", "committed"} /\ P[X[s].h].rp = 0 /\ ~P[X[s].h].xc /\ ~P[X[s].h].bx
                            => X[s].cert /\ P[X[s].h].certok /\ P[X[s].h].ne = 1
       /\ \A h \in Trx : P[h].nl <= P[h].ne /\ P[h].ne <= 1
       /\ \A h \in Trx : P[h].ne > 0 => P[h].ord
       /\ \A h \in Trx : Done(h) /\ P[h].ord /\ P[h].rp = 0 /\ ~P[h].told => P[h].ne = 1 /\ P[h].nl = 1
       /\ \A h \in Trx : Done(h) => P[h].nl = P[h].ne

\* Replay: at most once, only of what was replicated, and it decides.
C03 == /\ \A h \in Trx : P[h].rp <= 1 /\ (P[h].rp = 1 => P[h].may)
       /\ \A h \in Trx : Done(h) /\ P[h].rp = 1 => P[h].fin = (IF P[h].ro = "ok" THEN "committed" ELSE "aborted")
       /\ \A h \in Trx : Done(h) /\ P[h].bfed /\ P[h].may => P[h].rp = 1 \/ P[h].fin = "committed" \/ ~P[h].certok
       /\ \A s \in Sess : Idle(s) => X[s].wr = X[s].sr \/ Xa

\* Whatever was not the client's wish is reported.
C04 == \A s \in Sess :
         /\ ph[s] = "res" /\ pc[s] = "main" /\ X[s].cl > 0 /\ lt[s] # 0 =>
              LET h == lt[s] IN
              h \in Trx =>
                 /\ P[h].fin = "aborted" /\ ~P[h].own /\ ~P[h].xm => X[s].err # "ok"
                 /\ P[h].fin = "committed" => X[s].err = "ok"
         /\ ph[s] = "idle" /\ pc[s] = "main" /\ ~Act(X[s]) => X[s].err = "ok" \/ X[s].kce

\* Nothing is left behind.
Clean(x) == /\ x.tid = 0 /\ x.h = 0 /\ ~x.cert /\ x.seq = 0 /\ x.fc = 0 /\ x.fs = 0 /\ ~x.bf /\ ~x.to /\ ~x.imm
            /\ x.fl = 0 /\ x.keys = {} /\ ~x.rb /\ ~x.xa /\ ~x.dep /\ x.uc = 0 /\ x.lp = 0 /\ ~x.rip
C05 == \A s \in Sess : Idle(s) /\ ~Act(X[s]) /\ ~X[s].ra => Clean(X[s])

\* Streaming counters.
C06 == \A s \in Sess : /\ X[s].fs <= X[s].fc
                       /\ X[s].lp <= X[s].by
                       /\ Act(X[s]) /\ X[s].fc = 0 /\ ~X[s].xa /\ X[s].ts = "executing" => Has(X[s].fl, FStart)
                       /\ X[s].fs > 0 /\ X[s].ts = "executing" => ~Has(X[s].fl, FStart)

\* One rollback notification, sent or queued.
C07 == /\ \A h \in Trx : P[h].rb + Count(Q, h) <= 1
       /\ \A h \in Trx : Done(h) /\ P[h].fin = "aborted" /\ P[h].fr > 0 /\ ~P[h].ord /\ ~P[h].to /\ ~P[h].xm => P[h].rb + Count(Q, h) = 1
       /\ \A h \in Trx : P[h].fin = "committed" => P[h].rb + Count(Q, h) = 0

\* One owner.
C08 == /\ \A s \in Sess : Idle(s) /\ ~X[s].rip /\ X[s].ts # "replaying" => (s \in SC <=> Act(X[s]) /\ Sr(X[s]) /\ ~X[s].rb)
       /\ \A h \in Trx : h \in SA /\ ~P[h].xc => P[h].fin # "committed" /\ ~P[h].certok

\* A prepared external transaction stays until it is ended explicitly: it is
\* with its session or with a streaming applier, its rollback is not sent,
\* and it is ended at most once.
Quiet == \A t \in Threads : pc[t] \in {"main", "Done"}
C20 == /\ \A h \in Trx : P[h].nres <= 1
       /\ Quiet /\ RQ = <<>> => \A h \in Trx : P[h].prp /\ P[h].res = "" =>
              /\ P[h].rb = 0 /\ Count(Q, h) = 0
              /\ P[h].fr > 0
              /\ P[h].lost \/ h \in SA \/ \E s \in SC : X[s].tid = h /\ X[s].xa /\ Sr(X[s])
       /\ \A h \in Trx : h \in SA /\ P[h].xm => P[h].rb = 0 /\ Count(Q, h) = 0
       /\ \A s \in Sess : X[s].ts = "prepared" => X[s].xa /\ X[s].fc > 0

\* The background rollbacker has the session for itself.
C19 == \A s \in Sess : X[s].ra => X[s].cs = "idle" /\ X[s].ts \in {"aborting", "aborted", "must_replay", "replaying"}
NoBad == \A s \in Sess : X[s].bad = ""
=============================================================================
