------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* A cluster: nodes which apply one totally ordered log of write sets.      *)
(* Every node has rows, a log of streamed fragments, local sessions and an  *)
(* applier.  The first part says what is allowed to happen at all (used to  *)
(* validate recorded executions), the second part how nodes with row locks, *)
(* brute force aborts and replays behave (used for model checking).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Nodes, Rows, Trxs, Org, Mode, MaxRows, UserRb, defaultInitValue
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
VARIABLES cur,
  G,      \* the group's log: [org, tid, fl, keys, rows, seen, ok]
  pos,    \* last position each node has consumed
  db,     \* row -> transaction which wrote it
  fr,     \* fragments in each node's streaming log: <<tid, position>>
  T,      \* transactions
  lk, nx, ap, sk   \* model only: row locks, applier's position, being applied, skipped positions
vars == << cur, G, pos, db, fr, T, lk, nx, ap, sk >>
Pow2 == [i \in 0..10 |-> 2 ^ i]
Bits(m) == { r \in 0..9 : (m \div Pow2[r]) % 2 = 1 }
Table == 8     \* key: reference to the table
Whole == 9     \* key: the table exclusively
Conflict(a, b) == (a \cap b \cap (0..7)) # {} \/ (Whole \in a /\ b # {}) \/ (Whole \in b /\ a # {})
T0(o) == [org |-> o, st |-> "none", rows |-> {}, all |-> {}, bf |-> FALSE, told |-> "", seq |-> 0]
Ends(w) == w.fl \in {"one", "commit", "toi"}
Wss(t) == { i \in 1..Len(G) : G[i].tid = t }
Commits(t) == { i \in Wss(t) : Ends(G[i]) /\ G[i].ok }
Written(t, i) == UNION { G[j].rows : j \in { j \in Wss(t) : j <= i /\ G[j].ok } }
\* certification: the first of two conflicting write sets wins
Certify(t, fl, keys, seen) ==
  fl = "toi" \/ ~\E j \in (seen + 1)..Len(G) : G[j].ok /\ G[j].tid # t /\ Conflict(G[j].keys, keys)
\* positions at which the transaction is finished, not yet consumed by n
Over(t, n) == \E i \in Wss(t) : i > pos[n] /\ (Ends(G[i]) \/ G[i].fl = "rb" \/ ~G[i].ok)

\* ------------------------------------------------------ what may happen
Start(n, t) == t \notin DOMAIN T /\ T' = (t :> [T0(n) EXCEPT !.st = "exec"]) @@ T
Write(n, t, r) == T[t].org = n /\ T[t].told = "" /\ Wss(t) \cap Commits(t) = {} /\ T' = [T EXCEPT ![t].rows = @ \cup {r}]
\* replicated: exactly what was written since the last fragment, protected by keys
Cert(n, t, fl, keys, rows, seen, ok) ==
  /\ T[t].org = n /\ T[t].told = "" /\ seen \in {pos[n], pos[n] - 1}
  /\ ~\E i \in Wss(t) : Ends(G[i]) \/ G[i].fl = "rb" \/ ~G[i].ok
  /\ fl = "toi" \/ (rows = T[t].rows /\ rows \subseteq keys)
  /\ fl \in {"one", "first", "toi"} <=> Wss(t) = {}
  /\ fl = "commit" => Table \in keys
  /\ ok = Certify(t, fl, keys, seen)
  /\ G' = Append(G, [org |-> n, tid |-> t, fl |-> fl, keys |-> keys, rows |-> rows, seen |-> seen, ok |-> ok])
  /\ T' = [T EXCEPT ![t].rows = {}, ![t].all = @ \cup rows, ![t].seq = Len(G) + 1]
\* a rollback is announced for transactions which were streamed and did not commit
Rbk(n, t) ==
  /\ T[t].org = n /\ ~\E i \in Wss(t) : Ends(G[i])
  /\ G' = Append(G, [org |-> n, tid |-> t, fl |-> "rb", keys |-> {}, rows |-> {}, seen |-> pos[n], ok |-> TRUE])
Bf(n, t, s) ==
  /\ T[t].org = n /\ \A i \in Commits(t) : i > s /\ i > pos[n]
  /\ T' = [T EXCEPT ![t].bf = TRUE]
\* the next position, and nothing but what was replicated
Commit(n, t, i, rows) ==
  /\ i = pos[n] + 1 /\ i <= Len(G) /\ G[i].tid = t /\ Ends(G[i]) /\ G[i].ok
  /\ rows = Written(t, i)
  /\ ~\E f \in fr[n] : f[1] = t
  /\ pos' = [pos EXCEPT ![n] = i]
  /\ db' = [db EXCEPT ![n] = [r \in DOMAIN @ |-> IF r \in rows THEN t ELSE @[r]]]
Frag(n, t, i, rows) ==
  /\ i = pos[n] + 1 /\ i <= Len(G) /\ G[i].tid = t /\ G[i].fl \in {"first", "mid"} /\ G[i].ok /\ rows = G[i].rows
  /\ pos' = [pos EXCEPT ![n] = i]
  /\ fr' = [fr EXCEPT ![n] = @ \cup { <<t, i>> }]
\* a position without effect: failed certification, rollback, or a fragment
\* of a transaction which was aborted at home
Skip(n, i) ==
  /\ i = pos[n] + 1 /\ i <= Len(G)
  /\ \/ ~G[i].ok \/ G[i].fl = "rb"
     \/ G[i].org = n /\ G[i].fl \in {"first", "mid"} /\ T[G[i].tid].bf
  /\ G[i].org # n /\ G[i].fl = "rb" => ~\E f \in fr[n] : f[1] = G[i].tid
  /\ pos' = [pos EXCEPT ![n] = i]
\* fragments are removed when their transaction ends
RmFrag(n, t) ==
  /\ Over(t, n) \/ (T[t].org = n /\ Commits(t) = {})
  /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }]
Undo(n, t) == IF T[t].org = n THEN \A i \in Commits(t) : i > pos[n] ELSE Over(t, n)
Replay(n, t, i) == T[t].org = n /\ i \in Wss(t) /\ Ends(G[i]) /\ i > pos[n]
Done(n, t, r) == T[t].org = n /\ T[t].told = "" /\ T' = [T EXCEPT ![t].told = r]
End(n, p, sa, fs, ls, d) ==
  /\ p = pos[n] /\ p = Len(G) /\ sa = 0 /\ fs = 0 /\ ls = 0 /\ fr[n] = {}
  /\ \A r \in DOMAIN d : d[r] = db[n][r - 1]

\* ------------------------------------------------------------- validation
CurEv == D.ev[cur[1]]
Adv == \E e \in Kids(cur[2]) : cur' = e
Fl(f) == CASE f = 3 -> "one" [] f = 1 -> "first" [] f = 0 -> "mid" [] f = 2 -> "commit" [] OTHER -> "toi"
Num == [n \in {"1", "2", "3"} |-> CASE n = "1" -> 1 [] n = "2" -> 2 [] OTHER -> 3]
TrStep ==
  /\ cur # <<0, 0>> /\ CurEv.k = "ev" /\ Adv
  /\ UNCHANGED << lk, nx, ap, sk >>
  /\ LET n == Num[CurEv.t] a == CurEv.a f == CurEv.f IN
     CASE f = "start" -> Start(n, a[1]) /\ UNCHANGED << G, pos, db, fr >>
       [] f = "write" -> Write(n, a[1], a[2]) /\ UNCHANGED << G, pos, db, fr >>
       [] f = "nocert" -> T[a[1]].org = n /\ UNCHANGED << G, pos, db, fr, T >>
       [] f = "cert" -> a[2] = Len(G) + 1 /\ Cert(n, a[1], Fl(a[3]), Bits(a[4]), Bits(a[5]), a[6], a[7] = 1) /\ UNCHANGED << pos, db, fr >>
       [] f = "rbk" -> a[2] = Len(G) + 1 /\ Rbk(n, a[1]) /\ UNCHANGED << pos, db, fr, T >>
       [] f = "bf" -> (IF a[3] = 1 THEN Bf(n, a[1], a[2]) ELSE UNCHANGED T) /\ UNCHANGED << G, pos, db, fr >>
       [] f = "commit" -> Commit(n, a[1], a[2], Bits(a[3])) /\ UNCHANGED << G, fr, T >>
       [] f = "frag" -> Frag(n, a[1], a[2], Bits(a[3])) /\ UNCHANGED << G, db, T >>
       [] f = "skip" -> Skip(n, a[1]) /\ UNCHANGED << G, db, fr, T >>
       [] f = "rmfrag" -> RmFrag(n, a[1]) /\ UNCHANGED << G, pos, db, T >>
       [] f = "undo" -> Undo(n, a[1]) /\ UNCHANGED << G, pos, db, fr, T >>
       [] f = "replay" -> Replay(n, a[1], a[2]) /\ UNCHANGED << G, pos, db, fr, T >>
       [] f = "done" -> Done(n, a[1], CASE a[2] = 0 -> "ok" [] a[2] = 1 -> "err" [] OTHER -> "own") /\ UNCHANGED << G, pos, db, fr >>
       [] f = "end" -> End(n, a[1], a[2], a[3], a[4], SubSeq(a, 5, Len(a))) /\ UNCHANGED << G, pos, db, fr, T >>

\* ------------------------------------------------------------------ model
Init ==
  /\ cur \in (IF Tr THEN Kids(D.root) ELSE { <<0, 0>> })
  /\ G = <<>> /\ pos = [n \in Nodes |-> 0] /\ db = [n \in Nodes |-> [r \in 0..3 |-> 0]] /\ fr = [n \in Nodes |-> {}]
  /\ T = IF Tr THEN <<>> ELSE [t \in Trxs |-> T0(Org[t])]
  /\ lk = [n \in Nodes |-> [r \in 0..3 |-> 0]] /\ nx = [n \in Nodes |-> 1] /\ ap = [n \in Nodes |-> 0] /\ sk = [n \in Nodes |-> {}]
Free(n, t) == [lk EXCEPT ![n] = [r \in DOMAIN @ |-> IF @[r] = t THEN 0 ELSE @[r]]]
St(t, s) == T' = [T EXCEPT ![t].st = s]
SetSt(F, t, s) == [F EXCEPT ![t].st = s]
\* h, ordered at i, needs the rows: abort local holders which are not before it
Grab(n, h, i, rows) ==
  \E r \in rows : LET v == lk[n][r] IN
     /\ v \notin {0, h} /\ T[v].org = n /\ ~T[v].bf
     /\ T[v].st \in {"exec", "frag", "ordered"}
     /\ ~(T[v].st = "ordered" /\ T[v].seq < i)
     /\ Bf(n, v, i)
Got(n, h, rows) == \A r \in rows : lk[n][r] \in {0, h}
Dep(i) ==
  LET w == G[i] IN
  IF ~w.ok \/ w.fl \in {"rb", "toi", "commit"} THEN i - 1
  ELSE LET S == { j \in 1..(i - 1) : (G[j].ok /\ Conflict(G[j].keys, w.keys)) \/ G[j].tid = w.tid \/ G[j].fl \in {"rb", "toi"} } \cup {w.seen} IN
       CHOOSE m \in S : \A k \in S : k <= m
MStart(t) ==
  /\ T[t].st = "none" /\ Mode[t] # "toi" /\ St(t, "exec") /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
MWrite(t) == LET n == Org[t] IN
  /\ T[t].st = "exec" /\ ~T[t].bf /\ Cardinality(T[t].all \cup T[t].rows) < MaxRows
  /\ \E r \in Rows \ (T[t].all \cup T[t].rows) : lk[n][r] = 0 /\ lk' = [lk EXCEPT ![n][r] = t] /\ Write(n, t, r)
  /\ UNCHANGED << G, pos, db, fr, nx, ap, sk >>
MCert(t, fl) == LET n == Org[t] keys == T[t].rows \cup {Table} IN
  /\ Cert(n, t, fl, keys, T[t].rows, pos[n], Certify(t, fl, keys, pos[n]))
  /\ UNCHANGED << pos, db, fr, lk, nx, ap, sk >>
MFrag(t) ==
  /\ T[t].st = "exec" /\ ~T[t].bf /\ Mode[t] = "sr" /\ T[t].rows # {}
  /\ LET n == Org[t] keys == T[t].rows \cup {Table} fl == IF Wss(t) = {} THEN "first" ELSE "mid" ok == Certify(t, fl, keys, pos[n]) IN
     /\ G' = Append(G, [org |-> n, tid |-> t, fl |-> fl, keys |-> keys, rows |-> T[t].rows, seen |-> pos[n], ok |-> ok])
     /\ T' = [T EXCEPT ![t].rows = {}, ![t].all = @ \cup T[t].rows, ![t].seq = Len(G) + 1, ![t].st = "frag"]
  /\ UNCHANGED << pos, db, fr, lk, nx, ap, sk >>
MFragDone(t) == LET n == Org[t] i == T[t].seq IN
  /\ T[t].st = "frag"
  /\ IF T[t].bf \/ ~G[i].ok
     THEN sk' = [sk EXCEPT ![n] = @ \cup {i}] /\ St(t, "abort") /\ UNCHANGED << G, pos, db, fr, lk, nx, ap >>
     ELSE Frag(n, t, i, G[i].rows) /\ St(t, "exec") /\ UNCHANGED << G, db, lk, nx, ap, sk >>
MCommit(t) ==
  /\ T[t].st = "exec" /\ ~T[t].bf /\ T[t].all \cup T[t].rows # {}
  /\ LET n == Org[t] fl == IF Wss(t) = {} THEN "one" ELSE "commit" keys == T[t].rows \cup {Table} ok == Certify(t, fl, keys, pos[n]) IN
     /\ G' = Append(G, [org |-> n, tid |-> t, fl |-> fl, keys |-> keys, rows |-> T[t].rows, seen |-> pos[n], ok |-> ok])
     /\ T' = [T EXCEPT ![t].rows = {}, ![t].all = @ \cup T[t].rows, ![t].seq = Len(G) + 1, ![t].st = "ordered"]
  /\ UNCHANGED << pos, db, fr, lk, nx, ap, sk >>
\* aborted while executing, or rolled back by the user
MGiveUp(t) ==
  /\ T[t].st = "exec" /\ (T[t].bf \/ UserRb) /\ St(t, "abort") /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
MAbort(t) == LET n == Org[t] IN
  /\ T[t].st = "abort" /\ lk' = Free(n, t) /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }]
  /\ IF Wss(t) # {} THEN Rbk(n, t) ELSE UNCHANGED G
  /\ St(t, "failed") /\ UNCHANGED << pos, db, nx, ap, sk >>
\* ordered: commit in turn; aborted before its turn: roll back and replay;
\* failed certification: roll back and give the position up
MOrdered(t) == LET n == Org[t] i == T[t].seq IN
  /\ T[t].st = "ordered"
  /\ \/ /\ T[t].bf /\ lk' = Free(n, t) /\ St(t, "replay") /\ UNCHANGED << G, pos, db, fr, nx, ap, sk >>
     \/ /\ ~T[t].bf /\ ~G[i].ok /\ lk' = Free(n, t) /\ St(t, "cfail") /\ UNCHANGED << G, pos, db, fr, nx, ap, sk >>
     \/ /\ ~T[t].bf /\ G[i].ok /\ i = pos[n] + 1
        /\ pos' = [pos EXCEPT ![n] = i] /\ db' = [db EXCEPT ![n] = [r \in DOMAIN @ |-> IF r \in T[t].all THEN t ELSE @[r]]]
        /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }] /\ lk' = Free(n, t) /\ St(t, "committed") /\ UNCHANGED << G, nx, ap, sk >>
MReplay(t) == LET n == Org[t] i == T[t].seq IN
  /\ T[t].st = "replay" /\ pos[n] = i - 1
  /\ \/ ~G[i].ok /\ St(t, "cfail") /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
     \/ G[i].ok /\ Grab(n, t, i, T[t].all) /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
     \/ /\ G[i].ok /\ Got(n, t, T[t].all)
        /\ pos' = [pos EXCEPT ![n] = i] /\ db' = [db EXCEPT ![n] = [r \in DOMAIN @ |-> IF r \in T[t].all THEN t ELSE @[r]]]
        /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }] /\ St(t, "committed") /\ UNCHANGED << G, lk, nx, ap, sk >>
MCfail(t) == LET n == Org[t] i == T[t].seq IN
  /\ T[t].st = "cfail" /\ Skip(n, i) /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }] /\ St(t, "failed") /\ UNCHANGED << G, db, lk, nx, ap, sk >>
MToi(t) == LET n == Org[t] IN
  /\ Mode[t] = "toi"
  /\ \/ /\ T[t].st = "none"
        /\ G' = Append(G, [org |-> n, tid |-> t, fl |-> "toi", keys |-> {Whole}, rows |-> Rows, seen |-> pos[n], ok |-> TRUE])
        /\ T' = [T EXCEPT ![t].all = Rows, ![t].seq = Len(G) + 1, ![t].st = "toi"] /\ UNCHANGED << pos, db, fr, lk, nx, ap, sk >>
     \/ T[t].st = "toi" /\ pos[n] = T[t].seq - 1 /\ Grab(n, t, T[t].seq, Rows) /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
     \/ T[t].st = "toi" /\ Got(n, t, Rows) /\ Commit(n, t, T[t].seq, Rows) /\ St(t, "committed") /\ UNCHANGED << G, fr, lk, nx, ap, sk >>
MTold(t) == LET n == Org[t] IN
  /\ T[t].told = ""
  /\ \/ T[t].st = "committed" /\ Done(n, t, "ok")
     \/ T[t].st = "failed" /\ Done(n, t, "err")
  /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
MSkip(n) == pos[n] + 1 \in sk[n] /\ Skip(n, pos[n] + 1) /\ UNCHANGED << G, db, fr, T, lk, nx, ap, sk >>
\* the applier takes write sets in order; local ones are left to their sessions
MApply(n) == LET i == nx[n] IN
  /\ i <= Len(G)
  /\ LET w == G[i] t == w.tid IN
     \/ w.org = n /\ w.fl # "rb" /\ nx' = [nx EXCEPT ![n] = i + 1] /\ UNCHANGED << G, pos, db, fr, T, lk, ap, sk >>
     \/ /\ w.org # n /\ w.ok /\ w.fl # "rb" /\ ap[n] # i /\ Dep(i) <= pos[n]
        /\ \/ Grab(n, t, i, w.rows) /\ UNCHANGED << G, pos, db, fr, lk, nx, ap, sk >>
           \/ /\ Got(n, t, w.rows) /\ lk' = [lk EXCEPT ![n] = [r \in DOMAIN @ |-> IF r \in w.rows THEN t ELSE @[r]]]
              /\ ap' = [ap EXCEPT ![n] = i] /\ UNCHANGED << G, pos, db, fr, T, nx, sk >>
     \/ /\ w.org # n /\ ap[n] = i /\ w.fl \in {"first", "mid"}
        /\ Frag(n, t, i, w.rows) /\ nx' = [nx EXCEPT ![n] = i + 1] /\ UNCHANGED << G, db, T, lk, ap, sk >>
     \/ /\ w.org # n /\ ap[n] = i /\ Ends(w) /\ i = pos[n] + 1
        /\ pos' = [pos EXCEPT ![n] = i] /\ db' = [db EXCEPT ![n] = [r \in DOMAIN @ |-> IF lk[n][r] = t THEN t ELSE @[r]]]
        /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }] /\ lk' = Free(n, t) /\ nx' = [nx EXCEPT ![n] = i + 1] /\ UNCHANGED << G, T, ap, sk >>
     \/ /\ (w.org # n /\ ~w.ok) \/ w.fl = "rb"
        /\ i = pos[n] + 1 /\ pos' = [pos EXCEPT ![n] = i] /\ nx' = [nx EXCEPT ![n] = i + 1]
        /\ IF w.org # n THEN lk' = Free(n, t) /\ fr' = [fr EXCEPT ![n] = { f \in @ : f[1] # t }] ELSE UNCHANGED << lk, fr >>
        /\ UNCHANGED << G, db, T, ap, sk >>
Finished == /\ \A t \in Trxs : T[t].told # "" \/ (T[t].st = "exec" /\ T[t].all \cup T[t].rows = {} /\ ~T[t].bf)
            /\ \A n \in Nodes : pos[n] = Len(G) /\ fr[n] = {} /\ \A r \in DOMAIN lk[n] : lk[n][r] = 0
MNext == /\ cur' = cur
         /\ \/ \E t \in Trxs : MStart(t) \/ MWrite(t) \/ MFrag(t) \/ MFragDone(t) \/ MCommit(t) \/ MGiveUp(t) \/ MAbort(t)
                                \/ MOrdered(t) \/ MReplay(t) \/ MCfail(t) \/ MToi(t) \/ MTold(t)
            \/ \E n \in Nodes : MSkip(n) \/ MApply(n)
            \/ Finished /\ UNCHANGED << G, pos, db, fr, T, lk, nx, ap, sk >>
=============================================================================
