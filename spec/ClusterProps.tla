---------------------------- MODULE ClusterProps ----------------------------
EXTENDS Cluster
\* the state at a position is determined by the log
LastW(r, p) == { i \in 1..p : Ends(G[i]) /\ G[i].ok /\ r \in Written(G[i].tid, i) }
DbAt(r, p) == LET S == LastW(r, p) IN IF S = {} THEN 0 ELSE G[CHOOSE i \in S : \A j \in S : j <= i].tid
Fragments(n) == { <<G[i].tid, i>> : i \in { i \in 1..pos[n] : G[i].fl \in {"first", "mid"} /\ G[i].ok } }
C24 ==
  /\ \A n \in Nodes : \A r \in DOMAIN db[n] : db[n][r] = DbAt(r, pos[n])
  /\ \A t \in DOMAIN T :
       /\ T[t].told = "ok" => \E i \in Commits(t) : i <= pos[T[t].org]
       /\ T[t].told \in {"err", "own"} => Commits(t) = {}
  /\ \A n \in Nodes : fr[n] \subseteq Fragments(n)
\* a streamed transaction which may still commit is in the streaming log of every node
C24d == \A n \in Nodes : \A f \in Fragments(n) :
          f \in fr[n] \/ Over(f[1], n) \/ (\E i \in Wss(f[1]) : i <= pos[n] /\ (Ends(G[i]) \/ G[i].fl = "rb" \/ ~G[i].ok))
          \/ T[f[1]].org = n
NoBad == TRUE
=============================================================================
