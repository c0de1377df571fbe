----------------------------- MODULE ToiProps -----------------------------
EXTENDS Toi
At == pc["s1"] = "v_ret" /\ sid = "s1"
\* Isolation is entered and left in pairs with the position obtained.
C17 == /\ ~badleave /\ ~badretry /\ Cardinality(held) <= 1
       /\ At => /\ held = IF tpos["s1"] = 0 THEN {} ELSE {tpos["s1"]}
                /\ (mode["s1"] = "toi") = (fn = "enter_toi" /\ rv = 0)
                /\ fn = "enter_toi" /\ rv # 0 => mode["s1"] = "local" /\ tmode["s1"] = "undefined" /\ err # "ok"
\* The two phases of a non-blocking operation.
C18 == /\ ~badleave /\ Cardinality(held) <= 1
       /\ At => /\ (mode["s1"] = "nbo") = (nbo # 0)
                /\ fn = "nbo_begin1" => IF rv = 0 THEN held = {nbo} ELSE held = {} /\ mode["s1"] = "local" /\ err # "ok"
                /\ fn \in {"nbo_end1", "nbo_mode"} => held = {} /\ npos = nbo /\ mode["s1"] = "nbo"
                /\ fn = "nbo_begin2" => IF rv = 0 THEN held = {tpos["s1"]} /\ tpos["s1"] > nbo ELSE held = {} /\ mode["s1"] = "local" /\ err # "ok"
                /\ fn = "nbo_end2" => held = {} /\ mode["s1"] = "local"
\* Reported positions.
C21 == At => /\ lw["s1"] = lastpos["s1"] /\ lw["h1"] = lastpos["h1"]
             /\ sw = waited
             /\ fn = "sync_wait" /\ rv # 0 => err \in {"notsup", "timeout"}
NoBad == TRUE
=============================================================================
