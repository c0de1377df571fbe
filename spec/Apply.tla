------------------------------- MODULE Apply -------------------------------
(***************************************************************************)
(* Applying: dispatch of write sets, streaming appliers, high priority       *)
(* transactions, view changes, disconnect and recovery of streaming          *)
(* appliers.  One applier thread; the DBMS's answers are nondeterministic.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Ops, MaxOps, Tids, Faults, TwoPC
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
B(b) == IF b THEN 1 ELSE 0
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
FStart == 1   FCommit == 2   FRollback == 4   FToi == 8   FPa == 16   FPrepare == 128
Has(f, b) == (f \div b) % 2 = 1
ErrLen == 3
OneOf(cls, ok, bad) == IF Tr \/ cls \in Faults THEN {ok} \cup bad ELSE {ok}

\* ----------------------------------- a high priority transaction context
Y0 == [tid |-> 0, sid |-> 0, ts |-> "executing", cert |-> FALSE, seq |-> 0, fc |-> 0, fs |-> 0, xa |-> FALSE, err |-> 0, used |-> FALSE, bad |-> FALSE, tob |-> FALSE]
Cleanup(y) == [Y0 EXCEPT !.ts = y.ts, !.used = y.used]
StEv(h, y) == << y.tid, B(y.cert), y.seq, y.fc, y.fs >>
RolledBack(y) == [y EXCEPT !.ts = "aborted", !.fc = 0, !.fs = 0]
AfterApply(y) == IF y.ts \in {"executing", "prepared"} THEN [y EXCEPT !.seq = 0] ELSE Cleanup(y)
Hn(i) == "h" \o ToString(i)
\* --------------------------------------------------------- write sets
W0 == [fl |-> 0, sid |-> 0, tid |-> 0, seq |-> 0, h |-> 0, op |-> 0]
Wmt(w) == << w.h, w.op, w.sid, w.tid, w.seq >>            \* handle and meta data
Wm(w) == << 0, 0, w.sid, w.tid, w.seq >>                  \* meta data only
NoWs == W0
OrphWs(sid, tid) == [W0 EXCEPT !.sid = sid, !.tid = tid]
OrphWsH(sid, tid) == [W0 EXCEPT !.sid = sid, !.tid = tid, !.h = tid]

Op(k, fl, tid, n, v) == [k |-> k, fl |-> fl, tid |-> tid, n |-> n, v |-> v]
TrOps == { Op("bf", 0, 0, 0, ""), Op("ws", 0, 0, 0, ""), Op("view", 0, 0, 0, ""), Op("misc", 0, 0, 0, "disconnect"), Op("misc", 0, 0, 0, "sst_received") }

(* --algorithm Apply {
variables
  cur \in Kids(D.root),
  Y = [h \in {"a"} |-> Y0],           \* contexts: the applier and the streaming appliers
  SA = {},                            \* streaming appliers: [sid, tid, h]
  FR = {},                            \* streaming log: <<sid, tid, seq>>
  nh = 0, seq = 10, nops = 0,
  mem = {1, 2, 3}, pmem = {1, 2}, cmem = {1, 2}, prim = TRUE,
  own = 0,                            \* own index in the view
  rec = TRUE,                         \* streaming appliers recovered
  lost = {},                          \* fragments whose removal failed
  done = {},                          \* transactions which ended
  st = "run", kind = "",
  \* history of the current write set: how its position was consumed, applied
  hist = [n |-> 0, ap |-> 0, fail |-> 0, rb |-> 0, ret |-> 0, cleanup |-> 0],
  \* registers
  ws = W0, hp = "", wc = W0, rv = 0, ae = 0, el = 0, rmf = FALSE, ade = 0, sa = "", todo = {}, nrec = 0;

define {
  CurEv == D.ev[cur[1]]
  CurIs(k, f) == cur[1] # 0 /\ CurEv.k = k /\ CurEv.f = f
  SAof(sid, tid) == { s \in SA : s.sid = sid /\ s.tid = tid }
  HOf(sid, tid) == (CHOOSE s \in SA : s.sid = sid /\ s.tid = tid).h
  Prepared(s) == Y[s.h].ts = "prepared"
}
macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }
macro Ev(kk, ff, aa, ss) {
  if (Tr) { await cur[1] # 0 /\ CurEv = [t |-> "a", k |-> kk, f |-> ff, a |-> aa, s |-> ss]; Adv() }
}
macro StateEv(h) { Ev("hp", "st", StEv(h, Y[h]), << h, Y[h].ts >>) }

\* ============================== operations of a high priority service (hp)
procedure h_start() {
hs1:
  with (r \in IF hp = "a" \/ Y[hp].used THEN OneOf("hps", 0, {1}) ELSE {0}) {
    Ev("cb", "h.start", Wmt(wc) \o <<r>>, <<hp>>);
    rv := r;
    if (r = 1) { hist.cleanup := 1; return }
    else { Y[hp] := [Y0 EXCEPT !.tid = wc.tid, !.sid = wc.sid, !.cert = TRUE, !.seq = wc.seq, !.used = TRUE] }
  };
hs2: StateEv(hp); return;
}
procedure h_next() {
hn1: Ev("cb", "h.next", Wm(wc) \o <<0>>, <<hp>>); Y[hp].seq := wc.seq;
hn2: StateEv(hp); return;
}
\* the applier takes over the transaction of context sa
procedure h_adopt() {
ha1:
  with (r \in OneOf("hps", 0, {1}), y = Y[sa], p = B(Y[sa].ts = "prepared")) {
    Ev("cb", "h.adopt", << y.tid, y.fs, p, r >>, <<"a">>);
    rv := r;
    if (r = 1) { return }
    else { Y["a"] := [Y["a"] EXCEPT !.tid = y.tid, !.sid = y.sid, !.ts = y.ts, !.fc = y.fc, !.fs = y.fs, !.xa = y.xa] }
  };
ha2: StateEv("a"); return;
}
procedure h_apply() {
hp1:
  with (r \in OneOf("apply", 0, {1, 2})) {
    Ev("cb", "h.apply", Wm(wc) \o << wc.fl, 4, r >>, <<hp>>);
    ae := r; el := IF r = 1 THEN ErrLen ELSE 0;
    hist.ap := hist.ap + 1 || hist.fail := r;
    if (r > 0) { return }
    else {
      with (y = IF Has(wc.fl, FCommit) THEN Y[hp] ELSE [Y[hp] EXCEPT !.fc = @ + 1, !.fs = @ + 1]) {
        Y[hp] := IF Has(wc.fl, FPrepare) THEN [y EXCEPT !.xa = TRUE, !.ts = "prepared"] ELSE y
      }
    }
  };
hp2: StateEv(hp); return;
}
\* fragments are removed by a storage service, out of order
procedure sto_rm() {
sr0: Ev("cb", "sto.new", <<>>, <<>>);
sra: Ev("cb", "sto.adopt", << Y[hp].tid >>, <<>>);
srb: with (r \in OneOf("storm", 0, {1})) { Ev("cb", "sto.rmf", <<r>>, <<>>); ade := r };
src: with (r \in OneOf("sto", 0, {1})) {
        Ev("cb", "sto.commit", <<0, 0, r>>, <<>>);
        if (r = 0 /\ ade = 0) { FR := { f \in FR : f[2] # Y[hp].tid } } else { lost := lost \cup {<< Y[hp].sid, Y[hp].tid >>} };
      };
srd: Ev("cb", "sto.del", <<>>, <<>>); return;
}
\* an attempt to brute force abort the committing transaction: never granted,
\* and not even asked from the provider once commit order has been entered
procedure probe(imm) {
pb1: Ev("call", "bf_abort", <<100>>, <<hp>>);
pb2: if (~imm) { Ev("cb", "bf", << Y[hp].tid, 100 >>, <<"notallowed">>) };
pb3: Ev("ret", "bf_abort", <<0>>, <<hp>>); return;
}
\* commit or, without position, roll back the context's transaction
procedure do_commit() {
dc1:
  if (Y[hp].tid = 0) { rv := 0; return };
dc2:
  if (wc.seq = 0) { Y[hp] := [RolledBack(Y[hp]) EXCEPT !.seq = 0, !.cert = TRUE]; rv := 0; goto dc8 }
  else { Y[hp] := [Y[hp] EXCEPT !.seq = wc.seq, !.cert = TRUE, !.ts = "committing"] };
dc2p: if (Tr /\ CurIs("call", "bf_abort")) { call probe(FALSE) };
dc3: \* commit order
  with (r \in OneOf("hcoe", "ok", {"bfabort"})) {
    Ev("cb", "coe", << wc.h, wc.seq, 1 >>, <<r>>);
    if (r # "ok") { Y[hp].ts := "aborting"; hist.cleanup := 1; rv := 1; goto dc8 }
  };
dc3p: if (Tr /\ CurIs("call", "bf_abort")) { call probe(TRUE) };
dc4:
  with (r \in OneOf("hcol", 0, {1})) {
    Ev("cb", "col", << wc.h, wc.seq, 1, Y[hp].err, r >>, <<>>);
    if (r # 0) { Y[hp].ts := "aborting"; hist.cleanup := 1; rv := 1; goto dc8 } else { hist.n := hist.n + 1 }
  };
dc5: if (Y[hp].fc > 0 /\ Y[hp].xa) { goto dc6 } else { goto dc7 };
dc6: call sto_rm();
dc7: Y[hp] := [Y[hp] EXCEPT !.ts = "committed", !.fc = 0, !.fs = 0]; rv := 0;
dc8: StateEv(hp); return;
}
procedure h_commit() {
hc1:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.commit", Wmt(wc) \o <<r>>, <<hp>>);
    rv := r;
    if (r = 1) { hist.cleanup := 1; return }
  };
hc2: call do_commit();
     return;
}
procedure h_rollback() {
hr1:
  with (r \in IF Tr \/ kind = "ws" THEN OneOf("hrb", 0, {1}) ELSE {0}) {
    Ev("cb", "h.rollback", Wmt(wc) \o <<r>>, <<hp>>);
    rv := r;
    if (r = 1) { hist.cleanup := 1; Y[hp].bad := TRUE; return } else if (Y[hp].tid = 0) { return }
    else { hist.rb := hist.rb + 1; if (~(Y[hp].tob /\ Y[hp].fc > 0)) { goto hr1b } }
  };
hr1a: call sto_rm();
hr1b: Y[hp] := [RolledBack(Y[hp]) EXCEPT !.seq = wc.seq, !.cert = FALSE];
      rv := 0;
hr2: StateEv(hp); return;
}
procedure h_after() {
hf1: Ev("cb", "h.after", <<>>, <<hp>>);
     if (Y[hp].bad) { return } else { Y[hp] := AfterApply(Y[hp]) };
hf2: StateEv(hp); return;
}
procedure h_dummy() {
hd1:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.dummy", Wmt(wc) \o << el, r >>, <<hp>>);
    rv := r; if (r = 0) { hist.n := hist.n + 1 } else { hist.cleanup := 1 }
  };
  return;
}
procedure h_rmf() {
hm1:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.rmf", Wm(wc) \o <<r>>, <<hp>>);
    rv := r;
    if (r = 0) { FR := { f \in FR : ~(f[1] = wc.sid /\ f[2] = wc.tid) } } else { lost := lost \cup {<< wc.sid, wc.tid >>}; hist.cleanup := 1 }
  };
  return;
}
procedure h_append() {
hx1:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.append", Wmt(wc) \o << wc.fl, 4, B(Y[sa].xa), r >>, <<"a">>);
    rv := r;
    if (r = 1) { hist.cleanup := 1; return }
    else { Y["a"] := [Y0 EXCEPT !.tid = wc.tid, !.sid = wc.sid, !.cert = TRUE, !.seq = wc.seq, !.used = TRUE]; hp := "a" }
  };
hx2: call do_commit();
hx3: if (rv = 0) { FR := FR \cup { << wc.sid, wc.tid, wc.seq >> } }; return;
}
\* discard the streaming applier sa
procedure discard() {
ds1: Ev("cb", "hps.del", <<>>, <<sa>>); SA := { s \in SA : s.h # sa };
     Y := [h \in DOMAIN Y \ {sa} |-> Y[h]];
     return;
}

\* brute force abort of the streaming applier sa while it is waiting for the
\* next fragment: the DBMS rolls it back in the background
procedure bf_sa() {
bs1: with (to \in {"bf_abort", "to_bf_abort"}) { Ev("call", to, <<100>>, <<sa>>); kind := to };
bs2: with (r \in OneOf("bf", "ok", {"notallowed"})) {
       Ev("cb", "bf", << Y[sa].tid, 100 >>, <<r>>);
       if (r = "ok") { Y[sa].ts := "aborting" || Y[sa].tob := (kind = "to_bf_abort");
         if (kind = "bf_abort") { lost := lost \cup {<< Y[sa].sid, Y[sa].tid >>} }; SA := { s \in SA : s.h # sa } } else { goto bs5 }
     };
bs3: Ev("cb", "bgrb", <<>>, <<sa>>);
bs4: Ev("ret", kind, <<1>>, <<sa>>); hp := sa; wc := NoWs;
     call h_rollback();
bs4a: call h_after();
bs4b: call discard(); return;
bs5: Ev("ret", kind, <<0>>, <<sa>>); return;
}

\* ================================================================ dispatch
procedure apply_fragment() {
af1: hp := sa; wc := ws; call h_apply();
af2: if (ae = 0) { call h_after(); goto af10 };
af3: rmf := Y[sa].fs > 0; call h_rollback();
af4: if (rv = 0) { call h_after() };
af5: if (rv # 0) { goto af9 } else if (~rmf) { call h_dummy(); goto af9 };
af6: call h_start();
af7: if (rv # 0) { goto af9 };
af7a: Ev("cb", "h.err", <<el>>, <<sa>>); Y[sa].err := el;
af7b: call h_rmf();
af8: if (rv = 0) { call h_commit() };
af8b: if (rv = 0) { call h_after() };
af9: if (rv # 0) { return };
af9a: call discard();
af9b: if (el > 0 \/ ae = 0) { rv := 0 } else { rv := 1 };
      return;
af10: call h_append();
af11: if (rv = 0) { hp := "a"; call h_after() };
af12: return;
}
procedure commit_fragment() {
cf1: hp := sa; wc := ws; call h_apply();
cf2: if (ae = 0) { rv := 0; goto cf5 };
cf2a: call h_rollback();
cf3: if (rv = 0) { call h_after() };
cf4: if (rv = 0) { call h_start() };
cf4b: if (rv = 0) { Ev("cb", "h.err", <<el>>, <<sa>>); Y[sa].err := el };
cf5: if (rv = 0 /\ Y[sa].ts # "prepared") { call h_rmf() };
cf6: if (rv = 0) { call h_commit() };
cf6a: if (rv = 0) { call h_after() };
cf7: if (rv = 0 /\ ae # 0 /\ el = 0) { rv := 1 };
cf8: if (rv = 0) { call discard() };
cf9: return;
}
procedure rollback_fragment() {
rf1: rmf := Y[sa].fs > 0; ade := 0; el := 0;
     if (rmf) { call h_adopt() } else { rv := 0 };
rf2: ade := rv; hp := sa; wc := NoWs; call h_rollback();
rf3: if (rv = 0) { call h_after() };
rf4: if (rv = 0) { call discard() } else { return };
rf5: wc := ws; hp := "a";
     if (ade # 0 /\ rmf) { lost := lost \cup {<< ws.sid, ws.tid >>} };
     if (ade # 0 \/ ~rmf) { call h_dummy(); return }
     else { call h_rmf() };
rf6: if (rv = 0) { call h_commit() };
rf7: if (rv # 0) { call h_rollback(); goto rf7b } else { goto rf8 };
rf7b: rv := 1;
rf8: hp := "a"; ade := rv; call h_after();
rf9: rv := ade; return;
}
procedure on_apply() {
v_oa: Ev("call", "on_apply", << ws.fl, ws.sid, ws.tid, ws.seq >>, <<>>);
      hist := [n |-> 0, ap |-> 0, fail |-> 0, rb |-> 0, ret |-> 0, cleanup |-> 0];
      el := 0; ae := 0; wc := ws;
      hp := IF ~Has(ws.fl, FToi) /\ ~Has(ws.fl, FRollback) /\ ~Has(ws.fl, FStart) /\ SAof(ws.sid, ws.tid) # {} THEN HOf(ws.sid, ws.tid) ELSE "a";
      if (Has(ws.fl, FToi)) { goto toi1 }
      else if (Has(ws.fl, FRollback)) {
        if (Has(ws.fl, FStart) \/ SAof(ws.sid, ws.tid) = {}) { call h_dummy(); goto v_ret }
        else { sa := HOf(ws.sid, ws.tid); call rollback_fragment(); goto v_ret }
      } else if (Has(ws.fl, FStart) /\ Has(ws.fl, FCommit)) { goto full }
      else if (Has(ws.fl, FStart)) { goto first }
      else if (SAof(ws.sid, ws.tid) = {}) { call h_dummy(); goto v_ret }
      else { sa := HOf(ws.sid, ws.tid); call h_next(); goto oa2 };
full: call h_start();
fu2:  if (rv = 0) { call h_apply() } else { goto v_ret };
fu3:  if (ae # 0) { goto fu6 };
fu4:  call h_commit();
fu5:  if (rv = 0) { call h_after() }; 
fu5a: goto v_ret;
fu6:  call h_rollback();
fu7:  if (rv = 0) { call h_after() };
fu8:  if (rv = 0) { call h_dummy() };
fu9:  if (rv = 0 /\ el = 0) { rv := 1 };
      goto v_ret;
first:
      nh := nh + 1;
      sa := Hn(nh + 0);
fi2:  Ev("cb", "hps.new", <<>>, <<sa>>);
      SA := SA \cup { [sid |-> ws.sid, tid |-> ws.tid, h |-> sa] };
      Y := [h \in DOMAIN Y \cup {sa} |-> IF h = sa THEN Y0 ELSE Y[h]];
      hp := sa;
fi3:  call h_start();
oa2:  if (Has(ws.fl, FCommit) /\ ~Has(ws.fl, FStart)) { call commit_fragment() } else { call apply_fragment() };
oa3:  goto v_ret;
toi1: Ev("cb", "coe", << ws.h, ws.seq, 1 >>, <<"ok">>);
      if (~Has(ws.fl, FStart)) { goto toi5 };
toi2: with (r \in OneOf("apply", 0, {1, 2})) {
        Ev("cb", IF Has(ws.fl, FCommit) THEN "h.toi" ELSE "h.nbo", Wm(ws) \o << ws.fl, r >>, <<"a">>);
        ae := r; el := IF r = 1 THEN ErrLen ELSE 0; hist.ap := hist.ap + 1 || hist.fail := r;
        if (~Has(ws.fl, FCommit)) { goto toi5 }
      };
toi3: Ev("hp", "toi", <<1, ws.seq>>, <<"a">>);
toi4: Ev("hp", "toi", <<0, 0>>, <<"a">>);
toi5: with (r \in OneOf("hcol", 0, {1})) {
        Ev("cb", "col", << ws.h, ws.seq, 1, el, r >>, <<>>);
        hist.n := hist.n + 1 || hist.cleanup := IF r # 0 /\ Has(ws.fl, FStart) THEN 1 ELSE hist.cleanup;
        rv := IF ~Has(ws.fl, FStart) THEN 0 ELSE IF el > 0 THEN r ELSE IF r # 0 THEN r ELSE B(ae # 0);
      };
v_ret: Ev("ret", "on_apply", <<rv>>, <<>>);
      hist.ret := rv;
      if (rv # 0) { st := "halt" };
      return;
}

\* =============================================================== view changes
procedure recover() {
rc1: Ev("cb", "recover", <<>>, <<>>); nrec := nrec + 1; todo := { << f[1], f[2] >> : f \in FR };
rc2: while (todo # {}) {
       nh := nh + 1; sa := Hn(nh + 0);
       Ev("cb", "hps.new", <<>>, <<sa>>);
       Y := [h \in DOMAIN Y \cup {sa} |-> IF h = sa THEN Y0 ELSE Y[h]];
rc3:   with (p \in todo) {
         with (seqs = { f[3] : f \in { g \in FR : g[1] = p[1] /\ g[2] = p[2] } }) {
           with (mn = CHOOSE x \in seqs : \A y \in seqs : x <= y) {
             Ev("cb", "h.start", << p[2], 1, p[1], p[2], mn, 0 >>, <<sa>>);
             Y[sa] := [Y0 EXCEPT !.tid = p[2], !.sid = p[1], !.cert = TRUE, !.seq = mn, !.used = TRUE];
             SA := SA \cup { [sid |-> p[1], tid |-> p[2], h |-> sa] };
           }
         };
         todo := todo \ {p};
       };
rc4:   StateEv(sa);
       with (n = Cardinality({ f \in FR : f[1] = Y[sa].sid /\ f[2] = Y[sa].tid })) { Y[sa].fc := n || Y[sa].fs := n };
       hp := sa;
rc5:   call h_after();
     };
rc6: rec := TRUE; return;
}
procedure orphans() {
or1: todo := { s \in SA : Y[s.h].ts # "prepared" /\ (cmem = pmem \/ s.sid \notin cmem) };
or2: while (todo # {}) {
       with (s \in IF Tr THEN { s \in todo : CurIs("cb", "h.adopt") /\ CurEv.a[1] = s.tid } ELSE todo) { sa := s.h; ws := OrphWs(s.sid, s.tid); todo := todo \ {s} };
or3:   call h_adopt();
or4:   ade := rv; hp := sa; wc := NoWs; call h_rollback();
or5:   call h_after();
or6:   call discard();
or7:   hp := "a"; wc := ws; if (ade = 0) { call h_rmf() } else { lost := lost \cup { << ws.sid, ws.tid >> }; goto or10 };
or8:   if (rv = 0) { wc := OrphWsH(ws.sid, ws.tid); call h_commit() };
or9:   if (rv # 0) { lost := lost \cup { << ws.sid, ws.tid >> }; wc := OrphWsH(ws.sid, ws.tid); call h_rollback() };
or10:  call h_after();
     };
or11: return;
}
procedure final() {
fn1: todo := SA;
fn2: while (todo # {}) {
       with (s \in IF Tr THEN { s \in todo : CurIs("cb", "h.rollback") /\ CurEv.s = <<s.h>> } ELSE todo) { sa := s.h; hp := s.h; todo := todo \ {s} };
       wc := NoWs;
fn3:   call h_rollback();
fn4:   call h_after();
fn5:   call discard();
     };
fn6: rec := FALSE; return;
}
procedure on_view() {
v_ov: Ev("call", "on_view", << own >> \o (IF own = -1 THEN <<>> ELSE [i \in 1..Cardinality(mem) |-> i]), << kind >>);
      if (prim) { pmem := cmem };
      prim := kind = "primary";
      cmem := IF own = -1 THEN {} ELSE mem;
ov2:  if (kind = "primary") { if (~rec) { call recover() } } else if (own = -1) { call final(); goto v_ovr } else { goto v_ovr };
ov3:  call orphans();
v_ovr: Ev("ret", "on_view", <<>>, <<>>); return;
}

process (th \in {"a"}) {
main:
  while (nops < MaxOps /\ st # "halt") {
    with (o \in Ops) {
      nops := nops + 1;
      if (Tr) { await cur[1] # 0 /\ CurEv.k = "call" };
      if (o.k = "ws") {
        \* which write sets the group may deliver
        if (Tr) { await CurEv.f = "on_apply" /\ o.fl = 0;
                  ws := [fl |-> CurEv.a[1], sid |-> CurEv.a[2], tid |-> CurEv.a[3], seq |-> seq + 1, h |-> CurEv.a[3], op |-> 5000 + seq + 1] }
        else { await /\ rec /\ prim /\ ~(o.tid \in done /\ o.tid \in Tids)
                     /\ (o.fl = FStart => SAof(o.tid \div 10, o.tid) = {} /\ o.tid \notin { f[2] : f \in FR })
                     /\ (o.fl \in {0, FPa, FPrepare} /\ SAof(o.tid \div 10, o.tid) # {} => Y[HOf(o.tid \div 10, o.tid)].ts # "prepared");
               ws := [fl |-> o.fl, sid |-> o.tid \div 10, tid |-> o.tid, seq |-> seq + 1, h |-> o.tid, op |-> 5000 + seq + 1];
               if (Has(o.fl, FCommit) \/ Has(o.fl, FRollback)) { done := done \cup {o.tid} } };
        seq := seq + 1;
        kind := "ws"
      } else if (o.k = "view") {
        if (Tr) { await CurEv.f = "on_view" /\ o.n = 0;
                  own := CurEv.a[1]; kind := CurEv.s[1];
                  if (CurEv.a[1] # -1) { mem := { CurEv.a[i] : i \in 2..Len(CurEv.a) } } }
        else { await o.n <= Cardinality(mem) /\ (o.v # "primary" \/ o.n >= 1);
               await (o.v = "disc") => (o.n = 1);
               own := IF o.v = "disc" THEN -1 ELSE 0; kind := o.v;
               if (o.v # "disc") { mem := 1..o.n } }
      } else if (o.k = "bf") {
        if (Tr) { await CurEv.f \in {"bf_abort", "to_bf_abort"} };
        with (s \in IF Tr THEN { s \in SA : CurEv.s = <<s.h>> } ELSE { s \in SA : ~Prepared(s) }) { sa := s.h };
        kind := "bf"
      } else { \* disconnect (not modelled here) and state transfer
        if (Tr) { await CurEv.f = o.v } else { await o.v = "sst_received" /\ ~rec };
        kind := o.v
      }
    };
step:
    if (kind = "ws") { call on_apply() }
    else if (kind \in {"primary", "non", "disc"}) { call on_view() }
    else if (kind = "bf") { call bf_sa() }
    else { goto misc };
after:
    goto main;
misc: Ev("call", kind, <<>>, <<>>);
misc2: if (kind = "sst_received" /\ ~rec) { call recover() };
misc3: Ev("ret", kind, <<>>, <<>>);
  }
}
} *)
=============================================================================
