------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The node's life cycle: state graph, waiters, views, initialization order, *)
(* state transfers and disconnect, with every thread which takes part.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Sbi, Waiters, Targets, Evs, Disc, Faults, Connected
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
Thr == {"p", "m", "x", "y", "d"} \cup Waiters
OneOf(cls, ok, bad) == IF Tr \/ cls \in Faults THEN {ok} \cup bad ELSE {ok}
\* -------------------------------------------------- the documented graph
Succ == [ disconnected |-> {"initializing", "connected"},
          initializing |-> {"disconnected", "initialized", "disconnecting"},
          initialized |-> {"disconnected", "connected", "joined", "disconnecting"},
          connected |-> {"disconnected", "connected", "joiner", "synced", "disconnecting"},
          joiner |-> {"disconnected", "initializing", "joined", "disconnecting"},
          joined |-> {"disconnected", "connected", "donor", "synced", "disconnecting"},
          donor |-> {"disconnected", "connected", "joined", "disconnecting"},
          synced |-> {"disconnected", "connected", "joined", "donor", "disconnecting"},
          disconnecting |-> {"disconnected"} ]
States == DOMAIN Succ
Below == {"disconnected", "initializing", "initialized", "connected", "joiner"}
Gone == {"disconnecting", "disconnected"}
\* how a wait for t ends when state s is entered
Verdict(t, s) == IF s = t THEN "ok" ELSE IF s \in Gone /\ t \notin Gone THEN "int" ELSE "none"

(* --algorithm Server {
variables
  cur \in Kids(D.root),
  ss = "disconnected", mx = "", chg = FALSE,
  init = FALSE, synced = FALSE, rec = FALSE, cg = 0,
  wt = [t \in Thr |-> ""],              \* state waited for
  seen = [t \in Thr |-> "none"],        \* verdict of the wait
  rv = [t \in Thr |-> 0],
  \* history
  edges = TRUE,                         \* all announced changes were edges of the graph
  bad = FALSE,                          \* a transition off the graph was tried
  told = 0,                             \* results of the state transfer told to the provider
  full = 0,                             \* position up to which the node is known to have state
  joinedbad = FALSE,                    \* joined without full state
  \* environment (model checking)
  ph = "new", up = FALSE, sstreq = FALSE, donor = FALSE, left = Evs, vseq = 4, discd = FALSE,
  fn = [t \in Thr |-> ""], arg = [t \in Thr |-> 0], tgt = [t \in Thr |-> ""], pos = 0;

define {
  CurEv == D.ev[cur[1]]
  Is(t, k, f) == cur[1] # 0 /\ CurEv.t = t /\ CurEv.k = k /\ CurEv.f = f
  NWait(s) == Cardinality({ t \in Thr : wt[t] = s })
}
macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }
macro Ev(kk, ff, aa, s1) {
  if (Tr) { await cur[1] # 0 /\ CurEv = [t |-> self, k |-> kk, f |-> ff, a |-> aa, s |-> s1]; Adv() }
}
macro EvAny(kk, ff) { if (Tr) { await Is(self, kk, ff); Adv() } }
macro Lock() { await mx = ""; mx := self; chg := FALSE }
\* a release which changed nothing need not be there
macro Unlock() {
  if (Tr /\ (chg \/ Is(self, "seg", "srv"))) { await Is(self, "seg", "srv") /\ CurEv.s = <<ss>>; Adv() };
  mx := ""
}

procedure set(new) {
st1: if (new \notin Succ[ss]) {
       bad := bad \/ ss # "disconnecting";
       return
     };
st2: Ev("cb", "state", <<>>, << ss, new >>);
     edges := edges /\ new \in Succ[ss]; ss := new; chg := TRUE;
     seen := [t \in Thr |-> IF wt[t] # "" /\ seen[t] = "none" THEN Verdict(wt[t], new) ELSE seen[t]];
     joinedbad := joinedbad \/ (new = "joined" /\ full < cg);
\* threads which wait for the new state get to see it
st3: while (NWait(ss) > 0) {
       Unlock();
k_st:  await Tr \/ NWait(ss) = 0;
       Lock();
     };
     return;
}
procedure wait(target) {
wa1: wt[self] := target;
     seen[self] := IF ss # "disconnected" \/ target = "disconnected" THEN Verdict(target, ss) ELSE "none";
wa2: while (seen[self] = "none") {
       Unlock();
k_wa:  await Tr \/ seen[self] # "none";
       Lock();
     };
     wt[self] := ""; rv[self] := IF seen[self] = "ok" THEN 0 ELSE 1;
     return;
}
procedure api_wait() {
k_aw: Lock();
aw1:  call wait(tgt[self]);
aw2:  Unlock();
      return;
}
procedure initialized() {
k_in: Lock(); init := TRUE;
      if (Sbi) { if (ss = "disconnected") { goto in9 } else { call set("initialized"); goto in9 } } else { call set("initializing") };
in2:  call set("initialized");
in9:  Unlock(); rv[self] := 0; return;
}
procedure on_connect() {
k_oc: Lock(); cg := arg[self]; full := 0; call set("connected");
oc2:  Unlock(); rv[self] := 0; return;
}
procedure recover() {
re0: Unlock();
re1: EvAny("cb", "recover");
k_re: Lock(); rec := TRUE; return;
}
procedure on_view() {
ov1: if (tgt[self] = "primary") { goto k_ov } else if (tgt[self] = "non") { goto k_on } else { goto k_of };
k_ov: Lock();
      if (ss = "connected") { call set("joiner") } else { goto ov5 };
ov2:  if (Sbi) { rv[self] := IF init THEN 1 ELSE 0; call set("initializing") } else { goto ov5 };
ov3:  if (rv[self] = 1) { call set("initialized") };
ov5:  if (~init) { Unlock() } else { goto ov8 };
k_ov6: Lock();
ov7:  call wait("initialized");
ov7a: if (rv[self] # 0) { Unlock(); rv[self] := 99; return };
ov8:  if (~rec) { call recover() };
ov9:  full := IF arg[self] > full THEN arg[self] ELSE full;
      if (ss \in Below /\ arg[self] >= cg) { call set("joined") };
ov10: Unlock(); rv[self] := 0;
      goto ov99;
k_on: Lock();
      if (ss # "disconnecting") { call set("connected") };
on2:  Unlock(); rv[self] := 0; goto ov99;
k_of: Lock(); rec := FALSE;
      call set("disconnected");
of2:  Unlock(); rv[self] := 0;
ov99: EvAny("cb", "log_view");
      return;
}
procedure on_sync() {
k_os: Lock(); full := IF ss \in Below THEN cg ELSE full;
      if (Sbi /\ ~synced) {
        if (ss = "connected") { call set("joiner"); goto os2 }
        else if (ss = "joiner") { goto os2 }
        else if (ss = "initialized") { call set("joined"); goto os3 }
        else if (ss \in {"disconnecting", "synced"}) { goto os9 }
        else { goto os3 }
      } else if (ss \in {"synced", "disconnecting"}) { goto os9 } else { goto os3 };
os2:  call set("initializing"); goto os9;
os3:  call set("synced");
os9:  synced := TRUE; rv[self] := 0;
os10: Unlock(); return;
}
procedure prepare_for_sst() {
k_ps: Lock(); call set("joiner");
ps2:  Unlock();
ps3:  EvAny("cb", "sst_request"); rv[self] := 0; return;
}
procedure start_sst() {
k_ss: Lock(); call set("donor");
ss2:  Unlock();
ss3:  with (r \in OneOf("sst", 0, {1})) {
        if (Tr) { await Is(self, "cb", "start_sst") /\ CurEv.a = << 6, arg[self], r >>; Adv() };
        rv[self] := r; if (r = 0) { return }
      };
k_ss4: Lock(); if (ss = "donor") { call set("joined") };
ss5:  Unlock(); rv[self] := 1; return;
}
procedure sst_sent() {
k_sn: Lock(); if (ss = "donor") { call set("joined") };
sn2:  Unlock();
sn3:  if (Tr) { await Is(self, "cb", "sst_sent") /\ CurEv.a[2] = arg[self]; Adv() }; rv[self] := 0; return;
}
procedure sst_received() {
sr0:  told := 0; if (arg[self] # 0) { goto sr8 };
k_sr: Lock();
      if (Sbi /\ ~init) { call set("initializing") } else { goto sr4 };
sr2:  Unlock();
k_sr3: Lock();
sr3a: call wait("initialized");
sr3b: if (rv[self] # 0) { Unlock(); goto sr9 };
sr4:  Unlock();
sr5:  with (q \in OneOf("getpos", Connected, {Connected - 1, Connected + 1})) {
        Ev("cb", "get_position", <<q>>, <<>>); pos := q };
sr5a: with (v \in OneOf("getview", 1, {0, 2, 3})) {
        Ev("cb", "get_view", <<v>>, <<>>);
        if (v >= 2) { goto sr9 } else { full := pos; if (v = 0) { goto k_sr6 } } };
sr5b: EvAny("cb", "log_view");
k_sr6: Lock(); if (pos >= cg) { call set("joined") };
sr6a: if (~rec) { call recover() };
sr7:  Unlock();
      if (~Tr) { skip };
sr8:  with (r \in OneOf("sstrcv", "ok", {"bad"})) {
        if (Tr) { await Is(self, "cb", "sst_received") /\ CurEv.a = << IF arg[self] = 0 THEN pos ELSE 0, IF arg[self] = 0 THEN 1 ELSE 0, arg[self] >>
                        /\ (CurEv.s = <<"ok">>) = (r = "ok"); Adv() };
        told := told + 1; rv[self] := IF r = "ok" THEN 0 ELSE 1
      };
      return;
sr9:  if (Tr) { await Is(self, "cb", "sst_received") /\ CurEv.a[1] = 0 /\ CurEv.a[2] = 0 /\ CurEv.a[3] # 0; Adv() };
      told := told + 1; rv[self] := 1; return;
}
procedure disconnect() {
k_di: Lock(); if (ss \notin Gone) { call set("disconnecting"); goto di2 };
di1:  Unlock(); rv[self] := 0; return;
di2:  Unlock();
di3:  with (r \in OneOf("disc", 0, {1})) { Ev("cb", "disconnect", <<r>>, <<>>); rv[self] := r };
      return;
}
procedure connect() {
cn1: if (Tr) { with (r \in {0, 1}) { await Is(self, "cb", "connect") /\ (CurEv.s = <<"ok">>) = (r = 0); rv[self] := r; Adv() } } else { rv[self] := 0 };
     return;
}

process (th \in Thr) {
main:
  while (TRUE) {
    \* what the environment calls next
    if (Tr) {
      await cur[1] # 0 /\ CurEv.t = self /\ CurEv.k = "call";
      fn[self] := CurEv.f;
      arg[self] := IF Len(CurEv.a) > 0 THEN CurEv.a[1] ELSE 0;
      tgt[self] := IF Len(CurEv.s) > 0 THEN CurEv.s[1] ELSE "";
      Adv();
    } else if (self = "p") {
      either { await ph = "new" /\ ~Sbi /\ ~init; fn[self] := "initialized" }
      or { await ph = "new" /\ (Sbi \/ init); fn[self] := "on_connect"; arg[self] := Connected; ph := "conn" }
      or { await ph = "conn"; fn[self] := "prepare_for_sst"; ph := "sst" }
      or { await ph = "conn" /\ Sbi /\ ~synced; fn[self] := "on_sync"; ph := "prim" }
      or { await ph \in {"conn", "prim"} /\ up; with (n \in {vseq, vseq + 1}) { arg[self] := n; vseq := n }; fn[self] := "on_view"; tgt[self] := "primary"; ph := "view" }
      or { await ph = "run" /\ left > 0; left := left - 1;
           either { await ~donor /\ ss \in {"joined", "synced", "disconnecting"}; fn[self] := "on_sync" }
           or { await ss \in {"joined", "synced", "donor", "disconnecting"}; fn[self] := "on_view"; tgt[self] := "primary"; arg[self] := vseq; ph := "view" }
           or { await ss \in {"joined", "synced", "donor", "disconnecting"}; fn[self] := "on_view"; tgt[self] := "non"; arg[self] := vseq; ph := "prim" }
           or { await ~donor /\ ss \in {"joined", "synced", "disconnecting"}; fn[self] := "start_sst"; arg[self] := 0 } }
      or { await ph \in {"run", "fail"} /\ ~discd; fn[self] := "disconnect"; discd := TRUE; ph := "fin" }
      or { await ph \in {"run", "fail", "fin"} /\ discd; fn[self] := "on_view"; tgt[self] := "final"; ph := "over" }
    } else if (self = "m") {
      await Sbi /\ fn[self] # "initialized" /\ ph # "over" /\ (fn[self] = "wait" /\ rv[self] # 0 => ss # "disconnecting");
      fn[self] := IF fn[self] = "wait" /\ rv[self] = 0 THEN "initialized" ELSE "wait"; tgt[self] := "initializing"
    }
    else if (self = "x") { await sstreq; sstreq := FALSE; fn[self] := "sst_received"; with (e \in OneOf("ssterr", 0, {1})) { arg[self] := e } }
    else if (self = "y") { await donor; fn[self] := "sst_sent"; with (e \in OneOf("ssterr", 0, {1})) { arg[self] := e } }
    else if (self = "d") { await Disc /\ up /\ fn[self] = "" /\ ~discd; fn[self] := "disconnect"; discd := TRUE }
    else { await fn[self] = "" /\ ph # "over"; fn[self] := "wait"; with (t \in Targets) { tgt[self] := t } };
disp:
    if (fn[self] = "wait") { call api_wait() }
    else if (fn[self] = "initialized") { call initialized() }
    else if (fn[self] = "on_connect") { call on_connect() }
    else if (fn[self] = "on_view") { call on_view() }
    else if (fn[self] = "on_sync") { call on_sync() }
    else if (fn[self] = "prepare_for_sst") { call prepare_for_sst() }
    else if (fn[self] = "start_sst") { call start_sst() }
    else if (fn[self] = "sst_sent") { call sst_sent() }
    else if (fn[self] = "sst_received") { call sst_received() }
    else if (fn[self] = "connect") { call connect() }
    else { call disconnect() };
v_ret:
    Ev("ret", fn[self], <<rv[self]>>, <<>>);
    if (~Tr) {
      if (fn[self] = "on_connect") { up := TRUE }
      else if (fn[self] = "prepare_for_sst") { sstreq := TRUE }
      else if (fn[self] = "start_sst" /\ rv[self] = 0) { donor := TRUE }
      else if (fn[self] = "sst_sent") { donor := FALSE }
      else if (fn[self] = "sst_received") { ph := IF rv[self] = 0 /\ arg[self] = 0 THEN "prim" ELSE "fail" }
      else if (fn[self] = "on_view" /\ ph = "view") { ph := IF rv[self] # 0 THEN "fail" ELSE IF ss \in Below /\ ss # "disconnected" THEN "prim" ELSE "run" }
    }
  }
}
} *)
=============================================================================
