------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Client sessions of wsrep-lib: client_state, transaction, the streaming   *)
(* part of server_state, and their environment (provider, DBMS).            *)
(*                                                                          *)
(* The PlusCal procedures below mirror the C++ functions.  Every label is   *)
(* either one visible event of the implementation (a call into or out of    *)
(* the library, or the release of a mutex) or a local step.                 *)
(*                                                                          *)
(* Tr = FALSE: model checking; the environment answers nondeterministically *)
(* Tr = TRUE : the behaviours are those recorded from the implementation,   *)
(*             given as an acyclic automaton of events in file IOEnv.DAG.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Tr,        \* trace validation mode
          Sess,      \* sessions (and the names of their threads)
          Bfs,       \* threads which BF abort
          Async,     \* server rollback mode rm_async
          MaxCmd,    \* commands per session
          Menu,      \* what statements may do
          MaxRows,   \* rows per statement
          Keep,      \* commands with keep_command_error?
          To,        \* kinds of BF abort
          Faults,    \* fault classes of the environment
          Unit,      \* streaming unit ("off", "bytes", "row", "statement")
          FSize      \* fragment size

D == IF Tr THEN JsonDeserialize(IOEnv.DAG)
           ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
B(b) == IF b THEN 1 ELSE 0
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }

\* ----------------------------------------------------------------- flags
FStart == 1   FCommit == 2   FRollback == 4   FPaUnsafe == 16   FPrepare == 128   FDeps == 512
Has(f, b) == (f \div b) % 2 = 1
Or(f, b) == IF Has(f, b) THEN f ELSE f + b
Clr(f, b) == IF Has(f, b) THEN f - b ELSE f

\* --------------------------------------------------------------- session
X0 == [ts |-> "executing", cs |-> "none", mode |-> "local", err |-> "ok", est |-> "ok",
       tid |-> 0, h |-> 0, cert |-> FALSE, seq |-> 0, fc |-> 0, fs |-> 0, fcs |-> 0,
       bf |-> FALSE, to |-> FALSE, imm |-> FALSE, fl |-> 0, lw |-> 0, lp |-> 0, uc |-> 0,
       fu |-> 0, fz |-> 0, rb |-> FALSE, rip |-> FALSE, ra |-> FALSE, kce |-> FALSE,
       own |-> "", keys |-> {}, dep |-> FALSE, xa |-> FALSE, by |-> 0, xe |-> FALSE, xp |-> FALSE, xr |-> FALSE, xn |-> 0, bs |-> "",
       wr |-> 0, sr |-> 0, cl |-> 0, bad |-> ""]

\* The documented transaction state diagram
Allowed ==
  [executing  |-> {"preparing", "certifying", "must_abort", "aborting"},
   preparing  |-> {"prepared", "committing", "must_abort"},
   prepared   |-> {"certifying", "committing", "must_abort", "aborting"},
   certifying |-> {"executing", "preparing", "prepared", "committing", "cert_failed", "must_abort"},
   committing |-> {"ordered_commit", "committed", "must_abort"},
   ordered_commit |-> {"committed"},
   committed  |-> {},
   cert_failed |-> {"aborting"},
   must_abort |-> {"cert_failed", "aborting", "must_replay"},
   aborting   |-> {"aborted"},
   aborted    |-> {},
   must_replay |-> {"replaying"},
   replaying  |-> {"preparing", "committing", "committed", "aborted"}]

St(x, n) == [x EXCEPT !.ts = n,
                      !.bad = IF n \in Allowed[x.ts] THEN @ ELSE x.ts \o "->" \o n,
                      !.wr = IF n = "must_replay" THEN @ + 1 ELSE @]
Err(x, e, st) == [x EXCEPT !.err = e, !.est = st]
Act(x) == x.tid # 0
Ord(x) == x.seq # 0
Sr(x) == x.fc > 0
\* a prepared external transaction which was aborted
Pb(x) == x.xa /\ Sr(x) /\ x.bs = "prepared"
SctxCleanup(x) == [x EXCEPT !.fc = 0, !.fs = 0, !.rb = FALSE, !.uc = 0, !.lp = 0]
TxCleanup(x) ==
  LET y == SctxCleanup(x) IN
  [y EXCEPT !.tid = 0, !.h = 0, !.lw = IF Ord(x) THEN x.seq ELSE @, !.bf = FALSE, !.to = FALSE,
            !.seq = 0, !.fl = 0, !.cert = FALSE, !.keys = {}, !.dep = FALSE, !.cl = @ + 1, !.xa = FALSE, !.imm = FALSE, !.bs = "",
            !.bad = IF x.ts \in {"committed", "aborted"} THEN @ ELSE "cleanup in " \o x.ts]

pa(x) == << x.tid, B(x.cert), x.seq, x.fc, x.fs, x.fcs, B(x.bf), x.wr, x.sr, x.cl >>
ps(s, x) == << s, x.ts, x.cs, x.mode, x.err, x.est >>
Ret(s, r, XX) == << r >> \o pa(XX[s]) \o << XX[s].fl, XX[s].lw, XX[s].lp, XX[s].uc >>
\* what a release of the session's mutex shows: the state which the mutex
\* protects and other threads act upon
Proj(s, x) == << << x.tid, B(x.bf) >>, << s, x.ts, x.cs, x.mode >> >>

\* -------------------------------------------------------------- provider
\* The provider's ledger of a transaction; the second line records history
\* for the properties only.
P0 == [bfed |-> FALSE, entered |-> FALSE, certok |-> FALSE, told |-> FALSE, seq |-> 0,
       ne |-> 0, nl |-> 0, rp |-> 0, ro |-> "", rb |-> 0, fr |-> 0, to |-> FALSE, ord |-> FALSE, may |-> FALSE,
       fin |-> "", own |-> FALSE, late |-> FALSE,
       prp |-> FALSE, xm |-> FALSE, xc |-> FALSE, bx |-> FALSE, lost |-> FALSE, res |-> "", nres |-> 0]
XRem == "xrem" \in Menu         \* a transaction of another node was prepared here (number 1)
OneOf(cls, ok, bad) == IF cls \in Faults THEN {ok} \cup bad ELSE {ok}
CertOut(p, commit) == \* <<status, ordered>>
  IF "xa" \in Menu /\ commit
  THEN (IF p.bfed THEN {} ELSE { <<"ok", TRUE>> }) \cup (IF p.bfed \/ Tr \/ "cert" \in Faults THEN { <<"bfabort", TRUE>> } ELSE {})
       \cup (IF Tr \/ "cert" \in Faults THEN { <<"conn", FALSE>> } ELSE {})
  ELSE
  (IF p.bfed THEN { <<"bfabort", commit>>, <<"certfail", FALSE>> }
             ELSE { <<"ok", TRUE>> } \cup (IF "cert" \in Faults \/ Tr THEN { <<"certfail", FALSE>>, <<"bfabort", commit>> } ELSE {}))
  \cup (IF "cert" \in Faults \/ Tr THEN
         (IF commit THEN { <<"certfail", TRUE>> } ELSE {})
         \cup { <<e, FALSE>> : e \in {"conn", "size", "warning", "missing", "provider", "fatal",
                                      "notimpl", "notallowed", "unknown"} }
        ELSE {})

\* ------------------------------------------------------------- the DBMS
\* Phases of a client thread and the calls it may make next.
Op(f, a, s) == [f |-> f, a |-> a, s |-> s]
UnitNo == [bytes |-> 0, row |-> 1, statement |-> 2, off |-> 0]
Xa == "xa" \in Menu
OnError(x) ==
  IF ~Act(x) \/ (x.xp /\ x.ts \in {"must_abort", "cert_failed", "must_replay"}) THEN "stmt_end"
  ELSE IF x.ts \in {"must_abort", "cert_failed", "must_replay"} THEN "err"
  ELSE IF x.ts \in {"executing", "preparing", "aborting"} THEN "rb"
  ELSE "stmt_end"
NextPhase(ph, f, a, rv, x) ==
  CASE f = "open" -> "idle"
    [] f = "before_command" /\ Xa -> IF rv # 0 THEN (IF Act(x) /\ x.ts = "aborted" THEN "xro" ELSE "cmd_end")
                                     ELSE IF ~Act(x) /\ (x.xe \/ x.xp \/ x.xr) THEN "xclrc" ELSE "cmd"
    [] f = "before_command" -> IF rv = 0 /\ a[1] = 0 THEN "cmd" ELSE "cmd_end"
    [] f = "before_statement" -> IF rv = 0 THEN (IF Act(x) THEN (IF x.xp THEN "xprep" ELSE "body") ELSE "start")
                                 ELSE IF Xa THEN "cmd_end" ELSE "stmt_end"
    [] f = "start" /\ Xa -> "xid"
    [] f = "start" -> IF rv = 0 THEN (IF Unit = "off" THEN "body" ELSE "sr") ELSE "stmt_end"
    [] f = "assign_xid" -> IF a[1] = x.tid THEN "xaf" ELSE "xby"
    [] f \in {"commit_by_xid", "rollback_by_xid"} -> IF rv = 0 THEN "stmt_end" ELSE OnError(x)
    [] f = "xaf" -> CASE ph = "xaf" -> (IF Unit = "off" THEN "body" ELSE "sr")
                      [] ph = "xclrc" -> "cmd"
                      [] ph = "xclr" -> "cmd_end"
                      [] ph = "xoffq" -> "closed"
                      [] OTHER -> "stmt_end"
    [] f = "xa_detach" -> IF ph = "xquit" THEN "xoffq" ELSE "xoff"
    [] f = "before_prepare" /\ Xa -> IF rv = 0 THEN "prep" ELSE OnError(x)
    [] f = "after_prepare" /\ Xa -> IF rv = 0 THEN "xp" ELSE OnError(x)
    [] f = "before_commit" /\ Xa /\ rv # 0 /\ x.ts = "prepared" /\ ~x.xp -> "xp"
    [] f = "after_commit" /\ Xa -> "xoff"
    [] f = "before_rollback" /\ Xa /\ ph \in {"body", "xprep"} -> "rb2x"
    [] f = "after_rollback" /\ ph = "rb2x" -> "xrb"
    [] f = "after_statement" /\ Xa -> IF ~Act(x) /\ (x.xe \/ x.xp \/ x.xr) THEN "xclr" ELSE "cmd_end"
    [] f = "close" /\ Xa /\ Act(x) /\ x.xp -> "xquit"
    [] f = "enable_sr" -> "body"
    [] f \in {"append_key", "after_row"} -> IF rv = 0 THEN "body" ELSE OnError(x)
    [] f = "before_prepare" -> IF rv = 0 THEN "prep" ELSE OnError(x)
    [] f = "after_prepare" -> IF rv = 0 THEN "prepd" ELSE OnError(x)
    [] f = "before_commit" -> IF rv = 0 THEN "bc" ELSE OnError(x)
    [] f = "ordered_commit" -> IF rv = 0 THEN "oc" ELSE OnError(x)
    [] f = "after_commit" -> IF rv = 0 THEN "stmt_end" ELSE OnError(x)
    [] f = "before_rollback" -> "rb2"
    [] f = "after_rollback" -> "stmt_end"
    [] f = "after_statement" -> "cmd_end"
    [] f = "before_result" -> "res"
    [] f = "after_result" -> "idle"
    [] f = "close" -> "closed"
    [] f = "cleanup" -> "end"
    [] OTHER -> ph
\* calls which may be made between commands
Idles(s) == IF "sync" \in Menu THEN { Op("on_sync", <<>>, s), Op("probe", <<>>, s) } ELSE {}
\* settings which may change in the middle of a transaction
Cfgs(s) == { Op("pa_unsafe", <<>>, s), Op("implicit_deps", <<>>, s) }
           \cup (IF Unit = "off" THEN {} ELSE
                  { Op("sr_off", <<>>, s) } \cup { Op(f, <<u, z>>, s) : f \in {"enable_sr", "sr_params"}, u \in (IF Tr THEN {0, 1, 2} ELSE {UnitNo[Unit], 2}), z \in (IF Tr THEN 1..3 ELSE {FSize, FSize + 1}) })
Setting(x, f, a) ==
  CASE f = "sr_params" -> [x EXCEPT !.fu = a[1], !.fz = a[2], !.uc = 0]
    [] f = "sr_off" -> [x EXCEPT !.fz = 0]
    [] f = "pa_unsafe" -> [x EXCEPT !.fl = Or(@, FPaUnsafe)]
    [] f = "implicit_deps" -> [x EXCEPT !.dep = TRUE]
Byx(s, x) == { Op(k, <<x.xn>>, s) : k \in {"commit_by_xid", "rollback_by_xid"} }
ClientOps(s, ph, x, n, nt, rows, byx) ==
  CASE ph = "new" -> { Op("open", <<>>, s) }
    [] ph = "idle" -> (IF n < MaxCmd THEN { Op("before_command", <<k>>, s) : k \in (IF Keep THEN {0, 1} ELSE {0}) } ELSE {})
                      \cup (IF n = MaxCmd \/ ("reopen" \in Menu /\ n > 0) THEN { Op("close", <<>>, s) } ELSE {}) \cup Idles(s)
    [] ph = "cmd" -> { Op("before_statement", <<>>, s) }
    [] ph = "start" -> { Op("start", <<nt>>, s) } \cup (IF "none" \in Menu THEN { Op("after_statement", <<>>, s) } ELSE {})
    [] ph = "sr" -> { Op("enable_sr", <<UnitNo[Unit], FSize>>, s) }
    [] ph = "body" ->
         (IF "key" \in Menu /\ rows <= MaxRows THEN { Op("append_key", <<k>>, s) : k \in IF Tr THEN 1..6 ELSE {rows + 1, 1} } ELSE {})
         \cup (IF rows < MaxRows THEN { Op("after_row", <<b>>, s) : b \in (IF Tr THEN 0..9 ELSE 0..2) } ELSE {})
         \cup (IF "commit" \in Menu THEN { Op("before_commit", <<>>, s) } ELSE {})
         \cup (IF "open" \in Menu THEN { Op("after_statement", <<>>, s) } ELSE {})
         \cup (IF "2pc" \in Menu THEN { Op("before_prepare", <<>>, s) } ELSE {})
         \cup (IF "rollback" \in Menu \/ ("kill" \in Menu /\ x.ts = "must_abort") THEN { Op("before_rollback", <<>>, s) } ELSE {})
         \cup (IF "cfg" \in Menu THEN Cfgs(s) ELSE {})
    [] ph = "xid" -> { Op("assign_xid", <<t>>, s) : t \in {x.tid} \cup byx }
    [] ph = "xby" -> Byx(s, x)
    [] ph = "xaf" -> { Op("xaf", <<1, 0, 0>>, s) }
    [] ph = "xp" -> { Op("xaf", <<1, 1, 0>>, s) }
    [] ph \in {"xclr", "xclrc", "xoff", "xoffq"} -> { Op("xaf", <<0, 0, 0>>, s) }
    [] ph \in {"xrb", "xro"} -> { Op("xaf", <<0, 0, 1>>, s) }
    [] ph = "xprep" -> { Op(f, <<>>, s) : f \in {"before_commit", "before_rollback", "xa_detach"} }
    [] ph = "xquit" -> { Op("xa_detach", <<>>, s) }
    [] ph = "rb2x" -> { Op("after_rollback", <<>>, s) }
    \* the DBMS may notice the abort on its own
    [] ph = "prep" -> { Op("after_prepare", <<>>, s) }
                      \cup (IF "kill" \in Menu /\ x.ts = "must_abort" THEN { Op("before_rollback", <<>>, s) } ELSE {})
    [] ph = "prepd" -> { Op("before_commit", <<>>, s) }
                      \cup (IF "kill" \in Menu /\ x.ts = "must_abort" THEN { Op("before_rollback", <<>>, s) } ELSE {})
    [] ph = "bc" -> { Op("ordered_commit", <<>>, s) }
    [] ph = "oc" -> { Op("after_commit", <<>>, s) }
    [] ph = "err" -> { Op("before_rollback", <<>>, s), Op("after_statement", <<>>, s) }
    [] ph = "rb" -> { Op("before_rollback", <<>>, s) }
    [] ph = "rb2" -> { Op("after_rollback", <<>>, s) }
    [] ph = "stmt_end" -> { Op("after_statement", <<>>, s) }
    [] ph = "cmd_end" -> { Op("before_result", <<>>, s) }
    [] ph = "res" -> { Op("after_result", <<>>, s) }
    [] ph = "closed" -> { Op("cleanup", <<>>, s) } \cup Idles(s)
    [] ph = "end" -> IF "reopen" \in Menu /\ n < MaxCmd THEN { Op("open", <<>>, s) } ELSE {}
    [] OTHER -> {}

RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 2 ^ (i - 1) + Mask(S \ {i})
\* the thread which handles a view change
Vw == IF "view" \in Menu THEN {"v"} ELSE {}
Threads == Sess \cup Bfs \cup {"r"} \cup Vw
Wmt(h, t) == << h, t, 0 >>

(* --algorithm Session {
variables
  cur \in Kids(D.root),
  X = [s \in Sess |-> X0],
  lastp = [s \in Sess |-> Proj(s, X0)],
  lk = [l \in Sess \cup {"srv"} |-> ""],
  rv = [t \in Threads |-> 0],
  \* registers of the threads: session, call, arguments, local variables
  me = [t \in Threads |-> IF t \in Sess \cup Vw THEN t ELSE ""], fn = [t \in Threads |-> ""], ar = [t \in Threads |-> <<>>],
  frc = [t \in Threads |-> FALSE], aret = [t \in Threads |-> 0], fret = [t \in Threads |-> 0],
  fe = [t \in Threads |-> ""], cst = [t \in Threads |-> "ok"], fln = [t \in Threads |-> 0],
  todo = [t \in Threads |-> {}], rsr = [t \in Threads |-> FALSE], rst = [t \in Threads |-> ""],
  ent = [t \in Threads |-> ""], hn = [t \in Threads |-> 0], rid = [t \in Threads |-> 0], vid = [t \in Threads |-> 0], rto = [t \in Threads |-> FALSE], pto = [t \in Threads |-> FALSE],
  P = IF XRem THEN 1 :> [P0 EXCEPT !.xm = TRUE, !.prp = TRUE, !.fr = 1] ELSE <<>>, \* provider's ledger, by transaction id
  pseq = 0,                       \* last assigned seqno
  SC = {},                        \* streaming clients
  SA = IF XRem THEN {1} ELSE {},                        \* streaming appliers (transaction ids)
  SI = IF XRem THEN 1 :> [h |-> "hx", p |-> TRUE, fs |-> 1, fl |-> 0, xa |-> TRUE] ELSE <<>>,                      \* what is known of them: context, fragments, flags, external, prepared
  vic = {}, wid = 0,              \* view change: transactions to end, the one at hand
  Q = <<>>,                       \* queued rollback events
  nh = 0,                         \* high priority services created
  RQ = <<>>,                      \* sessions waiting for the background rollbacker
  halted = FALSE,                 \* emergency shutdown
  ph = [t \in Threads |-> "new"], cn = [s \in Sess |-> 0], rows = [s \in Sess |-> 0], ntrx = IF XRem THEN 2 ELSE 1, lt = [s \in Sess |-> 0];

define {
  CurEv == D.ev[cur[1]]
  CurIs(t, k, f) == cur[1] # 0 /\ CurEv.t = t /\ CurEv.k = k /\ CurEv.f = f
  May(t, cls, f) == IF Tr THEN { CurIs(t, "cb", f) } ELSE IF cls \in Faults THEN BOOLEAN ELSE {FALSE}
}

macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }
macro Ev(kk, ff, aa, ss) {
  if (Tr) { await cur[1] # 0 /\ CurEv = [t |-> self, k |-> kk, f |-> ff, a |-> aa, s |-> ss]; Adv() }
}
macro SegTr(xx) {
  if (Tr) {
    if (CurIs(self, "seg", me[self]) /\ << CurEv.a, CurEv.s >> = Proj(me[self], xx)) { lastp[me[self]] := Proj(me[self], xx); Adv() }
    else { await lastp[me[self]] = Proj(me[self], xx) }
  }
}
macro UnlockWait(xx) { \* release in a condition wait
  lk[me[self]] := "";
  if (Tr) { await CurIs(self, "seg", me[self]) /\ << CurEv.a, CurEv.s >> = Proj(me[self], xx); lastp[me[self]] := Proj(me[self], xx); Adv() }
}
macro Unlock(xx) { lk[me[self]] := ""; X[me[self]] := xx; SegTr(xx) }
macro Lock() { await lk[me[self]] = ""; lk[me[self]] := self }
macro SrvLock() { await lk["srv"] = ""; lk["srv"] := self }
macro SrvUnlock() { lk["srv"] := ""; if (Tr /\ CurIs(self, "seg", "srv")) { Adv() } }

\* ===================================================================== API
\* A call of the public interface: the call, its execution, its return.
procedure api() {
v_call:
  Ev("call", fn[self], ar[self], <<me[self]>>);
  if (self \in Sess /\ X[self].h # 0
      /\ (fn[self] \in {"close", "xa_detach"} \/ (fn[self] = "xaf" /\ ar[self][3] = 1) \/ (fn[self] = "before_rollback" /\ ph[self] = "xprep")
          \/ (fn[self] = "before_rollback" /\ ph[self] \in {"body", "rb"} /\ X[self].ts = "executing"))) {
    P[X[self].h] := [P[X[self].h] EXCEPT !.own = TRUE, !.res = IF fn[self] = "before_rollback" /\ ph[self] = "xprep" THEN "rollback" ELSE @]
  };
  if (fn[self] = "before_command") { X[me[self]].wr := 0 || X[me[self]].sr := 0 || X[me[self]].cl := 0 };
api2:
  if (fn[self] = "open") { call open() }
  else if (fn[self] = "close") { call close() }
  else if (fn[self] = "cleanup") { call cleanup() }
  else if (fn[self] = "before_command") { call before_command() }
  else if (fn[self] = "before_statement") { call before_statement() }
  else if (fn[self] = "after_statement") { call cs_after_statement() }
  else if (fn[self] = "before_result") { call before_result() }
  else if (fn[self] = "after_result") { call after_result() }
  else if (fn[self] = "start") { call start_transaction() }
  else if (fn[self] = "append_key") { call append_key() }
  else if (fn[self] = "on_sync") { call on_sync() }
  else if (fn[self] = "xaf") {
    if (X[me[self]].h # 0 /\ ar[self][2] = 1) { P[X[me[self]].h].prp := TRUE };
    X[me[self]].xe := ar[self][1] = 1 || X[me[self]].xp := ar[self][2] = 1 || X[me[self]].xr := ar[self][3] = 1
  }
  else if (fn[self] = "assign_xid") { X[me[self]].xa := TRUE || X[me[self]].xn := ar[self][1] }
  else if (fn[self] \in {"commit_by_xid", "rollback_by_xid"}) { call by_xid() }
  else if (fn[self] = "xa_detach") { call xa_detach() }
  else if (fn[self] = "xa_replay") { call cs_xa_replay() }
  else if (fn[self] = "probe") { await ~Tr \/ CurIs(self, "ret", "probe"); rv[self] := Mask(SA) }
  else if (fn[self] = "after_row") { call after_row() }
  else if (fn[self] = "enable_sr") { call enable_sr() }
  else if (fn[self] \in {"sr_params", "sr_off", "pa_unsafe", "implicit_deps"}) { X[me[self]] := Setting(X[me[self]], fn[self], ar[self]) }
  else if (fn[self] = "before_prepare") { call cs_before_prepare() }
  else if (fn[self] = "after_prepare") { call cs_after_prepare() }
  else if (fn[self] = "before_commit") { call before_commit() }
  else if (fn[self] = "ordered_commit") { call ordered_commit() }
  else if (fn[self] = "after_commit") { call after_commit() }
  else if (fn[self] = "before_rollback") { call before_rollback() }
  else if (fn[self] = "after_rollback") { call after_rollback() }
  else if (fn[self] = "acquire") { call acquire() }
  else if (fn[self] = "rollback_complete") { call rollback_complete() }
  else if (fn[self] \in {"bf_abort", "to_bf_abort"}) { call bf_abort() }
  else if (fn[self] = "on_view") { call on_view() }
  else { await FALSE };
v_ret:
  if (fn[self] \in {"bf_abort", "to_bf_abort", "on_view"}) { Ev("ret", fn[self], << rv[self] >>, <<me[self]>>) }
  else { Ev("ret", fn[self], Ret(me[self], rv[self], X), ps(me[self], X[me[self]])) };
  return;
}

\* ============================================================ client_state
procedure open() {
g_open:
  await lk[me[self]] = "";
  with (x = Err([X[me[self]] EXCEPT !.cs = "idle", !.own = self, !.ra = FALSE, !.lw = 0], "ok", "ok")) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure close() {
g_cl1:
  await lk[me[self]] = "" /\ (Tr \/ ~X[me[self]].ra);
  if (X[me[self]].mode = "local" /\ X[me[self]].ra) { UnlockWait(X[me[self]]); goto g_cl1 }
  else {
    with (x = [X[me[self]] EXCEPT !.cs = "quit", !.kce = FALSE, !.own = self,
                           !.bad = IF X[me[self]].cs = "idle" THEN @ ELSE "close"]) { Unlock(x) };
    if (X[me[self]].tid = 0 \/ (X[me[self]].mode = "local" /\ X[me[self]].xp)) { goto cl4 }
  };
cl2: call bf_rollback();
cl3: call after_statement();
cl4: if (X[me[self]].mode = "local") { X[me[self]].fz := 0 };
  rv[self] := 0;
  return;
}

procedure cleanup() {
g_cu: await lk[me[self]] = "";
  with (x = [X[me[self]] EXCEPT !.cs = "none"]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure before_command() {
k_bc1:
  await lk[me[self]] = "" /\ (Tr \/ ~X[me[self]].ra);
  if (X[me[self]].cs # "exec" /\ X[me[self]].ra) { goto g_bcw }
  else {
    lk[me[self]] := self;
    with (x = [X[me[self]] EXCEPT !.cs = "exec", !.own = self, !.kce = (ar[self][1] = 1)]) {
      if (Act(x) /\ x.ts \in {"must_abort", "aborted"}) {
        if (x.xa) { X[me[self]] := x; rv[self] := 1; goto g_bcend }
        else { X[me[self]] := Err(x, "deadlock", "ok"); if (x.ts = "aborted") { goto bc4 } }
      } else { X[me[self]] := x; rv[self] := 0; goto g_bcend }
    }
  };
g_bc2: with (x = X[me[self]]) { Unlock(x) };
bc3: call bf_rollback();
k_bc3: Lock();
bc4:
  if (X[me[self]].kce) { rv[self] := 0; goto g_bcend };
bc5: call as_locked();
bc6: rv[self] := 1;
g_bcend: with (x = X[me[self]]) { Unlock(x) };
  return;
g_bcw: UnlockWait(X[me[self]]);
  goto k_bc1;
}

procedure before_result() {
k_br1: Lock();
  if (~(Act(X[me[self]]) /\ X[me[self]].ts = "must_abort")) { goto g_br4 };
br2: call after_command_must_abort();
br3: if (~X[me[self]].kce) { call as_locked() };
g_br4: with (x = [X[me[self]] EXCEPT !.cs = "result"]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure after_result() {
k_ar1: Lock();
  if (Act(X[me[self]]) /\ X[me[self]].ts = "must_abort") { call after_command_must_abort() };
ar1b: if ((~Act(X[me[self]]) \/ X[me[self]].ts = "prepared") /\ ~X[me[self]].kce) { X[me[self]] := Err(X[me[self]], "ok", "ok") };
g_ar2: with (x = [X[me[self]] EXCEPT !.cs = "idle", !.kce = FALSE,
                              !.bad = IF X[me[self]].ts # "aborting" THEN @ ELSE "after_result"]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure before_statement() {
g_bs: await lk[me[self]] = "";
  rv[self] := B(Act(X[me[self]]) /\ X[me[self]].ts = "must_abort");
  with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure cs_after_statement() {
k_cas: Lock();
cas2: call as_locked();
g_cas3:
  rv[self] := B(X[me[self]].err = "deadlock");
  with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure start_transaction() {
k_st: Lock();
v_st2:
  Ev("cb", "start", <<ar[self][1]>>, <<>>);
  P := (ar[self][1] :> P0) @@ P;
  X[me[self]] := [X[me[self]] EXCEPT !.tid = ar[self][1], !.h = ar[self][1], !.ts = "executing", !.fl = FStart,
                       !.bad = IF ~Act(X[me[self]]) /\ X[me[self]].fl = 0 THEN @ ELSE "start"];
g_st3: with (x = X[me[self]]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure append_key() {
v_ak:
  with (r \in OneOf("key", 0, {1})) {
    Ev("cb", "key", << X[me[self]].h, ar[self][1], 3, 1, r >>, <<>>);
    rv[self] := r;
  };
  X[me[self]].keys := X[me[self]].keys \cup {ar[self][1]};
  return;
}

procedure enable_sr() {
es: if (Sr(X[me[self]]) /\ X[me[self]].fu # ar[self][1]) { rv[self] := 1 }
    else { X[me[self]].fu := ar[self][1] || X[me[self]].fz := ar[self][2]; rv[self] := 0 };
  return;
}

procedure after_row() {
arw1: X[me[self]].by := X[me[self]].by + ar[self][1];
  if (X[me[self]].fz = 0) { rv[self] := 0; return };
k_arw2: Lock();
  if (X[me[self]].fu = 2) { rv[self] := 0; goto g_arw4 };
arw3: frc[self] := FALSE; call streaming_step();
g_arw4: with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure cs_before_prepare() {
k_cbp: Lock();
cbp2: call before_prepare();
g_cbp3: with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure cs_after_prepare() {
k_cap: Lock();
cap2: call after_prepare();
g_cap3: with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure acquire() {
g_acq: await lk[me[self]] = "";
  with (x = [X[me[self]] EXCEPT !.own = self, !.bad = IF X[me[self]].cs = "idle" THEN @ ELSE "acquire"]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure rollback_complete() {
g_rc: await lk[me[self]] = "";
  with (x = [X[me[self]] EXCEPT !.ra = FALSE,
             !.bad = IF X[me[self]].cs = "idle" /\ X[me[self]].ts = "aborted" /\ X[me[self]].mode = "local" THEN @ ELSE "rollback_complete"]) { Unlock(x) };
  rv[self] := 0;
  return;
}

\* ============================================================= transaction
\* The *_locked procedures are entered and left with the session locked.
procedure before_prepare() {
bp1:
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1; return }
  else if (X[me[self]].mode = "high priority") {
    if (~(X[me[self]].xa /\ X[me[self]].ts = "replaying")) { X[me[self]] := St(X[me[self]], "preparing") };
    rv[self] := 0;
    return
  } else if (~Sr(X[me[self]])) { goto bp5 };
g_bp2: with (x = X[me[self]]) { Unlock(x) };
m_bp3: \* fragments are removed in the committing transaction
  with (na \in May(self, "allow", "notallowed")) {
    if (na) { Ev("cb", "notallowed", <<>>, <<me[self]>>); X[me[self]] := Err(X[me[self]], "commit", "notallowed"); rv[self] := 1 }
    else if (X[me[self]].xa) { rv[self] := 0 }
    else { with (r \in OneOf("rmf", 0, {1})) { Ev("cb", "rmf", <<r>>, <<me[self]>>); rv[self] := r; if (r = 1) { goto k_bp3b } } }
  };
k_bp4: Lock();
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1 }
  else if (rv[self] = 1) { X[me[self]] := St(X[me[self]], "must_abort") };
  goto bp5;
k_bp3b: Lock();
  if (X[me[self]].ts = "executing") { X[me[self]] := St(X[me[self]], "must_abort") };
g_bp3c: with (x = X[me[self]]) { Unlock(x) };
bp3d: X[me[self]] := Err(X[me[self]], "deadlock", "ok");
  goto k_bp4;
bp5:
  if (Sr(X[me[self]]) /\ rv[self] = 1) { return }
  else if (~X[me[self]].xa) { call certify_commit(); goto bp7 }
  else {
    X[me[self]] := [X[me[self]] EXCEPT !.fl = Or(Or(@, FPrepare), FPaUnsafe)];
    call append_sr_keys();
  };
bp6: frc[self] := TRUE; call streaming_step();
bp6b: if (rv[self] = 0) { X[me[self]] := St(X[me[self]], "preparing") };
bp7: return;
}

procedure after_prepare() {
ap1:
  if (X[me[self]].xa) {
    if (X[me[self]].ts = "preparing") { X[me[self]] := St(X[me[self]], "prepared"); rv[self] := 0 }
    else if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1 }
    else { rv[self] := 0 }
  } else if (X[me[self]].ts = "must_abort") { X[me[self]] := St(X[me[self]], "must_replay"); rv[self] := 1 }
  else { X[me[self]] := St(X[me[self]], "committing"); rv[self] := 0 };
  return;
}

procedure before_commit() {
k_bcm1: Lock();
  if (X[me[self]].mode = "local") {
    if (X[me[self]].ts = "executing") { goto bcm2 }
    else if (X[me[self]].ts \in {"committing", "prepared"}) { rv[self] := 0; goto bcm4 }
    else {
      if (X[me[self]].cert \/ Pb(X[me[self]])) { X[me[self]] := St(X[me[self]], "must_replay") }
      else { X[me[self]] := Err(X[me[self]], "deadlock", "ok") };
      rv[self] := 1; goto g_bcmend
    }
  } else {
    if (X[me[self]].xa) { X[me[self]] := St(X[me[self]], "committing"); rv[self] := 0; goto g_bcmh }
    else if (X[me[self]].ts \in {"executing", "replaying"}) { goto bcm2 }
    else { rv[self] := 0; goto g_bcmh }
  };
bcm2: call before_prepare();
bcm3: if (rv[self] = 0) { call after_prepare() };
bcm3b: if (X[me[self]].mode # "local") { goto g_bcmh };
bcm4: if (rv[self] = 0 /\ X[me[self]].ts = "prepared") { call certify_commit() };
bcm5: if (rv[self] # 0) { goto g_bcmend };
g_bcm6: with (x = X[me[self]]) { Unlock(x) };
v_bcm7: \* enter commit order
  with (p = P[X[me[self]].h],
        r \in IF p.certok /\ ~p.told THEN (IF p.bfed THEN {"bfabort"} ELSE OneOf("coe", "ok", {"bfabort"})) ELSE {"ok"}) {
    Ev("cb", "coe", << X[me[self]].h, X[me[self]].seq, 1 >>, <<r>>);
    P[X[me[self]].h] := [p EXCEPT !.entered = @ \/ r = "ok", !.told = @ \/ r # "ok", !.ne = @ + B(r = "ok")];
    rv[self] := B(r # "ok");
  };
k_bcm8: Lock();
  if (rv[self] = 1) {
    X[me[self]] := St(IF X[me[self]].ts # "must_abort" THEN St(X[me[self]], "must_abort") ELSE X[me[self]], "must_replay")
  };
g_bcmend:
  with (x = [X[me[self]] EXCEPT !.imm = @ \/ (rv[self] = 0 /\ X[me[self]].ts = "committing")]) { Unlock(x) };
  return;
\* high priority mode
g_bcmh: with (x = X[me[self]]) { Unlock(x) };
v_bcmh2:
  with (p = P[X[me[self]].h]) {
    Ev("cb", "coe", << X[me[self]].h, X[me[self]].seq, 1 >>, <<"ok">>);
    P[X[me[self]].h] := [p EXCEPT !.entered = TRUE, !.ne = @ + 1];
    rv[self] := 0;
  };
k_bcmh3: Lock(); goto g_bcmend;
}

procedure ordered_commit() {
k_oc1: Lock();
v_oc2: Ev("cb", "col", << X[me[self]].h, X[me[self]].seq, 1, 0, 0 >>, <<>>);
  P[X[me[self]].h].nl := P[X[me[self]].h].nl + 1;
  rv[self] := 0;
g_oc3: with (x = St(X[me[self]], "ordered_commit")) { Unlock(x) };
  return;
}

procedure after_commit() {
k_ac1: Lock();
  if (~Sr(X[me[self]])) { goto ac5 };
ac2: if (X[me[self]].xa) { call remove_fragments_in_scope() };
ac3: if (X[me[self]].mode # "local") { goto ac4b };
g_ac3: with (x = X[me[self]]) { Unlock(x) };
ac4: call stop_streaming_client();
k_ac4: Lock();
ac4b: X[me[self]] := SctxCleanup(X[me[self]]);
ac5: if (X[me[self]].mode # "local") { goto g_ac7 };
v_ac6: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
g_ac7: with (x = St(X[me[self]], "committed")) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure before_rollback() {
k_brb1: Lock();
  if (X[me[self]].mode # "local") {
    if (X[me[self]].ts # "aborting") { X[me[self]] := St(X[me[self]], "aborting") };
    goto g_brb4
  } else if (X[me[self]].ts = "must_replay") { goto g_brb4 }
  else if (X[me[self]].ts = "must_abort" /\ X[me[self]].cert) { X[me[self]] := St(X[me[self]], "must_replay"); goto g_brb4 }
  else if (X[me[self]].ts = "preparing") { X[me[self]] := St(X[me[self]], "must_abort") };
brb2: if (Sr(X[me[self]])) { call streaming_rollback() };
brb3: if (X[me[self]].ts # "aborting") { X[me[self]] := St(X[me[self]], "aborting") };
g_brb4: with (x = X[me[self]]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure after_rollback() {
k_arb1: Lock();
  if (Sr(X[me[self]]) /\ X[me[self]].to) { call remove_fragments_in_scope() };
arb2:
  if (X[me[self]].ts = "aborting") {
    X[me[self]] := St(IF Sr(X[me[self]]) THEN SctxCleanup(X[me[self]]) ELSE X[me[self]], "aborted")
  };
g_arb3: with (x = X[me[self]]) { Unlock(x) };
  rv[self] := 0;
  return;
}

procedure remove_fragments_in_scope() {
g_rfs1: with (x = X[me[self]]) { Unlock(x) };
v_rfs2: Ev("cb", "sto.new", <<>>, <<>>);
v_rfs3: Ev("cb", "sto.adopt", << X[me[self]].tid >>, <<>>);
v_rfs4: with (r \in OneOf("storm", 0, {1})) { Ev("cb", "sto.rmf", <<r>>, <<>>) };
v_rfs5: with (r \in OneOf("sto", 0, {1})) { Ev("cb", "sto.commit", <<0, 0, r>>, <<>>) };
v_rfs6: Ev("cb", "sto.del", <<>>, <<>>);
k_rfs7: Lock();
  return;
}

procedure after_statement() {
k_as: Lock();
as2: call as_locked();
g_as3: with (x = X[me[self]]) { Unlock(x) };
  return;
}

procedure as_locked() {
as_1: if (X[me[self]].ts = "executing" /\ X[me[self]].fz # 0 /\ X[me[self]].fu = 2) { frc[self] := FALSE; call streaming_step() }
      else { rv[self] := 0 };
as_2:
  aret[self] := rv[self];
  if (X[me[self]].ts = "must_abort" /\ Pb(X[me[self]])) { call after_command_must_abort(); goto as_7 }
  else if (X[me[self]].ts \in {"must_abort", "cert_failed"}) {
    if (X[me[self]].err = "ok") { X[me[self]] := Err(X[me[self]], "deadlock", "ok") }
  } else if (X[me[self]].ts = "must_replay") { goto as_5 }
  else {
    if (X[me[self]].ts = "aborted" /\ X[me[self]].bf /\ X[me[self]].err = "ok" /\ ~X[me[self]].xr) { X[me[self]] := Err(X[me[self]], "deadlock", "ok") };
    goto as_7
  };
g_as_3: with (x = X[me[self]]) { Unlock(x) };
as_3b: call bf_rollback();
k_as_4: Lock();
  aret[self] := rv[self];
  if (X[me[self]].ts # "must_replay") { goto as_7 };
as_5: if (X[me[self]].xa /\ ~Ord(X[me[self]])) { call xa_replay_commit() } else { call replay() };
as_6: aret[self] := rv[self];
as_7: if (X[me[self]].ts # "aborted") { goto as_12 }
      else if (~Ord(X[me[self]])) { goto g_as_11 };
\* release the commit order of a rolled back transaction
g_as_8: with (x = X[me[self]]) { Unlock(x) };
v_as_9:
  with (p = P[X[me[self]].h],
        r \in IF p.certok /\ ~p.told /\ p.bfed THEN {"bfabort"}
              ELSE IF p.certok /\ ~p.told THEN OneOf("coe", "ok", {"bfabort"}) ELSE {"ok"}) {
    Ev("cb", "coe", << X[me[self]].h, X[me[self]].seq, 1 >>, <<r>>);
    P[X[me[self]].h] := [p EXCEPT !.entered = @ \/ r = "ok", !.told = @ \/ r # "ok", !.ne = @ + B(r = "ok")];
    aret[self] := B(r # "ok");
    if (r # "ok") { goto k_as_10 }
  };
v_as_9b: Ev("cb", "setpos", << X[me[self]].seq >>, <<>>);
v_as_9c: Ev("cb", "col", << X[me[self]].h, X[me[self]].seq, 1, 0, 0 >>, <<>>);
  P[X[me[self]].h].nl := P[X[me[self]].h].nl + 1;
k_as_10: Lock();
g_as_11: with (x = X[me[self]]) { Unlock(x) };
v_as_11b: Ev("cb", "rel", << X[me[self]].h, B(X[me[self]].h # 0), 0 >>, <<>>);
k_as_11c: Lock();
as_12:
  if (X[me[self]].h # 0 /\ X[me[self]].ts # "executing") { P[X[me[self]].h].fin := X[me[self]].ts };
  with (x = IF X[me[self]].ts # "executing" /\ (~X[me[self]].xe \/ X[me[self]].cs = "quit") THEN TxCleanup(X[me[self]]) ELSE X[me[self]]) {
    X[me[self]] := [x EXCEPT !.fcs = 0, !.bad = IF aret[self] = 0 \/ x.ts = "aborted" THEN @ ELSE "after_statement"]
  };
  rv[self] := aret[self];
  return;
}

procedure after_command_must_abort() {
acm1: if (Pb(X[me[self]])) { X[me[self]] := St(X[me[self]], "must_replay") };
g_acm2: with (x = X[me[self]]) { Unlock(x) };
acm3: call bf_rollback();
k_acm4: Lock();
  if (Pb(X[me[self]])) { call xa_replay(); return }
  else { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); return };
}

\* ------------------------------------------------------------- streaming
procedure streaming_step() {
ss1:
  if (X[me[self]].by < X[me[self]].lp) { rv[self] := 1; return }
  else {
    with (n = X[me[self]].by - X[me[self]].lp,
          u = IF X[me[self]].fu = 0 THEN n ELSE X[me[self]].uc + 1) {
      if ((n > 0 /\ u >= X[me[self]].fz) \/ frc[self]) { X[me[self]].uc := 0 }
      else { X[me[self]].uc := u; rv[self] := 0; return }
    }
  };
ss2: call certify_fragment();
  return;
}

procedure certify_fragment() {
cf0:
  fret[self] := 0; fe[self] := ""; cst[self] := "ok"; fln[self] := 0;
cfw: call wait_for_replayers();
cf1:
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1; return }
  else if (X[me[self]].ts \in {"aborting", "aborted"}) { rv[self] := 1; return };
m_cf1b:
  with (i \in May(self, "int", "interrupted")) {
    if (i) {
      Ev("cb", "interrupted", <<>>, <<me[self]>>);
      X[me[self]] := Err(IF X[me[self]].ts # "prepared" THEN St(X[me[self]], "must_abort") ELSE X[me[self]], "interrupted", "ok");
      rv[self] := 1; return
    }
  };
g_cf2: with (x = St(X[me[self]], "certifying")) { Unlock(x) };
cf3: call send_pending();
cf4: if (rv[self] # 0) { fe[self] := "deadlock"; goto k_cffail };
v_cf5:
  with (r \in OneOf("pfrag", 0, {1, 2}), m = IF r = 2 THEN 0 ELSE IF X[me[self]].by = X[me[self]].lp /\ X[me[self]].xa THEN 1 ELSE X[me[self]].by - X[me[self]].lp) {
    Ev("cb", "pfrag", << r, m >>, <<me[self]>>);
    fln[self] := m;
    if (r = 1) { fe[self] := "commit"; goto k_cffail } else { X[me[self]].lp := X[me[self]].by; if (m = 0) { goto k_cfempty } }
  };
v_cf6:
  with (r \in OneOf("data", "ok", {"unknown"})) {
    Ev("cb", "data", << X[me[self]].h, 1, fln[self] >>, <<r>>);
    if (r # "ok") { fe[self] := "commit"; goto k_cffail }
    else if (~X[me[self]].xa) { goto cf8 }
  };
k_cf7: Lock(); \* external transactions: was it aborted meanwhile?
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1; return }
  else if (X[me[self]].ts \in {"aborting", "aborted"}) { rv[self] := 1; return };
m_cf7b:
  with (i \in May(self, "int", "interrupted")) {
    if (i) {
      Ev("cb", "interrupted", <<>>, <<me[self]>>);
      X[me[self]] := Err(St(X[me[self]], "must_abort"), "interrupted", "ok");
      rv[self] := 1; return
    }
  };
g_cf7c: with (x = X[me[self]]) { Unlock(x) };
cf8: if (X[me[self]].dep) { X[me[self]].fl := Or(X[me[self]].fl, FDeps) };
cf8b: if (~Sr(X[me[self]])) { call start_streaming_client() };
v_cf9: Ev("cb", "sto.new", <<>>, <<>>);
v_cf10:
  with (r \in OneOf("sto", 0, {1})) {
    Ev("cb", "sto.start", << X[me[self]].h, r >>, <<>>);
    if (r # 0) { fret[self] := 1; fe[self] := "append"; goto v_cf17 }
  };
v_cf11:
  with (r \in OneOf("sto", 0, {1})) {
    Ev("cb", "sto.append", << X[me[self]].tid, X[me[self]].fl, fln[self], 1, B(X[me[self]].xa), r >>, <<>>);
    if (r # 0) { fret[self] := 1; fe[self] := "append"; goto v_cfstorb }
  };
v_cf12:
  with (o \in CertOut(P[X[me[self]].h], FALSE)) {
    with (sn = IF o[2] THEN pseq + 1 ELSE 0) {
      Ev("cb", "certify", << X[me[self]].h, X[me[self]].fl, sn, 1, 0, 0 >>, << o[1] >>);
      if (sn # 0) { pseq := sn };
      P[X[me[self]].h] := [P[X[me[self]].h] EXCEPT !.seq = IF sn # 0 THEN sn ELSE @, !.fr = @ + B(o[1] = "ok")];
      cst[self] := o[1];
      fln[self] := sn;
      if (o[1] = "ok") { X[me[self]].fcs := X[me[self]].fcs + 1 || X[me[self]].fc := X[me[self]].fc + 1 }
      else { fret[self] := 1; fe[self] := IF o[1] = "size" THEN "size" ELSE "deadlock"; goto v_cfstorb }
    }
  };
v_cf13:
  with (r \in OneOf("sto", 0, {1})) {
    Ev("cb", "sto.meta", << X[me[self]].tid, fln[self], r >>, <<>>);
    if (r # 0) { fret[self] := 1; fe[self] := "deadlock"; goto v_cfstorb }
  };
v_cf14:
  with (r \in OneOf("sto", 0, {1})) {
    Ev("cb", "sto.commit", << X[me[self]].h, fln[self], r >>, <<>>);
    if (r # 0) { fret[self] := 1; fe[self] := "deadlock" } else { X[me[self]].fs := X[me[self]].fs + 1 }
  };
  goto v_cf17;
v_cfstorb:
  Ev("cb", "sto.rollback", << 0, 0 >>, <<>>);
  if (cst[self] \in {"bfabort", "certfail"}) { X[me[self]].fc := X[me[self]].fc + 1 };
v_cf17: Ev("cb", "sto.del", <<>>, <<>>);
  if (fret[self] # 0) { goto k_cf19 };
v_cf18: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
k_cf19: Lock();
  if (fret[self] # 0) {
    if (~Sr(X[me[self]])) { goto g_cf20 } else { call streaming_rollback(); goto cf22 }
  } else if (X[me[self]].ts = "must_abort") {
    if (Sr(X[me[self]])) { call streaming_rollback(); goto cf23 } else { goto cf23 }
  } else {
    X[me[self]] := [St(X[me[self]], "executing") EXCEPT !.fl = Clr(Clr(@, FStart), FPaUnsafe)];
    rv[self] := 0;
    return
  };
g_cf20: with (x = X[me[self]]) { Unlock(x) };
cf20b: call stop_streaming_client();
k_cf21: Lock();
cf22: X[me[self]] := Err(IF X[me[self]].ts # "must_abort" THEN St(X[me[self]], "must_abort") ELSE X[me[self]], fe[self], cst[self]);
  rv[self] := 1;
  return;
cf23: X[me[self]] := Err(X[me[self]], "deadlock", cst[self]);
  rv[self] := 1;
  return;
k_cfempty: Lock();
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); rv[self] := 1 }
  else { X[me[self]] := St(X[me[self]], "executing"); rv[self] := 0 };
  return;
k_cffail: Lock();
  with (x = IF X[me[self]].ts = "must_abort" THEN X[me[self]] ELSE St(X[me[self]], "must_abort")) {
    X[me[self]] := IF fe[self] = "" THEN x ELSE Err(x, fe[self], "ok")
  };
  rv[self] := 1;
  return;
}

procedure certify_commit() {
ccw: call wait_for_replayers();
cc1:
  if (X[me[self]].ts = "must_abort") { X[me[self]] := Err(X[me[self]], "deadlock", "ok"); goto ccint }
  else if (X[me[self]].ts \in {"aborting", "aborted"}) { goto ccint };
m_cc1b:
  with (i \in May(self, "int", "interrupted")) {
    if (i) {
      Ev("cb", "interrupted", <<>>, <<me[self]>>);
      X[me[self]] := Err(IF X[me[self]].ts # "prepared" THEN St(X[me[self]], "must_abort") ELSE X[me[self]], "interrupted", "ok");
      goto ccint
    }
  };
g_cc2: with (x = St(X[me[self]], "certifying")) { Unlock(x) };
cc3: call send_pending();
cc4: if (rv[self] # 0 /\ ~X[me[self]].xa) { fe[self] := "deadlock"; goto k_ccfail }
     else if (Sr(X[me[self]])) {
       if (X[me[self]].xa) { X[me[self]].fl := Or(X[me[self]].fl, FPaUnsafe); goto cc5 }
       else { call append_sr_keys() }
     } else { goto cc5 };
cc4b: if (rv[self] # 0) { fe[self] := "append"; goto k_ccfail } else { X[me[self]].fl := Or(X[me[self]].fl, FPaUnsafe) };
cc5: X[me[self]].fl := Clr(Or(IF X[me[self]].dep THEN Or(X[me[self]].fl, FDeps) ELSE X[me[self]].fl, FCommit), FPrepare);
v_cc6:
  with (r \in OneOf("pdata", 0, {1})) {
    Ev("cb", "pdata", <<r>>, <<me[self]>>);
    if (r # 0) { goto k_ccsize }
  };
v_cc7:
  with (o \in CertOut(P[X[me[self]].h], TRUE)) {
    with (sn = IF o[2] THEN pseq + 1 ELSE 0) {
      Ev("cb", "certify", << X[me[self]].h, X[me[self]].fl, sn, 1, 0, 0 >>, << o[1] >>);
      if (sn # 0) { pseq := sn; X[me[self]].seq := sn };
      P[X[me[self]].h] := [P[X[me[self]].h] EXCEPT !.certok = o[1] = "ok", !.ord = sn # 0, !.may = o[1] \in {"ok", "bfabort"}, !.seq = IF sn # 0 THEN sn ELSE @,
                                     !.res = IF X[me[self]].xa /\ sn # 0 THEN "commit" ELSE @, !.nres = @ + B(X[me[self]].xa /\ sn # 0)];
      rv[self] := o[1];
    }
  };
k_cc8: Lock();
  with (x = X[me[self]], st = rv[self],
        ma = IF x.ts = "must_abort" THEN x ELSE St(x, "must_abort")) {
    rv[self] := B(~(st = "ok" /\ x.ts # "must_abort"));
    if (st = "ok") {
      with (y = [x EXCEPT !.cert = TRUE, !.fcs = @ + 1]) {
        if (y.ts = "must_abort") { X[me[self]] := St(y, "must_replay") }
        else { X[me[self]] := St(y, IF y.xa THEN "committing" ELSE "preparing") }
      }
    } else if (st = "bfabort") { X[me[self]] := St(ma, "must_replay") }
    else if (st = "certfail") { X[me[self]] := Err(St(x, "cert_failed"), "deadlock", "ok") }
    else if (st = "conn") {
      if (x.ts = "must_abort") { X[me[self]] := IF x.xa THEN St(x, "must_replay") ELSE Err(x, "deadlock", "ok") }
      else { X[me[self]] := Err(St(x, IF x.xa THEN "prepared" ELSE "must_abort"), "commit", "conn") }
    } else {
      X[me[self]] := Err(ma, "commit", st);
      if (st = "fatal") { goto v_ccfatal }
    }
  };
ccret: return;
v_ccfatal: Ev("cb", "emergency", <<>>, <<me[self]>>);
  halted := TRUE;
cch: await FALSE;
k_ccsize: Lock();
  X[me[self]] := Err(IF X[me[self]].ts = "must_abort" THEN X[me[self]] ELSE St(X[me[self]], "must_abort"), "size", "size");
  rv[self] := 1;
  return;
k_ccfail: Lock();
  X[me[self]] := Err(IF X[me[self]].ts = "must_abort" THEN X[me[self]] ELSE St(X[me[self]], "must_abort"), fe[self], "ok");
  rv[self] := 1;
  return;
ccint:
  if (X[me[self]].xa /\ X[me[self]].ts = "must_abort") { X[me[self]] := St(X[me[self]], "must_replay") };
  rv[self] := 1;
  return;
}

procedure append_sr_keys() {
asr1: todo[self] := X[me[self]].keys; rv[self] := 0;
v_asr2:
  if (todo[self] # {}) {
    with (k = CHOOSE k \in todo[self] : \A j \in todo[self] : k <= j, r \in OneOf("key", 0, {1})) {
      Ev("cb", "key", << X[me[self]].h, k, 0, 1, r >>, <<>>);
      todo[self] := IF r = 0 THEN todo[self] \ {k} ELSE {};
      rv[self] := r
    };
    goto v_asr2
  } else { return };
}

procedure streaming_rollback() {
sr1: rid[self] := X[me[self]].tid;
  if (~X[me[self]].rip) { goto sr3 };
g_sr2: with (x = X[me[self]]) { Unlock(x) };
k_sr2b: await lk[me[self]] = "" /\ ~X[me[self]].rip; lk[me[self]] := self;
  \* the other thread finished and the transaction is gone
  if (~Sr(X[me[self]]) \/ X[me[self]].tid # rid[self]) { return };
sr3:
  X[me[self]].rip := TRUE;
  if (X[me[self]].rb) { goto sr9 };
g_sr4: rto[self] := X[me[self]].to;
  with (x = X[me[self]]) { Unlock(x) };
sr5: if (rto[self]) { call stop_streaming_client(); goto k_sr8 } else { call convert() };
k_sr6: Lock();
v_sr7:
  with (r \in OneOf("rbk", "ok", {"conn"})) {
    Ev("cb", "rbk", << X[me[self]].tid >>, <<r>>);
    if (r = "ok") { P[X[me[self]].tid].rb := P[X[me[self]].tid].rb + 1; goto sr8b }
  };
g_sr7b: with (x = X[me[self]]) { Unlock(x) };
k_sr7c: await lk["srv"] = "";
  Q := Append(Q, X[me[self]].tid);
  SrvUnlock();
k_sr8: Lock();
sr8b: X[me[self]].rb := TRUE;
sr9: X[me[self]].rip := FALSE;
  return;
}

procedure start_streaming_client() {
k_ssc: await lk["srv"] = "";
  if (me[self] \in SC) { X[me[self]].bad := "start_streaming_client" };
  SC := SC \cup {me[self]};
  SrvUnlock();
  return;
}
procedure stop_streaming_client() {
k_xsc: await lk["srv"] = "";
  if (me[self] \notin SC) { X[me[self]].bad := "stop_streaming_client" };
  SC := SC \ {me[self]};
  SrvUnlock();
  return;
}
procedure convert() {
v_cv1: nh := nh + 1; hn[self] := nh;
  Ev("cb", "hps.new", <<>>, << "h" \o ToString(hn[self]) >>);
k_cv2: SrvLock();
  if (me[self] \notin SC) { X[me[self]].bad := "convert" };
  SC := SC \ {me[self]};
v_cv3:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.adopt", << X[me[self]].tid, X[me[self]].fs, X[me[self]].fl, B(X[me[self]].xa), r >>, << "h" \o ToString(hn[self]) >>);
    if (r = 0) {
      with (p = X[me[self]].xa /\ X[me[self]].xp) {
        SI := (X[me[self]].tid :> [h |-> "h" \o ToString(hn[self]), fs |-> X[me[self]].fs, fl |-> IF p THEN Clr(X[me[self]].fl, FStart) ELSE X[me[self]].fl, xa |-> X[me[self]].xa, p |-> p]) @@ SI
      };
      SA := SA \cup { X[me[self]].tid }; goto s_cv6
    } else { P[X[me[self]].tid].lost := TRUE }
  };
v_cv4: Ev("cb", "h.after", <<>>, << "h" \o ToString(hn[self]) >>);
v_cv5: Ev("cb", "hps.del", <<>>, << "h" \o ToString(hn[self]) >>);
s_cv6: SrvUnlock();
  return;
}
\* The provider reports that the node is synced with the group (again).
procedure on_sync() {
os1: call send_pending();
os2: rv[self] := 0; return;
}

procedure send_pending() {
k_sp1: SrvLock();
sp2: if (Q = <<>>) { rv[self] := 0; goto s_sp4 };
v_sp3:
  with (r \in OneOf("rbk", "ok", {"conn"})) {
    Ev("cb", "rbk", << Head(Q) >>, <<r>>);
    if (r = "ok") { P[Head(Q)].rb := P[Head(Q)].rb + 1; Q := Tail(Q); goto sp2 } else { rv[self] := 1 }
  };
s_sp4: SrvUnlock();
  return;
}

\* ---------------------------------------------------------------- replay
procedure replay() {
g_rp1:
  rsr[self] := Sr(X[me[self]]);
  with (x = St(X[me[self]], "replaying")) { Unlock(x) };
v_rp2:
  with (r \in OneOf("replay", "ok", IF Tr THEN {"certfail", "unknown", "conn", "bfabort", "missing"} ELSE {"certfail", "unknown"})) {
    Ev("cb", "replay", <<>>, << me[self], r >>);
    rst[self] := r;
    P[X[me[self]].h] := [P[X[me[self]].h] EXCEPT !.rp = @ + 1, !.ro = r];
    X[me[self]] := [X[me[self]] EXCEPT !.sr = @ + 1, !.xe = @ /\ r # "ok", !.xp = @ /\ r # "ok"];
  };
rp3: if (rsr[self]) { call stop_streaming_client() };
k_rp4: Lock();
  if (rst[self] = "ok") {
    with (x = IF X[me[self]].ts = "replaying" THEN St(X[me[self]], "committed") ELSE X[me[self]]) {
      X[me[self]] := IF Sr(x) THEN SctxCleanup(x) ELSE x
    };
    goto v_rp6
  } else if (rst[self] = "certfail") {
    X[me[self]] := Err(X[me[self]], "deadlock", "ok");
    if (Sr(X[me[self]])) { goto g_rp7 } else { goto rp9 }
  };
v_rp5: Ev("cb", "emergency", <<>>, <<me[self]>>);
  halted := TRUE;
rph: await FALSE;
v_rp6: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
  rv[self] := 0;
  return;
g_rp7: with (x = X[me[self]]) { Unlock(x) };
v_rp8: with (r \in OneOf("rmf", 0, {1})) { Ev("cb", "rmf", <<r>>, <<me[self]>>) };
k_rp8b: Lock();
  X[me[self]] := SctxCleanup(X[me[self]]);
rp9: X[me[self]] := St(X[me[self]], "aborted");
  rv[self] := 1;
  return;
}

\* A prepared transaction is handed over to a streaming applier.
procedure xa_replay_common() {
g_xr1: with (x = St(X[me[self]], "replaying")) { Unlock(x) };
xr2: call convert();
v_xr3:
  with (r \in OneOf("xreplay", "ok", IF Tr THEN {"unknown", "conn", "certfail"} ELSE {"unknown"})) {
    Ev("cb", "replay_unordered", <<>>, << me[self], r >>);
    rst[self] := r;
  };
k_xr4: Lock();
  P[X[me[self]].h].xm := TRUE;
  if (rst[self] = "ok") { return };
v_xr5: Ev("cb", "emergency", <<>>, <<me[self]>>);
  halted := TRUE;
xrh: await FALSE;
}

procedure xa_replay() {
xra1: call xa_replay_common();
v_xra2: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
  P[X[me[self]].h].fin := "aborted";
  with (x = TxCleanup(SctxCleanup(St(X[me[self]], "aborted")))) { X[me[self]] := [x EXCEPT !.sr = @ + 1] };
  rv[self] := 0;
  return;
}

procedure cs_xa_replay() {
k_cxr: Lock();
cxr2: call xa_replay();
g_cxr3: with (x = X[me[self]]) { Unlock(x) };
  return;
}

\* The interrupted commit of a prepared transaction is finished by its
\* external id; if that fails, it stays prepared in the streaming applier.
procedure xa_replay_commit() {
xrc1: call xa_replay_common();
g_xrc2: with (x = X[me[self]]) { Unlock(x) };
v_xrc3:
  with (r \in OneOf("cbx", "ok", {"conn"})) {
    Ev("cb", "commit_by_xid", <<>>, << me[self], r >>);
    rst[self] := r;
    if (r = "ok") { P[X[me[self]].h] := [P[X[me[self]].h] EXCEPT !.res = "commit", !.nres = @ + 1, !.xc = TRUE] }
  };
k_xrc4: Lock();
v_xrc5: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
  P[X[me[self]].h].fin := IF rst[self] = "ok" THEN "committed" ELSE "aborted";
  with (x = TxCleanup(SctxCleanup(St(X[me[self]], IF rst[self] = "ok" THEN "committed" ELSE "aborted")))) {
    X[me[self]] := [Err(x, IF rst[self] = "ok" THEN "ok" ELSE "commit", IF rst[self] = "ok" THEN x.est ELSE rst[self]) EXCEPT !.sr = @ + 1]
  };
  rv[self] := B(rst[self] # "ok");
  return;
}

procedure xa_detach() {
k_xd1: Lock();
  if (X[me[self]].ts = "must_abort" /\ Pb(X[me[self]])) { call after_command_must_abort(); goto g_xd5 }
  else if (X[me[self]].ts # "prepared") { goto v_xd4 };
g_xd2: with (x = X[me[self]]) { Unlock(x) };
xd3: call convert();
k_xd3: Lock();
  X[me[self]].cl := X[me[self]].cl + 1;
  P[X[me[self]].h].xm := TRUE;
v_xd4:
  Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
  P[X[me[self]].h].fin := "aborted";
  with (x = St(St(SctxCleanup(X[me[self]]), "aborting"), "aborted")) { X[me[self]] := TxCleanup(x) };
g_xd5: with (x = X[me[self]]) { Unlock(x) };
  rv[self] := 0;
  return;
}

\* Another transaction replicates the end of a prepared one.
procedure by_xid() {
k_bx1: Lock();
v_bx2:
  with (t = ar[self][1], fl = IF fn[self] = "commit_by_xid" THEN FCommit + FPaUnsafe ELSE FRollback + FPaUnsafe,
        o \in (IF P[X[me[self]].h].bfed THEN { <<"bfabort", FALSE>> } ELSE { <<"ok", TRUE>> } \cup (IF Tr \/ "cert" \in Faults THEN { <<"bfabort", FALSE>> } ELSE {}))
              \cup (IF Tr \/ "cert" \in Faults THEN { <<"conn", FALSE>> } ELSE {})) {
    with (sn = IF o[2] THEN pseq + 1 ELSE 0) {
      Ev("cb", "certify", << X[me[self]].h, fl, sn, 1, 0, t >>, << o[1] >>);
      if (sn # 0) { pseq := sn };
      if (o[1] = "ok") {
        P[t] := [P[t] EXCEPT !.res = IF fn[self] = "commit_by_xid" THEN "commit" ELSE "rollback", !.nres = @ + 1]
           || P[X[me[self]].h] := [P[X[me[self]].h] EXCEPT !.bx = TRUE, !.own = TRUE];
        with (x = [X[me[self]] EXCEPT !.fl = fl]) {
          X[me[self]] := IF fn[self] = "commit_by_xid" THEN St(St(St(x, "certifying"), "committing"), "committed")
                         ELSE St(St(x, "aborting"), "aborted")
        };
        rv[self] := 0;
        if (fn[self] = "rollback_by_xid") { goto g_bx4 }
      } else {
        X[me[self]] := Err([X[me[self]] EXCEPT !.fl = fl], "commit", o[1]);
        rv[self] := 1;
        goto g_bx4
      }
    }
  };
v_bx3: Ev("cb", "rel", << X[me[self]].h, 1, 0 >>, <<>>);
g_bx4: with (x = X[me[self]]) { Unlock(x) };
  return;
}

\* The session may have to wait until running replays have finished.
procedure wait_for_replayers() {
m_wfr:
  with (i \in May(self, "wfr", "wfr")) {
    if (i) { Ev("cb", "wfr", <<>>, <<me[self]>>) } else { return }
  };
g_wfr2: with (x = X[me[self]]) { Unlock(x) };
k_wfr3: Lock();
  return;
}

\* ------------------------------------------------------------- BF aborts
procedure bf_abort() {
k_bf1: Lock();
  pto[self] := X[me[self]].to;
  if (fn[self] = "to_bf_abort") { X[me[self]].to := TRUE };
  rv[self] := 0;
bf2:
  ent[self] := X[me[self]].ts;
  vid[self] := X[me[self]].tid;
  if (~Act(X[me[self]]) \/ X[me[self]].imm \/ X[me[self]].ts \notin {"executing", "preparing", "prepared", "certifying", "committing"}) { goto bf9 };
v_bf3:
  with (p = P[X[me[self]].tid], r \in IF p.entered THEN {"notallowed"} ELSE OneOf("bf", "ok", {"notallowed"})) {
    Ev("cb", "bf", << X[me[self]].tid, ar[self][1] >>, <<r>>);
    if (r = "ok") {
      P[X[me[self]].tid] := [p EXCEPT !.bfed = TRUE, !.to = @ \/ fn[self] = "to_bf_abort",
                                      !.late = @ \/ X[me[self]].ts \in {"ordered_commit", "committed"}];
      X[me[self]] := [St(X[me[self]], "must_abort") EXCEPT !.bf = TRUE, !.bs = X[me[self]].ts];
      rv[self] := 1;
    } else { goto bf9 }
  };
bf4: if (X[me[self]].mode = "local" /\ Sr(X[me[self]]) /\ ent[self] = "executing") { call streaming_rollback() };
bf5:
  rv[self] := 1;
  if (X[me[self]].tid # vid[self] \/ X[me[self]].ts # "must_abort") { goto g_bf10 };
bf5b:
  if (X[me[self]].cs = "idle" /\ ~Async) {
    if (X[me[self]].xa /\ ent[self] = "prepared") { X[me[self]] := [St(X[me[self]], "must_replay") EXCEPT !.ra = TRUE] }
    else { X[me[self]] := [St(X[me[self]], "aborting") EXCEPT !.ra = TRUE] }
  } else { goto g_bf10 };
v_bf6: Ev("cb", "bgrb", <<>>, <<me[self]>>);
  RQ := Append(RQ, me[self]);
  goto g_bf10;
bf9: if (fn[self] = "to_bf_abort") { X[me[self]].to := pto[self] };
g_bf10: with (x = X[me[self]]) { Unlock(x) };
  return;
}

\* ---------------------------------------------------------- view change
\* Two consecutive primary views of the same members: streaming transactions
\* which are not prepared are rolled back, those of sessions first.
procedure on_view() {
k_ov1: SrvLock();
  vic := { X[s].tid : s \in { s \in SC : X[s].ts # "prepared" } } \cup { t \in SA : ~SI[t].p };
s_ov2:
  with (c = { s \in SC : X[s].ts # "prepared" }) {
    if (c = {}) { goto v_ov6 }
    else { with (s \in c) { me[self] := s; wid := X[s].tid; SrvUnlock() } }
  };
ov3: fn[self] := "to_bf_abort"; ar[self] := <<7>>; call bf_abort();
k_ov4: await lk["srv"] = "" /\ (Tr \/ ~(me[self] \in SC /\ X[me[self]].tid = wid));
  if (me[self] \in SC /\ X[me[self]].tid = wid) { await CurIs(self, "seg", "srv"); Adv(); goto k_ov4 }
  else { lk["srv"] := self; me[self] := self; fn[self] := "on_view"; ar[self] := <<>>; goto s_ov2 };
v_ov6:
  if ({ t \in SA : ~SI[t].p } = {}) { goto s_ov14 }
  else {
    with (t \in IF Tr THEN { t \in SA : ~SI[t].p /\ CurIs(self, "cb", "h.adopt") /\ CurEv.a[1] = t } ELSE { t \in SA : ~SI[t].p }, r \in OneOf("hps", 0, {1})) {
      Ev("cb", "h.adopt", << t, SI[t].fs, SI[t].fl, B(SI[t].xa), r >>, << "v" >>);
      aret[self] := r; wid := t;
      P[t].lost := P[t].lost \/ r = 1;
    }
  };
v_ov7: Ev("cb", "h.rollback", Wmt(0, 0), << SI[wid].h >>);
v_ov8: Ev("cb", "h.after", <<>>, << SI[wid].h >>);
v_ov9: Ev("cb", "hps.del", <<>>, << SI[wid].h >>); SA := SA \ {wid};
s_ov10: SrvUnlock();
  if (aret[self] = 1) { goto v_ov13 };
v_ov11:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.rmf", << wid, 0, r >>, << "v" >>);
    if (r = 1) { P[wid].lost := TRUE; goto v_ov12b }
  };
v_ov12:
  with (r \in OneOf("hps", 0, {1})) {
    Ev("cb", "h.commit", << wid, wid, 0, r >>, << "v" >>);
    if (r = 0) { goto v_ov13 } else { P[wid].lost := TRUE }
  };
v_ov12b: Ev("cb", "h.rollback", Wmt(wid, wid), << "v" >>);
v_ov13: Ev("cb", "h.after", <<>>, << "v" >>);
k_ov13: SrvLock(); goto v_ov6;
s_ov14: SrvUnlock();
v_ov15: Ev("cb", "log_view", << 1, 7 >>, <<>>);
  \* all of them are gone
  if (~(vic \cap { X[s].tid : s \in { s \in SC : ~X[s].xa } } = {} /\ vic \cap { t \in SA : ~SI[t].p } = {})) { X[CHOOSE s \in Sess : TRUE].bad := "on_view" };
  vic := {}; wid := 0; rv[self] := 0;
  return;
}

\* ------------------------------------------------ callbacks of the DBMS
procedure bf_rollback() {
v_bfr1: Ev("cb", "bf_rollback", <<>>, <<me[self]>>);
  if (X[me[self]].ts = "aborted") { rv[self] := 0; return };
v_bfr2: Ev("call", "before_rollback", <<>>, <<me[self]>>);
bfr3: call before_rollback();
v_bfr4: Ev("ret", "before_rollback", Ret(me[self], rv[self], X), ps(me[self], X[me[self]]));
  if (rv[self] # 0) { return };
v_bfr5: Ev("call", "after_rollback", <<>>, <<me[self]>>);
bfr6: call after_rollback();
v_bfr7: Ev("ret", "after_rollback", Ret(me[self], rv[self], X), ps(me[self], X[me[self]]));
  return;
}

\* ================================================================= threads
fair process (th \in Threads) {
main:
  while (ph[self] # "end" \/ (self \in Sess /\ "reopen" \in Menu /\ cn[self] < MaxCmd)) {
    if (self \in Sess) {
      with (op \in ClientOps(self, ph[self], X[self], cn[self], ntrx, rows[self], { t \in SA : P[t].xm /\ P[t].res = "" })) {
        await ~Tr \/ (CurIs(self, "call", op.f) /\ CurEv.a = op.a);
        fn[self] := op.f;
        ar[self] := op.a;
        if (op.f = "before_command") { cn[self] := cn[self] + 1 };
        if (op.f = "start") { lt[self] := ntrx; ntrx := ntrx + 1; X[self].by := 0 };
        if (op.f = "before_statement") { rows[self] := 0 } else if (op.f = "after_row") { rows[self] := rows[self] + 1 };
      }
    } else if (self \in Bfs) {
      with (op \in { Op(k, <<100>>, v) : k \in To, v \in Sess }) {
        await ~Tr \/ (CurIs(self, "call", op.f) /\ CurEv.s = << op.s >>);
        fn[self] := op.f;
        ar[self] := op.a;
        me[self] := op.s;
      }
    } else if (self \in Vw) { fn[self] := "on_view"; ar[self] := <<7>> }
    else { \* the background rollbacker
      await RQ # <<>>;
      fn[self] := CASE ph[self] = "new" -> "acquire" [] ph[self] = "acq" /\ X[Head(RQ)].ts = "must_replay" -> "xa_replay"
                    [] ph[self] = "acq" -> "before_rollback"
                    [] ph[self] = "rb" -> "after_rollback" [] OTHER -> "rollback_complete";
      ar[self] := <<>>;
      me[self] := Head(RQ);
      if (ph[self] = "rb2") { RQ := Tail(RQ) };
    };
invoke:
    call api();
after:
    if (self \in Sess) { ph[self] := NextPhase(ph[self], fn[self], ar[self], rv[self], X[self]) }
    else if (self \in Bfs \cup Vw) { ph[self] := "end" }
    else { ph[self] := CASE ph[self] = "new" -> "acq" [] fn[self] = "xa_replay" -> "rb2" [] ph[self] = "acq" -> "rb" [] ph[self] = "rb" -> "rb2" [] OTHER -> "new" };
    \* registers are dead between calls
    fn[self] := ""; ar[self] := <<>>; rv[self] := 0; frc[self] := FALSE; aret[self] := 0; fret[self] := 0;
    fe[self] := ""; cst[self] := "ok"; fln[self] := 0; todo[self] := {}; rsr[self] := FALSE; rst[self] := "";
    ent[self] := ""; rid[self] := 0; vid[self] := 0; rto[self] := FALSE; pto[self] := FALSE;
  }
}
} *)
=============================================================================
