------------------------------- MODULE Pause -------------------------------
(***************************************************************************)
(* Pausing and desyncing the provider: pause/resume, desync/resync, both in  *)
(* one go, and rolling schema upgrades, by any number of concurrent users.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Users, Menu, MaxOps, Faults
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
OneOf(cls, ok, bad) == IF Tr \/ cls \in Faults THEN {ok} \cup bad ELSE {ok}
Seq7 == 7
\* what a user calls after f returned r, "" when it is done
Follow(prog, f, r) ==
  CASE prog = "pause" -> IF f = "pause" /\ r = Seq7 THEN "resume" ELSE ""
    [] prog = "desync" -> IF f = "desync" /\ r = 0 THEN "resync" ELSE ""
    [] prog = "both" -> IF f = "desync_and_pause" /\ r = Seq7 THEN "resume_and_resync" ELSE ""
    [] prog = "rsu" -> IF f = "begin_rsu" /\ r = 0 THEN "end_rsu" ELSE ""
    [] OTHER -> IF f = "desync" /\ r = 0 THEN "pause" ELSE IF f = "pause" /\ r = Seq7 THEN "resume" ELSE IF f \in {"pause", "resume"} THEN "resync" ELSE ""
First(prog) == CASE prog = "both" -> "desync_and_pause" [] prog = "rsu" -> "begin_rsu" [] prog = "sep" -> "desync" [] OTHER -> prog

(* --algorithm Pause {
variables
  cur \in Kids(D.root),
  busy = FALSE,                          \* somebody pauses or has paused
  dop = FALSE,                           \* the holder's pause came with a desync
  mode = [u \in Users |-> "local"],
  rv = [u \in Users |-> 0], ex = [u \in Users |-> FALSE], dok = [u \in Users |-> FALSE],
  fn = [u \in Users |-> ""], prog = [u \in Users |-> ""], left = [u \in Users |-> MaxOps],
  \* history
  paused = {},                           \* who has the provider paused
  own = [u \in Users |-> 0],             \* desyncs which were not undone
  badpause = FALSE, badresume = FALSE, badresync = FALSE, lostresume = FALSE;

define {
  CurEv == D.ev[cur[1]]
  Is(t, k, f) == cur[1] # 0 /\ CurEv.t = t /\ CurEv.k = k /\ CurEv.f = f
}
macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }
macro Ev(kk, ff, aa, s1) {
  if (Tr) { await cur[1] # 0 /\ CurEv = [t |-> self, k |-> kk, f |-> ff, a |-> aa, s |-> s1]; Adv() }
}
procedure desync() {
de1: with (r \in OneOf("desync", 0, {1})) {
       Ev("cb", "desync", <<r>>, <<>>);
       if (r = 0) { own[self] := own[self] + 1 };
       rv[self] := r };
     return;
}
procedure resync() {
rs1: with (r \in OneOf("resync", 0, {1})) {
       Ev("cb", "resync", <<r>>, <<>>);
       badresync := badresync \/ own[self] = 0;
       own[self] := own[self] - 1;
       rv[self] := IF r = 0 THEN 0 ELSE 99; ex[self] := r # 0 };
     return;
}
procedure pause() {
k_pa: await Tr \/ ~busy; badpause := badpause \/ busy; busy := TRUE; Ev("cb", "pausing", <<>>, <<>>);
pa1:  with (r \in OneOf("pause", Seq7, {0})) {
        Ev("cb", "pause", <<r>>, <<>>);
        badpause := badpause \/ paused # {};
        if (r # 0) { paused := paused \cup {self} };
        rv[self] := r; if (r = 0) { busy := FALSE } };
      return;
}
procedure resume() {
re1: with (r \in OneOf("resume", 0, {1})) {
       Ev("cb", "resume", <<r>>, <<>>);
       badresume := badresume \/ self \notin paused;
       rv[self] := IF r = 0 THEN 0 ELSE 99; ex[self] := r # 0;
       if (r = 0) { paused := paused \ {self}; busy := FALSE } else { lostresume := TRUE } };
     return;
}
procedure desync_and_pause() {
dp1: call desync();
dp2: dok[self] := rv[self] = 0; call pause();
dp3: if (rv[self] # 0) { dop := dok[self]; return };
dp4: if (dok[self]) { call resync() } else { return };
dp5: if (~ex[self]) { rv[self] := 0 }; return;
}
procedure resume_and_resync() {
rr1: dok[self] := dop; dop := FALSE; call resume();
rr2: if (~ex[self] /\ dok[self]) { call resync() };
rr3: rv[self] := 0; ex[self] := FALSE; return;
}
procedure begin_rsu() {
br1: call desync();
br2: if (rv[self] # 0) { rv[self] := 1; return };
br3: with (r \in OneOf("wct", 0, {1})) { Ev("cb", "waitcommit", <<r>>, <<>>); if (r # 0) { goto br6 } };
br4: call pause();
br5: if (rv[self] # 0) { mode[self] := "rsu"; rv[self] := 0; return };
br6: call resync();
br7: if (~ex[self]) { rv[self] := 1 }; return;
}
procedure end_rsu() {
er1: call resume();
er2: if (~ex[self]) { call resync() };
er3: rv[self] := IF ex[self] THEN 1 ELSE 0; ex[self] := FALSE; mode[self] := "local"; return;
}
process (th \in Users) {
main:
  while (TRUE) {
    if (Tr) { await cur[1] # 0 /\ CurEv.t = self /\ CurEv.k = "call"; fn[self] := CurEv.f; Adv() }
    else if (fn[self] # "") { skip }
    else { await left[self] > 0 /\ ~lostresume; left[self] := left[self] - 1; with (m \in Menu) { prog[self] := m; fn[self] := First(m) } };
    ex[self] := FALSE;
disp:
    if (fn[self] = "pause") { call pause() }
    else if (fn[self] = "resume") { call resume() }
    else if (fn[self] = "desync") { call desync() }
    else if (fn[self] = "resync") { call resync() }
    else if (fn[self] = "desync_and_pause") { call desync_and_pause() }
    else if (fn[self] = "resume_and_resync") { call resume_and_resync() }
    else if (fn[self] = "begin_rsu") { call begin_rsu() }
    else { call end_rsu() };
v_ret:
    if (Tr) { await Is(self, "ret", fn[self]) /\ CurEv.a[1] = rv[self] /\ CurEv.s = <<mode[self]>>
                    /\ (self \in paused /\ fn[self] \in {"pause", "desync_and_pause"} => CurEv.a[2] = (IF dop THEN 1 ELSE 0)); Adv() }
    else { fn[self] := Follow(prog[self], fn[self], rv[self]) }
  }
}
} *)
=============================================================================
