------------------------------ MODULE Reporter ------------------------------
(***************************************************************************)
(* The status report file.  A report is << state, comment, progress, errors, *)
(* warnings, events >>; messages and documents are numbered.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Thr, Max, MaxOps, Msgs, Faults
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
Indef == 0
Steady == 1
Text == [ discd |-> <<"DISCONNECTED", "Disconnected">>, dinit |-> <<"DISCONNECTED", "Initializing">>, dconn |-> <<"DISCONNECTED", "Connecting">>,
          wait |-> <<"CONNECTED", "Waiting">>, jinitd |-> <<"JOINING", "Receiving state">>, jsst |-> <<"JOINING", "Receiving SST">>,
          jinit |-> <<"JOINING", "Initializing">>, jist |-> <<"JOINING", "Receiving IST">>, joined |-> <<"JOINED", "Syncing">>,
          synced |-> <<"SYNCED", "Operational">>, donor |-> <<"DONOR", "Donating SST">>, discing |-> <<"DISCONNECTING", "Disconnecting">> ]
\* the part of the state shown to the user for each part of the state graph
Sub(sub, ini, s) ==
  CASE s = "disconnected" -> "discd"
    [] s = "initializing" -> IF sub = "discd" THEN "dinit" ELSE IF sub = "jinitd" THEN "jinitd" ELSE "jinit"
    [] s = "initialized" -> IF sub \in {"discd", "dinit"} THEN "dconn" ELSE IF sub = "jinitd" THEN "jinitd" ELSE "jist"
    [] s = "connected" -> "wait"
    [] s = "joiner" -> IF ini THEN "jinitd" ELSE "jsst"
    [] s = "joined" -> "joined"
    [] s = "donor" -> "donor"
    [] s = "synced" -> "synced"
    [] OTHER -> "discing"
Succ == [ disconnected |-> {"initializing", "connected"}, initializing |-> {"disconnected", "initialized", "disconnecting"},
          initialized |-> {"disconnected", "connected", "joined", "disconnecting"}, connected |-> {"disconnected", "joiner", "synced", "disconnecting"},
          joiner |-> {"disconnected", "initializing", "joined", "disconnecting"}, joined |-> {"disconnected", "connected", "donor", "synced", "disconnecting"},
          donor |-> {"disconnected", "connected", "joined", "disconnecting"}, synced |-> {"disconnected", "connected", "joined", "donor", "disconnecting"},
          disconnecting |-> {"disconnected"} ]
\* the newest Max elements
Keep(q) == IF Len(q) > Max THEN SubSeq(q, Len(q) - Max + 1, Len(q)) ELSE q
M0 == [sub |-> "discd", ini |-> FALSE, prog |-> Indef, err |-> <<>>, warn |-> <<>>, evs |-> <<>>]
Last(q) == IF Len(q) = 0 THEN -1 ELSE q[Len(q)]
\* effect of a report: << new content, is it written >>
Do(m, f, a, s) ==
  CASE f = "new" -> << m, TRUE >>
    [] f = "state" -> LET n == Sub(m.sub, m.ini, s)
                          i == IF s = "disconnected" THEN FALSE ELSE IF s = "initialized" THEN TRUE ELSE m.ini IN
                      IF n = m.sub THEN << [m EXCEPT !.ini = i], FALSE >>
                      ELSE << [m EXCEPT !.ini = i, !.sub = n, !.prog = IF n = "synced" THEN Steady ELSE Indef], TRUE >>
    [] f = "progress" -> IF a = m.prog \/ m.sub = "synced" THEN << m, FALSE >> ELSE << [m EXCEPT !.prog = a], TRUE >>
    [] f = "event" -> << [m EXCEPT !.evs = Keep(Append(@, a))], TRUE >>
    [] s = "error" -> IF Last(m.err) = a THEN << m, FALSE >> ELSE << [m EXCEPT !.err = Keep(Append(@, a))], TRUE >>
    [] OTHER -> IF Last(m.warn) = a THEN << m, FALSE >> ELSE << [m EXCEPT !.warn = Keep(Append(@, a))], TRUE >>
Show(m) == << Text[m.sub], m.prog, m.err, m.warn, m.evs >>
Nums(m) == << m.prog, Len(m.err) >> \o m.err \o << Len(m.warn) >> \o m.warn \o << Len(m.evs) >> \o m.evs

(* --algorithm Reporter {
variables
  cur \in Kids(D.root),
  mem = M0,                     \* what was reported
  file = << >>,                 \* what the file shows, <<>> when there is none
  lk = "", st = "disconnected", up = FALSE,
  fn = [t \in Thr |-> ""], arg = [t \in Thr |-> 0], txt = [t \in Thr |-> ""],
  left = [t \in Thr |-> MaxOps],
  wr = FALSE, flt = FALSE,
  \* history
  sent = [error |-> <<>>, warning |-> <<>>],   \* messages reported, latest duplicates removed
  failed = FALSE;

define {
  CurEv == D.ev[cur[1]]
  Is(t, k, f) == cur[1] # 0 /\ CurEv.t = t /\ CurEv.k = k /\ CurEv.f = f
}
macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }
process (th \in Thr) {
main:
  while (TRUE) {
    if (Tr) {
      await cur[1] # 0 /\ CurEv.t = self /\ CurEv.k = "call";
      fn[self] := CurEv.f; arg[self] := IF Len(CurEv.a) > 0 THEN CurEv.a[1] ELSE 0; txt[self] := IF Len(CurEv.s) > 0 THEN CurEv.s[1] ELSE "";
      Adv();
    } else if (~up) { up := TRUE; fn[self] := "new" }
    else {
      await left[self] > 0; left[self] := left[self] - 1;
      either { with (s \in Succ[st]) { st := s; txt[self] := s; fn[self] := "state" } }
      or { with (p \in {1, 2}) { arg[self] := p }; fn[self] := "progress" }
      or { arg[self] := 3; fn[self] := "event" }
      or { with (x \in Msgs, l \in {"error", "warning"}) { arg[self] := x; txt[self] := l }; fn[self] := "log" }
    };
\* everything happens with the reporter locked
k_do: await lk = "" /\ (Tr => cur[1] # 0 /\ CurEv.t = self);
    lk := self; flt := FALSE;
    wr := Do(mem, fn[self], arg[self], txt[self])[2];
    mem := Do(mem, fn[self], arg[self], txt[self])[1];
    if (fn[self] = "log" /\ Last(sent[txt[self]]) # arg[self]) { sent[txt[self]] := Append(@, arg[self]) };
k_io: while (Tr /\ Is(self, "cb", "iofault")) { await wr; flt := TRUE; Adv() };
    if (Tr /\ Is(self, "file", "report")) {
      await wr /\ CurEv.s = Text[mem.sub] /\ CurEv.a = Nums(mem);
      file := Show(mem); Adv();
    } else if (~Tr /\ wr) { either { file := Show(mem) } or { await "io" \in Faults; flt := TRUE } };
    failed := IF wr THEN flt /\ (file # Show(mem)) ELSE failed;
\* without failure the file is up to date now
k_un: if (Tr /\ Is(self, "seg", "rep")) { Adv() };
    await ~wr \/ flt \/ file = Show(mem);
    lk := "";
v_ret:
    if (Tr) { await Is(self, "ret", fn[self]) /\ CurEv.a = <<0>>; Adv() }
  }
}
} *)
=============================================================================
