-------------------------------- MODULE Toi --------------------------------
(***************************************************************************)
(* Total order isolation and non-blocking operations of a session, isolated  *)
(* operations of an applier, and the positions a session reports.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Tr, Menu, MaxOps, MaxTry
D == IF Tr THEN JsonDeserialize(IOEnv.DAG) ELSE [root |-> 1, ev |-> <<>>, kids |-> << <<>> >>]
Kids(n) == IF Len(D.kids[n]) = 0 THEN { <<0, 0>> } ELSE { D.kids[n][i] : i \in 1..Len(D.kids[n]) }
Ss == {"s1", "h1"}
Base == 10
FStart == 1
FCommit == 2
Status == {"ok", "certfail", "conn", "provider", "notallowed", "unknown", "size"}
Retry == {"certfail", "conn"}
\* answers of the provider: status, whether a position was obtained, whether
\* the deadline (if any) has passed and the session was interrupted meanwhile
Answers == [st : Status, ord : BOOLEAN, late : BOOLEAN, intr : BOOLEAN]
B(b) == IF b THEN 1 ELSE 0

(* --algorithm Toi {
variables
  cur \in Kids(D.root),
  gpos = Base,                                  \* last position in the total order
  mode = [x \in Ss |-> IF x = "s1" THEN "local" ELSE "high priority"],
  tmode = [x \in Ss |-> "undefined"],
  tpos = [x \in Ss |-> 0],                      \* position of the isolated operation in progress
  npos = 0,                                     \* position of phase one
  lw = [x \in Ss |-> 0], sw = 0,                \* reported write and read positions
  err = "ok", est = "ok", cmd = FALSE, ta = FALSE,  \* ta: in a transaction
  sid = "s1", fn = "", arg = 0, rv = 0, tries = 0,
  pst = "ok", plate = FALSE, pintr = FALSE, pord = 0,
  left = MaxOps, nxt = "",
  \* history
  held = {},                                    \* positions entered and not left, by s1
  badleave = FALSE, badretry = FALSE, lastpos = [x \in Ss |-> 0], waited = 0, nbo = 0;

define {
  CurEv == D.ev[cur[1]]
  Is(k, f) == cur[1] # 0 /\ CurEv.k = k /\ CurEv.f = f
}
macro Adv() { with (edge \in Kids(cur[2])) { cur := edge } }

\* enter isolation, trying again after a conflict or connection failure
procedure poll(fl = 0, inp = 0, buf = 0) {
po1: with (a \in Answers) {
       await (a.st = "ok" => a.ord) /\ (a.ord => a.st \in {"ok", "certfail"}) /\ (arg = 0 => a.late) /\ (Tr \/ tries < MaxTry);
       if (Tr) {
         await Is("cb", "enter_toi") /\ CurEv.a = << fl, inp, IF a.ord THEN gpos + 1 ELSE 0, 1, buf, B(a.late), B(a.intr) >> /\ CurEv.s = << a.st >>;
         Adv();
       };
       badretry := badretry \/ (tries > 0 /\ (pst \notin Retry \/ plate \/ pintr));
       tries := tries + 1;
       pst := a.st; plate := a.late; pintr := a.intr;
       pord := IF a.ord THEN gpos + 1 ELSE 0;
       if (a.ord) { gpos := gpos + 1; held := held \cup {gpos} };
     };
     if (pst # "ok" /\ pord # 0) { call leave(pord, 0) };
po2: if (pst \in Retry /\ ~plate /\ ~pintr /\ (Tr \/ tries < MaxTry)) { goto po1 };
pox: return;
}
procedure leave(lpos = 0, le = 0) {
le1: with (r \in {"ok", "unknown"}) {
       if (Tr) { await Is("cb", "leave_toi") /\ CurEv.a = << lpos, le >> /\ CurEv.s = << r >>; Adv() };
       badleave := badleave \/ lpos \notin held;
       held := held \ {lpos};
       rv := IF r = "ok" THEN 0 ELSE 1;
       if (fn \in {"nbo_end1", "nbo_end2"} /\ r # "ok") { err := "commit"; est := r };
     };
     return;
}
procedure enter_toi() {
et1: call poll(FStart + FCommit, 0, 1);
et2: rv := B(pst # "ok");
     if (pst = "ok") { tmode["s1"] := mode["s1"]; mode["s1"] := "toi"; tpos["s1"] := pord }
     else if (pst = "certfail") { err := "deadlock"; est := pst }
     else if (plate) { err := "timeout"; est := "ok" }
     else { err := "commit"; est := pst };
     return;
}
procedure leave_toi() {
lt1: call leave(tpos["s1"], arg);
lt2: mode["s1"] := tmode["s1"]; tmode["s1"] := "undefined"; lw["s1"] := tpos["s1"]; lastpos["s1"] := tpos["s1"]; tpos["s1"] := 0;
     return;
}
procedure nbo_begin1() {
nb1: call poll(FStart, 0, 1);
nb2: rv := B(pst # "ok");
     if (pst = "ok") { tmode["s1"] := mode["s1"]; mode["s1"] := "nbo"; tpos["s1"] := pord; nbo := pord }
     else if (pst = "certfail") { err := "deadlock"; est := pst }
     else if (plate) { err := "timeout"; est := "ok" }
     else { err := "commit"; est := pst };
     return;
}
procedure nbo_end1() {
ne1: call leave(tpos["s1"], arg);
ne2: npos := tpos["s1"]; tpos["s1"] := 0; tmode["s1"] := "undefined"; return;
}
procedure nbo_begin2() {
ns1: call poll(FCommit, npos, 0);
ns2: rv := B(pst # "ok");
     if (pst = "ok") { tpos["s1"] := pord; tmode["s1"] := "local" }
     else {
       if (pst = "provider") { err := "interrupted"; est := pst }
       else if (plate) { err := "timeout"; est := pst }
       else { err := "commit"; est := pst };
       mode["s1"] := "local"; npos := 0; nbo := 0
     };
     return;
}
procedure nbo_end2() {
nd1: call leave(tpos["s1"], arg);
nd2: tpos["s1"] := 0; tmode["s1"] := "undefined"; npos := 0; nbo := 0; mode["s1"] := "local"; return;
}
procedure sync_wait() {
sy1: with (r \in {"ok", "notimpl", "missing", "conn"}) {
       if (Tr) { await Is("cb", "causal") /\ CurEv.a = << 7, IF r = "ok" THEN gpos ELSE 0 >> /\ CurEv.s = << r >>; Adv() };
       if (r = "ok") { sw := gpos; waited := gpos; rv := 0 }
       else { rv := 1; err := IF r = "notimpl" THEN "notsup" ELSE "timeout"; est := "ok" };
     };
     return;
}
process (th = "s1") {
main:
  while (TRUE) {
    rv := 0; tries := 0;
    if (Tr) {
      await cur[1] # 0 /\ CurEv.k = "call";
      fn := CurEv.f; sid := CurEv.s[1]; arg := IF Len(CurEv.a) > 0 THEN CurEv.a[1] ELSE 0;
      Adv();
    } else if (~cmd) { await ta \/ left > 0; left := IF ta THEN left ELSE left - 1; fn := "command"; sid := "s1" }
    else if (nxt # "") {
      fn := nxt; nxt := ""; sid := IF fn = "hp_leave" THEN "h1" ELSE "s1";
      with (x \in IF fn = "hp_leave" THEN {0} ELSE {0, 1}) { arg := x }
    }
    else if (ta /\ fn \in {"command", "sync_wait"}) {
      with (m \in IF fn = "command" THEN {"sync_wait", "end"} ELSE {"sync_wait", "end", "result"}) { fn := m }; sid := "s1"
    }
    else if (fn = "command") {
      with (m \in Menu) { fn := m };
      with (x \in {0, 1}) { arg := IF fn \in {"nbo_mode", "hp_enter", "trx"} THEN gpos + 1 ELSE x };
      sid := IF fn = "hp_enter" THEN "h1" ELSE "s1"
    }
    else { fn := IF fn = "result" THEN "finish" ELSE "result"; sid := "s1" };
disp:
    if (fn = "enter_toi") { call enter_toi() }
    else if (fn = "leave_toi") { call leave_toi() }
    else if (fn = "nbo_begin1") { call nbo_begin1() }
    else if (fn = "nbo_end1") { call nbo_end1() }
    else if (fn = "nbo_begin2") { call nbo_begin2() }
    else if (fn = "nbo_end2") { call nbo_end2() }
    else if (fn = "sync_wait") { call sync_wait() }
    else if (fn = "nbo_mode") { mode["s1"] := "nbo"; gpos := arg; npos := arg; nbo := arg }
    else if (fn = "hp_enter") { tmode["h1"] := mode["h1"]; mode["h1"] := "toi"; tpos["h1"] := arg; gpos := arg }
    else if (fn = "hp_leave") { mode["h1"] := tmode["h1"]; tmode["h1"] := "undefined"; lw["h1"] := tpos["h1"]; lastpos["h1"] := tpos["h1"]; tpos["h1"] := 0 }
    else if (fn = "trx") { await arg = gpos + 1; gpos := arg; lw["s1"] := arg; lastpos["s1"] := arg }
    else if (fn = "reopen") { lw["s1"] := 0; lastpos["s1"] := 0; sw := 0; waited := 0; err := "ok"; est := "ok" }
    else if (fn = "begin") { ta := TRUE }
    else if (fn = "end") { ta := FALSE }
    else if (fn = "finish") {
      \* an error stays with an open transaction
      if (~ta) { err := "ok"; est := "ok" };
      sw := 0; waited := 0; cmd := FALSE }
    else if (fn = "command") { cmd := TRUE };
v_ret:
    if (Tr) {
      await Is("ret", fn) /\ CurEv.a = << rv, B(tpos[sid] # 0), tpos[sid], lw[sid], IF sid = "s1" THEN sw ELSE 0 >>
                          /\ CurEv.s = << mode[sid], tmode[sid], IF sid = "s1" THEN err ELSE "ok", IF sid = "s1" THEN est ELSE "ok" >>;
      Adv();
    } else {
      nxt := CASE fn = "enter_toi" /\ rv = 0 -> "leave_toi"
               [] fn = "nbo_begin1" /\ rv = 0 -> "nbo_end1"
               [] fn \in {"nbo_end1", "nbo_mode"} -> "nbo_begin2"
               [] fn = "nbo_begin2" /\ rv = 0 -> "nbo_end2"
               [] fn = "hp_enter" -> "hp_leave"
               [] fn = "begin" -> "sync_wait"
               [] OTHER -> ""
    }
  }
}
} *)
=============================================================================
