"""What each check runs: recorded suites (real code -> trace validation),
model-checking configurations, and their assignment to properties."""

# ---------------------------------------------------------------- Session
UNITS = {-1: "off", 0: "bytes", 1: "row", 2: "statement"}
ALLF = ["key", "coe", "cert", "allow", "rmf", "storm", "sto", "int", "pfrag", "data", "pdata", "rbk", "hps", "replay", "bf", "xreplay", "cbx", "wfr"]

def tset(xs): return "{" + ", ".join('"%s"' % x for x in xs) + "}"
def tb(b): return "TRUE" if b else "FALSE"

def session_consts(a):
    return dict(Sess=tset(["s%d" % (i + 1) for i in range(a.get("sess", 1))]), Bfs=tset(["b1", "b2"]), Async=tb(a.get("rm_async")), MaxCmd=a.get("cmds", 2) * a.get("lives", 1),
                Menu=tset(["none", "key", "commit", "open", "2pc", "rollback", "sync"] + [k for k in ("kill", "cfg") + (("reopen",) if a.get("lives") else ()) if a.get(k) or k == "reopen"] + (["xa"] if a.get("xa") else []) + (["xrem"] if a.get("xrem") else []) + (["view"] if a.get("view") else [])), MaxRows=a.get("rows", 0), Keep="TRUE",
                To=tset(["bf_abort", "to_bf_abort"]), Faults=tset(ALLF), Unit='"%s"' % UNITS[a.get("unit", -1)], FSize=a.get("size", 0))

def S(name, args, sched=2, fault=1, mx=20000, tmx=None, random=0, suite="session", module="Session", consts=session_consts):
    return dict(name=name, suite=suite, args=args, sched=sched, fault=fault, max=mx, tmax=tmx or mx * 12, random=random,
                module=module, consts=consts)

SUITES = {s["name"]: s for s in [
    S("trx1", dict(cmds=1, rows=0, bfs=1, to=1, maynot=1), sched=9, fault=2),
    S("trx2", dict(cmds=2, rows=0, bfs=1, to=1), sched=2, fault=1),
    S("keep", dict(cmds=2, rows=0, bfs=1, keep=1, menu=7), sched=1, fault=1),
    S("trx1b2", dict(cmds=1, rows=0, bfs=2, to=1), sched=3, fault=1),
    S("trxerr", dict(cmds=1, rows=0, bfs=1, f_cert=2), sched=2, fault=2),
    S("trx2a", dict(cmds=2, rows=0, bfs=1, rm_async=1, menu=3), sched=3, fault=1),
    S("trx2ab2", dict(cmds=2, rows=0, bfs=2, rm_async=1, menu=3), sched=3, fault=1),
    S("rows", dict(cmds=1, rows=2, unit=1, size=1, bfs=1, to=1, zero=1), sched=2, fault=1),
    S("rowsc2", dict(cmds=2, rows=1, unit=1, size=1, bfs=1, to=1, menu=11), sched=2, fault=1),
    S("rows2", dict(cmds=1, rows=3, unit=1, size=2, bfs=1, to=1), sched=2, fault=1),
    S("bytes", dict(cmds=1, rows=2, unit=0, size=3, bfs=1, zero=1, nbytes=3), sched=1, fault=1),
    S("stmts", dict(cmds=3, rows=1, unit=2, size=2, bfs=1, menu=3), sched=1, fault=1),
    S("stmt1", dict(cmds=2, rows=1, unit=2, size=1, bfs=1, to=1, menu=7), sched=2, fault=1),
    S("rowsa", dict(cmds=2, rows=1, unit=1, size=1, bfs=1, to=1, rm_async=1, menu=3), sched=3, fault=1),
    S("rowserr", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, f_cert=2), sched=2, fault=2),
    S("rbkq", dict(cmds=2, rows=1, unit=1, size=1, bfs=0, probe=1, menu=9, faults=0, f_rbk=3, f_cert=1), sched=0, fault=1),
    S("rowsp", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, to=1, probe=1), sched=2, fault=1),
    S("xa2", dict(xa=1, cmds=2, rows=0, bfs=1, f_pdata=0), sched=2, fault=1),
    S("xa2a", dict(xa=1, cmds=2, rows=0, bfs=1, f_pdata=0, rm_async=1), sched=2, fault=1),
    S("xa3", dict(xa=1, cmds=3, rows=0, bfs=1, f_pdata=0, menu=1, probe=1), sched=1, fault=1, mx=12000),
    S("xasr", dict(xa=1, cmds=2, rows=1, unit=1, size=1, bfs=1, f_pdata=0, menu=7), sched=1, fault=1, mx=12000),
    S("xasra", dict(xa=1, cmds=2, rows=1, unit=1, size=1, bfs=1, f_pdata=0, rm_async=1, faults=0, f_bf=0, f_cert=0), sched=3, fault=1, mx=12000),
    S("xawfr", dict(xa=1, cmds=2, rows=0, bfs=1, f_pdata=0, wfr=1, menu=3, faults=0, f_bf=0, f_cert=1), sched=2, fault=1),
    S("wfr", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, to=1, wfr=1, faults=0, f_cert=1), sched=2, fault=1),
    S("vw", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, view=1, faults=0, f_bf=0, menu=11, yield_commit=0), sched=3, fault=1),
    S("vwa", dict(cmds=2, rows=1, unit=1, size=1, bfs=0, view=1, rm_async=1, faults=0, f_bf=0, menu=3), sched=3, fault=1),
    S("vwc2", dict(cmds=2, rows=1, unit=1, size=1, bfs=0, view=1, f_bf=0, menu=11), sched=2, fault=1),
    S("vwf", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, view=1, f_bf=0, menu=11), sched=2, fault=1),
    S("vwxa", dict(xa=1, cmds=2, rows=1, unit=1, size=1, bfs=0, view=1, faults=0, f_bf=0, f_pdata=0, menu=1), sched=3, fault=1),
    S("toleak", dict(cmds=2, rows=1, unit=1, size=1, bfs=1, to=2, menu=9, keys=0, faults=0, f_bf=0), sched=2, fault=0, mx=10000),
    S("bfleak", dict(cmds=2, rows=1, unit=1, size=1, bfs=2, to=1, menu=9, keys=0, faults=0, f_bf=0, yield_commit=0), sched=2, fault=0, mx=10000),
    S("rowsaf", dict(cmds=1, rows=2, unit=1, size=1, bfs=0, rm_async=1, menu=11), sched=0, fault=2, mx=10000),
    S("rbkq2", dict(cmds=2, rows=1, unit=1, size=1, bfs=0, probe=1, menu=9, keys=0, faults=0, f_rbk=1), sched=0, fault=3, mx=10000),
    S("two", dict(sess=2, cmds=1, rows=0, bfs=1, to=1, menu=13), sched=2, fault=1, mx=10000),
    S("twosr", dict(sess=2, cmds=1, rows=1, unit=1, size=1, bfs=1, to=1, menu=9), sched=2, fault=1, mx=12000),
    S("twoq", dict(sess=2, full=1, cmds=1, rows=1, unit=1, size=1, bfs=0, menu=8, keys=0, probe=1, close=0, faults=0, f_rbk=3), sched=1, fault=0, mx=12000),
    S("twoc", dict(sess=2, coarse=1, full=1, cmds=1, rows=1, unit=1, size=1, bfs=0, menu=9, keys=0, close=0, faults=0, f_rbk=3), sched=0, fault=0, mx=60000),
    S("twoxa", dict(sess=2, xa=1, cmds=1, rows=0, bfs=0, f_pdata=0, faults=0), sched=2, fault=0, mx=10000),
    S("czsr", dict(coarse=1, cmds=2, full=1, rows=1, unit=1, size=1, bfs=2, to=1, menu=11, faults=0, f_bf=0), sched=0, fault=0, mx=60000),
    S("cz2sr", dict(coarse=1, sess=2, cmds=1, full=1, rows=1, unit=1, size=1, bfs=1, to=1, menu=11, faults=0, f_bf=0), sched=0, fault=0, mx=60000),
    S("czxa", dict(coarse=1, xa=1, cmds=3, rows=0, bfs=1, faults=0, f_bf=0, f_pdata=0), sched=0, fault=0, mx=60000),
    S("twof", dict(sess=2, coarse=1, full=1, cmds=1, rows=2, unit=1, size=1, bfs=0, menu=8, keys=0, close=0, faults=0, f_rbk=3), sched=0, fault=0, mx=61000),
    S("xarem", dict(xa=1, xrem=1, cmds=2, rows=0, bfs=1, f_pdata=0), sched=1, fault=1, mx=12000),
    S("xarbk", dict(xa=1, cmds=4, rows=0, bfs=0, menu=1, faults=0, f_bf=0, f_pdata=0, f_rbk=1), sched=0, fault=3, mx=12000),
    S("xarb2", dict(sess=2, xa=1, cmds=2, rows=0, bfs=0, menu=1, close=0, keys=0, faults=0, f_bf=0, f_pdata=0, f_cert=0, f_rbk=1), sched=1, fault=2, mx=12000),
    S("ulr", dict(cmds=2, rows=0, bfs=1, menu=2, ulk=1, close=0, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("xato", dict(xa=1, cmds=2, rows=0, bfs=1, to=2, f_pdata=0), sched=2, fault=0, mx=12000),
    S("xatoa", dict(xa=1, cmds=2, rows=0, bfs=1, to=2, f_pdata=0, rm_async=1), sched=2, fault=0, mx=12000),
    S("spa", dict(cmds=2, rows=1, unit=1, size=1, bfs=1, to=1, menu=3, spur=1, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("spt", dict(cmds=2, rows=0, bfs=1, to=1, menu=3, spur=1, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("ult", dict(cmds=1, rows=0, bfs=1, to=1, ulk=1, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("uls", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, to=1, ulk=1, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("ula", dict(cmds=2, rows=1, unit=1, size=1, bfs=1, to=1, menu=3, ulk=1, faults=0, f_bf=0), sched=2, fault=0, mx=12000),
    S("life", dict(cmds=1, rows=0, bfs=1, lives=2, menu=3), sched=2, fault=1, mx=10000),
    S("lifesr", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, lives=2, menu=3, faults=0), sched=1, fault=1, mx=10000),
    S("trxk", dict(cmds=1, rows=0, bfs=1, to=1, kill=1, menu=5), sched=9, fault=1),
    S("rowsk", dict(cmds=1, rows=1, unit=1, size=1, bfs=1, kill=1, menu=5), sched=2, fault=1, mx=10000),
    S("cfg", dict(cmds=2, rows=0, bfs=1, cfg=3, menu=3), sched=1, fault=1, mx=8000),
    S("cfgsr", dict(cmds=2, rows=2, unit=1, size=1, unit2=0, cfg=31, bfs=0, menu=11), sched=0, fault=1, mx=8000),
    S("cfgst", dict(cmds=3, rows=1, unit=1, size=2, unit2=2, size2=2, cfg=28, bfs=0, menu=3, faults=0), sched=0, fault=1, mx=8000),
    S("rowsb2", dict(cmds=1, rows=1, unit=1, size=1, bfs=2, to=1, menu=11), sched=3, fault=1),
]}

# ------------------------------------------------------------------ Apply
def menu(*b): return sum(1 << x for x in b)
def apply_consts(a): return dict(Ops="<- TrOps", MaxOps=99, Tids="{}", Faults="{}", TwoPC=tb(a.get("hp2pc")))
def A(name, args, fault=2, mx=30000): return S(name, args, sched=0, fault=fault, mx=mx, suite="apply", module="Apply", consts=apply_consts)
for s in [
    A("ap2", dict(ops=2, f_hrb=1), mx=20000),
    A("apws", dict(ops=3, menu=menu(1, 2, 3, 4, 6), f_hrb=1), mx=20000),
    A("apfl", dict(ops=4, menu=menu(1, 4, 5, 11, 16, 17, 18, 19)), fault=1, mx=20000),
    A("apws2", dict(ops=4, two=1, menu=menu(0, 1, 2, 3, 4)), fault=1, mx=20000),
    A("aptoi", dict(ops=2, menu=menu(0, 7, 8, 9)), mx=20000),
    A("apview", dict(ops=4, two=1, menu=menu(1, 2, 12, 13)), fault=1, mx=20000),
    A("apxa", dict(ops=4, menu=menu(1, 2, 3, 4, 6, 12, 13)), fault=1, mx=20000),
    A("aprec", dict(ops=3, two=1, menu=menu(1, 2, 14)), fault=1, mx=20000),
    A("aprecx", dict(ops=3, menu=menu(1, 3, 4, 6, 12, 14)), fault=1, mx=20000),
    A("apbf", dict(ops=3, two=1, menu=menu(1, 2, 3, 4, 12, 15)), fault=1, mx=20000),
    A("apbfp", dict(ops=3, bfp=1, menu=menu(0, 1, 2, 3, 4, 6, 12)), fault=1, mx=20000),
    A("ap2pc", dict(ops=3, hp2pc=1, menu=menu(0, 1, 2, 3, 4)), fault=1, mx=20000),
]: SUITES[s["name"]] = s

# ----------------------------------------------------------------- Server
def server_consts(a):
    return dict(Sbi=tb(a.get("sbi")), Waiters=tset(["w%d" % (i + 1) for i in range(a.get("waiters", 1))]), Targets="{}", Evs=0, Disc="FALSE", Faults="{}", Connected=5)
def N(name, args, sched=1, fault=1, mx=20000): return S(name, args, sched=sched, fault=fault, mx=mx, suite="server", module="Server", consts=server_consts)
for s in [
    N("sv0", dict(sbi=0, evs=3, waiters=0, bypass=1), mx=40000),
    N("sv1", dict(sbi=1, evs=2, waiters=0), mx=40000),
    N("sv0w", dict(sbi=0, evs=1, waiters=1, targets=9, faults=0), sched=2, mx=40000),
    N("sv1w", dict(sbi=1, evs=0, waiters=1, targets=9, faults=0), sched=2, mx=40000),
    N("sv0w2", dict(sbi=0, evs=1, waiters=2, targets=2, faults=0), sched=3, mx=40000),
    N("sv0d", dict(sbi=0, evs=0, waiters=1, targets=4, disc=1, faults=0), sched=3, mx=40000),
    N("sv1d", dict(sbi=1, evs=0, waiters=1, targets=2, disc=1, faults=0), sched=3, mx=40000),
    N("sv0e", dict(sbi=0, evs=0, waiters=1, targets=2, disc=1, early=1, faults=0), sched=2, mx=20000),
    N("sv1e", dict(sbi=1, evs=0, waiters=0, disc=1, early=1, faults=0), sched=2, mx=20000),
    N("sv1r", dict(sbi=1, evs=0, waiters=0, lives=1, noseed=1), mx=40000),
    N("sv0s", dict(sbi=0, evs=0, waiters=1, targets=9, spur=1, faults=0), sched=1, fault=0, mx=20000),
    N("sv1s", dict(sbi=1, evs=0, waiters=1, targets=4, spur=1, faults=0), sched=1, fault=0, mx=20000),
    N("sv0u", dict(sbi=0, evs=0, waiters=1, targets=4, disc=1, ulk=1, faults=0), sched=2, fault=0, mx=20000),
    N("sv1u", dict(sbi=1, evs=0, waiters=1, targets=2, disc=1, ulk=1, faults=0), sched=2, fault=0, mx=20000),
    N("svrep", dict(sbi=1, evs=2, waiters=0, rep=1), fault=0, mx=5000),
    N("sv0r", dict(sbi=0, evs=0, waiters=1, lives=1, targets=4, faults=0), sched=2, mx=40000),
]: SUITES[s["name"]] = s

# ------------------------------------------------------------------ Pause
USERS = ["u1", "u2", "u3"]
def pause_consts(a): return dict(Users=tset(USERS[:a.get("users", 2)]), Menu="{}", MaxOps=0, Faults="{}")
def U(name, args, sched=2, fault=1, mx=20000): return S(name, args, sched=sched, fault=fault, mx=mx, suite="pause", module="Pause", consts=pause_consts)
for s in [
    U("pa2", dict(users=2, ops=1), sched=9, fault=2, mx=40000),
    U("pa2o2", dict(users=2, ops=2)),
    U("pa3", dict(users=3, ops=1, menu=5), sched=3, mx=40000),
    U("pas", dict(users=2, ops=1, spur=1), sched=2, fault=1),
    U("pau", dict(users=2, ops=1, ulk=1), sched=3, fault=1),
    U("pa3x", dict(users=3, ops=1)),
]: SUITES[s["name"]] = s

# -------------------------------------------------------------------- Toi
def toi_consts(a): return dict(Menu="{}", MaxOps=0, MaxTry=99)
def T(name, args, fault=2, mx=30000): return S(name, args, sched=0, fault=fault, mx=mx, suite="toi", module="Toi", consts=toi_consts)
for s in [
    T("toi1", dict(ops=1, menu=127), fault=6),
    T("toi2", dict(ops=2, menu=127), fault=2),
    T("toi3", dict(ops=3, menu=127), fault=1),
    T("toin", dict(ops=2, menu=6), fault=2),
    T("tois", dict(ops=2, menu=0xa1), fault=3),
    T("toip", dict(ops=4, menu=0x79, faults=0), fault=0),
]: SUITES[s["name"]] = s

# --------------------------------------------------------------- Reporter
def rep_consts(a): return dict(Thr=tset(["t%d" % (i + 1) for i in range(a.get("threads", 1))]), Max=a.get("maxmsg", 2), MaxOps=0, Msgs="{}", Faults="{}")
def R(name, args, sched=0, fault=1, mx=12000): return S(name, args, sched=sched, fault=fault, mx=mx, suite="reporter", module="Reporter", consts=rep_consts)
for s in [
    R("rep", dict(ops=2), fault=2),
    R("repst", dict(ops=7, menu=1, faults=0)),
    R("repsp", dict(ops=5, menu=3, faults=0)),
    R("repmsg", dict(ops=3, menu=12, faults=0), fault=0),
    R("repmsg1", dict(ops=4, menu=8, msgs=4, maxmsg=1, faults=0), fault=0),
    R("repmsg0", dict(ops=2, menu=12, maxmsg=0, msgs=4)),
    R("repbig", dict(ops=3, menu=8, big=1), fault=2),
    R("repio", dict(ops=3, menu=9, msgs=1), fault=3),
    R("rep2u", dict(ops=2, threads=2, menu=12, msgs=2, ulk=1, faults=0), sched=2),
    R("rep2", dict(ops=2, threads=2, menu=12, msgs=2, faults=0), sched=3),
]: SUITES[s["name"]] = s

# ---------------------------------------------------------------- Cluster
def cluster_consts(a): return dict(Nodes="{%s}" % ", ".join(str(i + 1) for i in range(a.get("nodes", 2))), Rows="{}", Trxs="{}", Org="{}", Mode="{}", MaxRows=0, UserRb="FALSE")
def K(name, args, sched=3, fault=1, mx=60000): return S(name, args, sched=sched, fault=fault, mx=mx, suite="cluster", module="Cluster", consts=cluster_consts)
for s in [
    K("cl1", dict(one=1, erb=1)),
    K("cl2", dict(trx=2)),
    K("clh2", dict(hot=2, erb=1)),
    K("clc2", dict(c1=2)),
    K("cln3", dict(nodes=3)),
    K("clsr", dict(unit=1, erb=1)),
    K("clsr2", dict(unit=1, hot=2, rb=1)),
    K("clsrc", dict(unit=1, c1=2, rclone=1, rm_async=1)),
    K("cltoi", dict(toi=1, hot=2)),
    K("cltoi2", dict(toi=1, c1=2, one=1)),
    K("clap2", dict(appliers=2, hot=2, trx=2)),
    K("clfine", dict(fine=1, erb=1)),
    K("clfsr", dict(fine=1, unit=1)),
    K("clul", dict(ulk=1, erb=1), sched=2),
    K("clulsr", dict(ulk=1, unit=1), sched=2),
    K("clsp", dict(spur=1, unit=1, hot=2), sched=2),
    K("clflt", dict(unit=1, f_conn=1, f_rbk=1, hot=2)),
    K("cl2pc", {"2pc": 1, "rclone": 1, "hot": 2}),
]: SUITES[s["name"]] = s

# ---------------------------------------------------- model checking
def M(name, module="Session", mem="6g", **k):
    c = dict(Sess=tset(["s1"]), Bfs=tset(["b1"]), Async="FALSE", MaxCmd=1, Menu=tset(["commit", "open", "2pc", "rollback"]),
             MaxRows=0, Keep="FALSE", To=tset(["bf_abort", "to_bf_abort"]), Faults=tset(["cert", "coe", "int", "pdata", "replay", "bf"]),
             Unit='"off"', FSize=0)
    c.update(k)
    return dict(name=name, module=module, mem=mem, consts=c)

SF = ["cert", "allow", "rmf", "storm", "pfrag", "data", "bf", "rbk", "hps"]
MCS = {m["name"]: m for m in [
    M("mc_trx", Faults=tset(ALLF)),
    M("mc_trx2", MaxCmd=2),
    M("mc_two", Sess=tset(["s1", "s2"]), Menu=tset(["commit"]), To=tset(["bf_abort"]), Faults=tset([])),
    M("mc_twosr", Sess=tset(["s1", "s2"]), Bfs="{}", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "rollback"]), Faults=tset(["rbk"])),
    M("mc_kill", Menu=tset(["commit", "2pc", "kill"]), Faults=tset(["cert", "coe", "replay", "bf"])),
    M("mc_killrow", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "2pc", "kill"]), Faults=tset(["cert"])),
    M("mc_cfg", Bfs="{}", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "cfg"]), Faults=tset(["cert"])),
    M("mc_async", Async="TRUE", MaxCmd=2, Menu=tset(["commit", "open"])),
    M("mc_row", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "open", "rollback"]), Faults=tset(["cert", "bf", "rmf"])),
    M("mc_rowf", MaxRows=1, Unit='"row"', FSize=1, Faults=tset(SF)),
    M("mc_bytes", MaxRows=2, Unit='"bytes"', FSize=2, Menu=tset(["commit"]), Faults=tset(["cert"])),
    M("mc_rowa", MaxRows=1, Unit='"row"', FSize=1, MaxCmd=2, Async="TRUE", Menu=tset(["commit", "open"]), Faults=tset(["cert"])),
    M("mc_b2", Bfs=tset(["b1", "b2"]), Faults=tset(["cert", "bf"])),
    M("mc_xa", MaxCmd=2, Menu=tset(["xa", "2pc", "commit"]), To=tset(["bf_abort"]), Faults=tset(["cert", "cbx", "int"])),
    M("mc_xaa", Async="TRUE", MaxCmd=2, Menu=tset(["xa", "2pc"]), To=tset(["bf_abort"]), Faults=tset(["cert", "cbx"])),
    M("mc_xa3", MaxCmd=3, Menu=tset(["xa", "2pc"]), To=tset(["bf_abort"]), Faults=tset(["cert", "cbx"])),
    M("mc_xasr", MaxCmd=2, MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["xa", "2pc", "commit"]), To=tset(["bf_abort"]), Faults=tset(["cert", "cbx"])),
    M("mc_vw", Bfs="{}", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "open", "rollback", "view"]), Faults=tset(["cert", "hps"])),
    M("mc_vw2", Bfs="{}", MaxCmd=2, MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "open", "view"]), Faults=tset(["hps"])),
    M("mc_vwb", MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "open", "view"]), To=tset(["bf_abort"]), Faults=tset([])),
    M("mc_vwa", MaxRows=1, Unit='"row"', FSize=1, Async="TRUE", Menu=tset(["commit", "open", "view"]), To=tset(["bf_abort"]), Faults=tset(["hps"])),
    M("mc_vwxa", Bfs="{}", MaxCmd=2, MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["xa", "2pc", "view"]), To=tset(["bf_abort"]), Faults=tset([])),
    M("mc_b2row", Bfs=tset(["b1", "b2"]), MaxRows=1, Unit='"row"', FSize=1, Menu=tset(["commit", "open"]), Faults=tset(["cert"])),
]}

AF = ["hps", "apply", "hcoe", "hcol", "hrb", "storm", "sto", "bf"]
def MA(name, ops, n, faults=AF, tids="{21}"):
    return dict(name=name, module="Apply", mem="6g", consts=dict(Ops="<- " + ops, MaxOps=n, Tids=tids, Faults=tset(faults), TwoPC="FALSE"))
for m in [
    MA("mc_apws", "McWs", 4),
    MA("mc_apview", "McView", 4, tids="{21, 31}"),
    MA("mc_apall", "McAll", 4, tids="{21, 31}"),
    MA("mc_apdeep", "McAll", 5, tids="{21, 31}"),
]: MCS[m["name"]] = m

SVF = ["sst", "getpos", "getview", "sstrcv", "ssterr", "disc"]
def MV(name, sbi, evs, w=1, targets=("joined", "synced", "disconnected"), disc=True, faults=SVF):
    return dict(name=name, module="Server", mem="6g", consts=dict(Sbi=tb(sbi), Waiters=tset(["w%d" % (i + 1) for i in range(w)]), Targets=tset(targets), Evs=evs,
                Disc=tb(disc), Faults=tset(faults), Connected=5))
for m in [
    MV("mc_sv0", 0, 1), MV("mc_sv1q", 1, 1, targets=("synced",), faults=["sst", "getview", "ssterr"]), MV("mc_sv1", 1, 1), MV("mc_sv0x", 0, 2), MV("mc_sv1x", 1, 2, w=2), MV("mc_sv0w2", 0, 2, w=2, disc=False),
]: MCS[m["name"]] = m

def MP(name, users, ops, menu=("pause", "desync", "both", "rsu", "sep"), faults=("desync", "pause", "resume", "resync", "wct")):
    return dict(name=name, module="Pause", mem="6g", consts=dict(Users=tset(USERS[:users]), Menu=tset(menu), MaxOps=ops, Faults=tset(faults)))
for m in [MP("mc_pa2", 2, 2), MP("mc_pa3", 3, 1), MP("mc_pa3o2", 3, 2)]: MCS[m["name"]] = m

TM = ["enter_toi", "nbo_begin1", "nbo_mode", "hp_enter", "sync_wait", "trx", "reopen", "begin"]
for n, k in (("mc_toi2", 2), ("mc_toi3", 3)): MCS[n] = dict(name=n, module="Toi", mem="6g", consts=dict(Menu=tset(TM), MaxOps=k, MaxTry=3))

def MR(name, thr, mx, ops, msgs="{0, 1}"): return dict(name=name, module="Reporter", mem="6g", consts=dict(Thr=tset(["t%d" % (i + 1) for i in range(thr)]), Max=mx, MaxOps=ops, Msgs=msgs, Faults=tset(["io"])))
for m in [MR("mc_rep1", 1, 2, 5), MR("mc_rep0", 1, 0, 4), MR("mc_rep2", 2, 1, 2), MR("mc_rep2x", 2, 2, 3), MR("mc_rep1x", 1, 2, 6, "{0, 1, 2}")]: MCS[m["name"]] = m

def MK(name, nodes, trxs, org, mode, rows=1, mr=1, rb=False):
    return dict(name=name, module="Cluster", mem="6g", consts=dict(Nodes="{%s}" % ", ".join(str(i + 1) for i in range(nodes)), Trxs="{%s}" % ", ".join(str(i + 1) for i in range(trxs)),
                Org="<- " + org, Mode="<- " + mode, Rows="{%s}" % ", ".join(str(i) for i in range(rows)), MaxRows=mr, UserRb=tb(rb)))
for m in [
    MK("mc_cl", 2, 3, "Org3", "One", rows=2, mr=2), MK("mc_clsr", 2, 2, "Org3", "Sr", rows=2, mr=2, rb=True), MK("mc_clmix", 2, 3, "Org3", "Mix", rows=2, mr=1),
    MK("mc_cltoi", 2, 3, "Org3", "ToiMix", rows=2, mr=2), MK("mc_cl3", 3, 3, "OrgN", "One", rows=2, mr=1), MK("mc_cl3sr", 3, 3, "OrgN", "Mix", rows=2, mr=2),
    MK("mc_cl4", 2, 4, "OrgX", "One", rows=2, mr=2), MK("mc_clmix2", 2, 3, "Org3", "Mix", rows=2, mr=2, rb=True),
]: MCS[m["name"]] = m

TECH = "TLA+/PlusCal specification; TLC model checking; trace validation of exhaustively scheduled executions of the real code"
def P(suites, mc, inv, tsuites=(), tmc=()):
    return dict(suites=suites, mc=mc, inv=inv, tsuites=list(tsuites), tmc=list(tmc))
TRX = ["trx1", "trx2", "trx1b2", "trxerr", "trx2a", "keep"]
STR = ["rbkq", "rowsp", "rows", "rowsc2", "rows2", "bytes", "stmt1", "rowserr", "rowsa"]
PROPS = {
    "C01": P(TRX + ["trxk", "rowsk", "rows", "rowsa", "rowsb2", "wfr", "cl2", "xa2", "two", "ult", "uls", "czsr"], ["mc_trx", "mc_row", "mc_kill"], ["C01"], tsuites=STR, tmc=["mc_two", "mc_killrow", "mc_b2", "mc_trx2", "mc_rowf", "mc_b2row"]),
    "C02": P(TRX + ["trxk", "rows", "stmt1", "cfgsr", "cl2pc", "xa2"], ["mc_trx", "mc_row", "mc_kill"], ["C02"], tsuites=STR, tmc=["mc_killrow", "mc_trx2", "mc_rowf"]),
    "C03": P(TRX + ["trxk", "rowsk", "rows", "stmt1", "xa2a", "clc2", "ult"], ["mc_trx", "mc_row", "mc_kill"], ["C03"], tsuites=STR, tmc=["mc_killrow", "mc_trx2", "mc_rowf"]),
    "C04": P(TRX + ["rows", "rowserr", "stmt1", "rowsa", "life", "two"], ["mc_trx", "mc_row"], ["C04"], tsuites=STR, tmc=["mc_two", "mc_trx2", "mc_rowf"]),
    "C05": P(TRX + ["cfg", "rows", "stmts", "rowserr", "rowsc2", "xa2", "life", "lifesr", "toleak"], ["mc_trx", "mc_row"], ["C05"], tsuites=STR, tmc=["mc_cfg", "mc_trx2", "mc_rowf"]),
    "C06": P(["cfgsr", "cfgst", "rows", "rows2", "bytes", "stmts", "stmt1", "rowserr", "rowsaf"], ["mc_row", "mc_bytes"], ["C06"], tmc=["mc_cfg", "mc_rowf"]),
    "C07": P(STR + ["twoq", "twoc", "toleak", "rowsb2", "clsr2", "twof", "uls", "czsr"], ["mc_row"], ["C07"], tmc=["mc_twosr", "mc_rowf", "mc_rowa", "mc_b2row"]),
    "C08": P(STR + ["twosr", "rowsb2", "stmts", "vwf", "clflt"], ["mc_row"], ["C08"], tmc=["mc_twosr", "mc_rowf", "mc_rowa", "mc_b2row"]),
    "C19": P(["trx2a", "rowsa", "trx2", "spt", "spa", "ulr", "ula"], ["mc_async"], ["C19"], tmc=["mc_rowa"]),
    "C20": P(["xa2", "xa2a", "xa3", "xasr", "xasra", "xawfr", "twoxa", "xarem", "xarb2", "xato", "xatoa", "czxa"], ["mc_xa", "mc_xaa"], ["C20"], tmc=["mc_xa3", "mc_xasr"]),
    "C23": P(TRX + ["rowsa", "rowsb2", "rows", "vw", "vwa", "wfr", "twosr", "spt", "uls", "sv0r", "sv1d", "sv0s", "sv1u"], ["mc_trx", "mc_vw"], [], tsuites=STR + ["vwf", "vwc2", "vwxa"], tmc=["mc_twosr", "mc_row", "mc_async", "mc_rowa", "mc_b2row", "mc_vwa", "mc_vwb"]),
}
AWS = ["ap2", "apfl", "apws", "apws2", "aptoi", "ap2pc", "apxa"]
AVW = ["apview", "apxa", "aprec", "aprecx", "apbf"]
for i, (ss, mc) in {"C09": (AWS + ["apview", "apbf"], ["mc_apws"]), "C10": (AWS + ["apbf"], ["mc_apws"]), "C11": (AWS + ["apbf", "apbfp", "apview"], ["mc_apws", "mc_apall"]),
                    "C12": (AVW + ["ap2", "vw", "vwc2", "vwxa"], ["mc_apview"]), "C13": (AVW + ["ap2", "sv1r", "sv0r"], ["mc_apview"])}.items():
    PROPS[i] = P(ss, mc, [i], tsuites=AWS + AVW, tmc=["mc_apall", "mc_apdeep"])
    PROPS[i]["module"] = "Apply"
SVQ = ["svrep", "sv0s", "sv1s", "sv0u", "sv1u", "sv0", "sv1", "sv0w", "sv1w", "sv0w2", "sv0d", "sv1d", "sv0e", "sv1e", "sv1r", "sv0r"]
PROPS["C14"] = dict(P(SVQ, ["mc_sv0", "mc_sv1q"], ["C14", "C14w"], tmc=["mc_sv1", "mc_sv0x", "mc_sv1x", "mc_sv0w2"]), module="Server")
PROPS["C15"] = dict(P(SVQ, ["mc_sv0", "mc_sv1q"], ["C15"], tmc=["mc_sv1", "mc_sv0x", "mc_sv1x"]), module="Server")
PROPS["C16"] = dict(P(["pa2", "pa2o2", "pa3", "pa3x", "pas", "pau"], ["mc_pa2", "mc_pa3"], ["C16"], tmc=["mc_pa3o2"]), module="Pause")
for i in ("C17", "C18"): PROPS[i] = dict(P(["cltoi", "aptoi", "toi1", "toi2", "toi3", "toin", "tois", "toip"], ["mc_toi2"], [i], tmc=["mc_toi3"]), module="Toi")
PROPS["C21"] = dict(P(["cltoi", "toi1", "toi2", "toi3", "tois", "toip", "trx1", "trx2", "rows", "trxerr"], ["mc_toi2"], ["C21"], tsuites=["stmt1", "keep"], tmc=["mc_toi3"]), module="Toi")
CLQ = ["cl1", "cl2", "clh2", "clc2", "cln3", "clsr", "clsr2", "clsrc", "cltoi", "cltoi2", "clap2", "clfine", "clfsr", "clflt", "cl2pc", "clul", "clulsr", "clsp"]
PROPS["C24"] = dict(P(CLQ, ["mc_cl", "mc_clsr", "mc_cltoi"], ["C24", "C24d"], tmc=["mc_clmix", "mc_cl3", "mc_cl3sr", "mc_cl4", "mc_clmix2"]), module="Cluster")
PROPS["C22"] = dict(P(["svrep", "rep", "repst", "repsp", "repmsg", "repmsg1", "repmsg0", "repio", "rep2", "rep2u", "repbig"], ["mc_rep1", "mc_rep0", "mc_rep2"], ["C22"], tmc=["mc_rep2x", "mc_rep1x"]), module="Reporter")
NOTE = ("TLC explores the specification exhaustively within the stated constants; the real code, compiled from the working tree, is run under a "
        "deterministic scheduler which enumerates schedules, environment answers and programs (fewest preemptions and faults first, exhaustively up to the "
        "bound in the evidence), and every recorded execution must be a behaviour of the specification on which the property's invariants hold.")
