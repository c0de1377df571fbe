"""Machinery shared by the checks: build the harness from /repo, run suites,
translate the PlusCal specifications, run TLC, map rejections back to runs."""
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla"

class Machinery(Exception):
    pass

def sh(cmd, timeout=None, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=e)
    return p.returncode, p.stdout.decode("utf8", "replace")

def classpath():
    import glob
    return ":".join([JAR] + sorted(j for j in glob.glob(CM + "/*.jar") if j != JAR))

def translate(work, module):
    """Translate a PlusCal module into work/ and add what trace validation needs."""
    src = os.path.join(VERIF, "spec", module + ".tla")
    dst = os.path.join(work, module + ".tla")
    shutil.copy(src, dst)
    t = open(dst).read()
    if "--algorithm" not in t: return
    rc, out = sh(["java", "-XX:TieredStopAtLevel=1", "-cp", JAR, "pcal.trans", "-nocfg", module + ".tla"], cwd=work)
    if "Translation completed" not in out: raise Machinery("pcal: " + out)
    t = open(dst).read()
    m = re.search(r"^Next == (.*?)^(?:Spec ==)", t, re.S | re.M)
    acts = sorted(set(re.findall(r"(\w+)\(self\)", m.group(1))))
    vs = re.search(r"^vars == <<(.*?)>>", t, re.S | re.M).group(1)
    vs = [v.strip() for v in vs.split(",")]
    rest = [v for v in vs if v != "cur"]
    add = "\nTrStep(p) == " + " \\/ ".join("%s(p)" % a for a in acts) + "\n"
    add += "rest == << " + ", ".join(rest) + " >>\n"
    i = t.rindex("=" * 20)
    while t[i - 1] == "=": i -= 1
    t = t[:i] + add + t[i:]
    open(dst, "w").write(t)

def tlc(work, module, cfg, env=None, workers=8, mem="4g", timeout=800, extra=(), tag="x"):
    """Run TLC; returns dict(ok, kind, states, distinct, out, trace)."""
    cfgf = os.path.join(work, module + "_" + tag + ".cfg")
    open(cfgf, "w").write(cfg)
    tr = cfgf[:-4] + ".trace.json"
    meta = cfgf[:-4] + ".states"
    cmd = ["java", "-Xmx" + mem, "-XX:+UseParallelGC", "-Xss16m", "-cp", classpath(), "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-dumpTrace", "json", tr, "-config", cfgf] + list(extra) + [os.path.join(work, module + ".tla")]
    t0 = time.time()
    try:
        rc, out = sh(cmd, timeout=timeout, cwd=work, env=env)
    except subprocess.TimeoutExpired as e:
        raise Machinery("TLC timeout on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = dict(out=out, wall=time.time() - t0, rc=rc, states=0, distinct=0, kind="error", trace=None)
    for m in re.finditer(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M):
        r["states"], r["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    if "No error has been found" in out: r["kind"] = "ok"
    elif "Deadlock reached" in out: r["kind"] = "deadlock"
    elif re.search(r"Invariant \S+ is violated", out):
        r["kind"] = "invariant"; r["what"] = re.search(r"Invariant (\S+) is violated", out).group(1)
    elif "Action property" in out and "is violated" in out:
        r["kind"] = "property"; r["what"] = re.search(r"Action property (.*?) is violated", out).group(1)
    elif "Temporal properties were violated" in out: r["kind"] = "property"; r["what"] = "temporal"
    if os.path.exists(tr):
        try: r["trace"] = json.load(open(tr))
        except Exception: pass
    return r
