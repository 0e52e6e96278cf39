"""Running TLC: trace validation of recorded executions (sharded over several JVMs) and exhaustive checking / plan generation of the design modules."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CP = JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar"

class TlcError(RuntimeError): pass

def _tlc(module, cfg_text, env, workers=1, mem="2g", timeout=700, extra=()):
    d = tempfile.mkdtemp(prefix="vt-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = os.path.join(d, module + ".cfg")
        if os.path.lexists(cfg): os.unlink(cfg)
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ, **env)
        cmd = ["timeout", str(timeout), "java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE", "-deadlock", "-config", cfg, *extra, os.path.join(d, module + ".tla")]
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=d)
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def _validate(args, depth=0):
    module, lines, mem, timeout = args
    d = tempfile.mkdtemp(prefix="vtr-")
    try:
        tp, op = os.path.join(d, "t.ndjson"), os.path.join(d, "o.json")
        with open(tp, "w") as f:
            for l in lines: f.write(json.dumps(l, separators=(",", ":")) + "\n")
        rc, out = _tlc(module, "SPECIFICATION Spec\n", {"TRACE": tp, "OUT": op}, 1, mem, timeout)
        m = re.findall(r"^/\\ ln = (\d+)", out, re.M) if not os.path.exists(op) else None
        if m and int(m[-1]) <= len(lines) and os.environ.get("VERIF_TLC_STRICT") != "1":
            # the specification has no value for this line: it is recorded as unexplained and its scenario left out
            k = int(m[-1]) - 1
            sid = lines[k]["s"]
            e = re.search(r"(Attempted[^\n]*(?:\n[^\n]*){0,3})", out)
            if depth >= 8: a, b = [], (0, 0) # enough; the remaining scenarios of this shard are not judged anymore
            else: a, b = _validate((module, [l for l in lines if l["s"] != sid], mem, timeout), depth + 1)
            return a + [dict(s=sid, line=0, c="unexplained", d=(e.group(1) if e else out[-300:])[:300], ev=lines[k])], b
        if not os.path.exists(op):
            raise TlcError("TLC did not finish validating with %s (rc %d): %s" % (module, rc, "\n".join(l[:300] for l in out.splitlines() if "rror" in l or "xception" in l or "tempt" in l)[:3000]))
        if rc != 0: raise TlcError("TLC failed after validating with %s (rc %d): %s" % (module, rc, out[-3000:]))
        r = json.load(open(op))
        if r["lines"] != len(lines): raise TlcError("TLC processed %s of %d lines" % (r["lines"], len(lines)))
        s = stats(out)
        bad = r["bad"] if isinstance(r["bad"], list) else []
        for x in bad: x["ev"] = lines[x["line"] - 1]
        return bad, s
    finally:
        shutil.rmtree(d, ignore_errors=True)

def validate(module, scenarios, jobs=8, mem="2g", timeout=700):
    """scenarios: list of lists of trace lines (each list one scenario). Returns (bad entries, total states, transitions)."""
    scenarios = [s for s in scenarios if s]
    if not scenarios: return [], 0, 0
    total = sum(len(s) for s in scenarios)
    n = min(jobs, max(1, total // 150))
    shards = [[] for _ in range(n)]
    loads = [0] * n
    for s in sorted(scenarios, key=len, reverse=True):
        k = loads.index(min(loads)); shards[k].append(s); loads[k] += len(s)
    parts = [(module, [l for s in sh for l in s], mem, timeout) for sh in shards if sh]
    bad, st, tr = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for b, s in ex.map(_validate, parts):
            bad += b; st += s[1]; tr += s[0] - 1
    return bad, st, tr

def check(module, cfg, env=None, workers=8, mem="8g", timeout=800, extra=()):
    """Exhaustive check; returns (generated, distinct, output). Raises if TLC reports anything but success."""
    rc, out = _tlc(module, cfg, env or {}, workers, mem, timeout, extra)
    if rc != 0 or "No error has been found" not in out:
        raise TlcError("model checking of %s failed (rc %d):\n%s" % (module, rc, out[-6000:]))
    g, dd = stats(out)
    return g, dd, out
