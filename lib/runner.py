"""Runs scenarios on the real code (parallel, in scratch directories) and collects events and independent projections of the files left on disk."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mp3, flac, ogg, mp4, mkv
from common import tok

PROJ = {"mp3": mp3.project, "flac": flac.project, "ogg": ogg.project, "mp4": mp4.project, "mkv": mkv.project}


def q(s):
    """One token of the scenario language."""
    raw = s if isinstance(s, bytes) else s.encode("utf-8", "surrogatepass")
    return "".join(chr(c) if (0x30 <= c <= 0x39 or 0x41 <= c <= 0x5A or 0x61 <= c <= 0x7A or c in b"._-") else "%%%02X" % c for c in raw)


class V:
    """Value specifications."""
    @staticmethod
    def attrs(kw): return "".join("~%s=%s" % (k, q(v)) for k, v in kw.items())
    @staticmethod
    def u8(s, **kw): return "u8~" + q(s) + V.attrs(kw)
    @staticmethod
    def l1(s, **kw): return "l1~" + q(s.encode("latin-1") if isinstance(s, str) else s) + V.attrs(kw)
    @staticmethod
    def le(s, **kw): return "le~" + q(s.encode("utf-16-le") if isinstance(s, str) else s) + V.attrs(kw)
    @staticmethod
    def be(s, **kw): return "be~" + q(s.encode("utf-16-be") if isinstance(s, str) else s) + V.attrs(kw)
    @staticmethod
    def i(n, **kw): return "i~%s" % q(str(n)) + V.attrs(kw)
    @staticmethod
    def u(n, **kw): return "u~%s" % q(str(n)) + V.attrs(kw)
    @staticmethod
    def p(a, b=0, **kw): return "p~" + q("%d/%d" % (a, b)) + V.attrs(kw)
    @staticmethod
    def g(n, **kw): return "g~%s" % q(str(n)) + V.attrs(kw)
    @staticmethod
    def ts(n, **kw): return "ts~%s" % q(str(n)) + V.attrs(kw)
    @staticmethod
    def dt(n, **kw): return "dt~%s" % q(str(n)) + V.attrs(kw)
    @staticmethod
    def dti(s, **kw): return "dti~%s" % q(s) + V.attrs(kw)
    @staticmethod
    def pop(user, rating, count, scale=0, **kw): return "pop~" + q("%s|%s|%d|%d" % (user, rating, count, scale)) + V.attrs(kw)
    @staticmethod
    def pic(b, **kw): return "pic~" + b.hex() + V.attrs(kw)
    @staticmethod
    def bin(b, **kw): return "bin~" + b.hex() + V.attrs(kw)
    @staticmethod
    def blob(n, **kw): return "blob~%d" % n + V.attrs(kw)
    null = "null~"


class Scn:
    """files: initial directory content; cmds: scenario commands; keep: [(command index or None, file, format)] is expressed through `snap(file, fmt)`."""
    def __init__(self, id, files=None, cmds=(), meta=None, dirs=()):
        self.id, self.files, self.cmds, self.meta, self.dirs = id, dict(files or {}), list(cmds), meta or {}, list(dirs)
        self.snaps = []
    def c(self, *cmds):
        self.cmds += cmds
        return self
    def snap(self, file, fmt):
        """Keeps the current content of the file; its projection becomes an event of its own."""
        n = len(self.snaps)
        self.snaps.append((file, fmt))
        self.cmds.append("cp %s ../k%d" % (q(file), n))
        self.cmds.append("snapmark %d" % n)
        return self


def project(fmt, b):
    if fmt not in PROJ: return dict(size=len(b), sha=tok(b, 16))
    # damaged files must not exhaust what the readers have
    import resource, signal
    def late(*a): raise TimeoutError("too slow")
    old = resource.getrlimit(resource.RLIMIT_AS)
    h = signal.signal(signal.SIGALRM, late)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, old[1]))
        signal.alarm(30)
        return PROJ[fmt](b)
    except Exception as x:
        if os.environ.get("VERIF_STRICT"): raise
        return dict(fmt=fmt, errs=["reader: %s %s" % (type(x).__name__, x)], media=[], refs=[])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, h)
        resource.setrlimit(resource.RLIMIT_AS, old)


def _one(args):
    exe, scns, limit, keep, san = args
    base = tempfile.mkdtemp(prefix="vf-")
    out = []
    try:
        lines = []
        for i, s in enumerate(scns):
            d = os.path.join(base, "s%d" % i)
            os.makedirs(os.path.join(d, "w"))
            for x in s.dirs: os.makedirs(os.path.join(d, "w", x), exist_ok=True)
            for n, b in s.files.items():
                os.makedirs(os.path.dirname(os.path.join(d, "w", n)), exist_ok=True)
                with open(os.path.join(d, "w", n), "wb") as f: f.write(b)
            lines.append("scn %s %s/w" % (q(s.id), d))
            lines += s.cmds
            lines.append("end")
        script, res = os.path.join(base, "script"), os.path.join(base, "out")
        open(script, "w").write("\n".join(lines) + "\n")
        env = dict(os.environ, TZ="UTC", LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:symbolize=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
        r = subprocess.run([exe, script, res, str(limit)], stdin=subprocess.DEVNULL, capture_output=True, env=env)
        if r.returncode:
            raise RuntimeError("driver failed: %d %s" % (r.returncode, r.stderr[-500:]))
        ev = {}
        with open(res, errors="replace") as f:
            for l in f:
                e = json.loads(l)
                ev.setdefault(e["s"], []).append(e)
        from common import esc
        for i, s in enumerate(scns):
            d = os.path.join(base, "s%d" % i)
            es = []
            for e in ev.get(esc(s.id), []):
                if e.get("op") == "cp" and "../k" in e["cmd"]: continue
                if e.get("op") == "snapmark":
                    n = int(e["cmd"].split()[1])
                    file, fmt = s.snaps[n]
                    p = os.path.join(d, "k%d" % n)
                    if not os.path.exists(p): continue # no such file
                    b = open(p, "rb").read()
                    es.append(dict(s=e["s"], i=e["i"], cmd="snap " + file, op="snapfile", file=file, proj=project(fmt, b), n=n))
                    if keep: es[-1]["bytes"] = b
                    continue
                es.append(e)
            se = os.path.join(d, "w", "stderr.txt")
            if san and os.path.exists(se) and os.path.getsize(se):
                t = open(se, errors="replace").read()
                es.append(dict(op="sanitizer", cmd="sanitizer", text=t[:3000], s=s.id, i=9998))
            out.append((s.id, es))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def run(scns, exe, jobs=8, limit=20, keep=False, chunk=None, san=False):
    scns = list(scns)
    ids = [s.id for s in scns]
    if len(set(ids)) != len(ids):
        dup = sorted(i for i in set(ids) if ids.count(i) > 1)
        raise RuntimeError("duplicate scenario ids: %s" % dup[:5])
    n = chunk or max(1, min(40, (len(scns) + jobs * 4 - 1) // (jobs * 4)))
    parts = [(exe, scns[i:i + n], limit, keep, san) for i in range(0, len(scns), n)]
    res = {}
    if len(parts) == 1:
        res.update(_one(parts[0]))
        return res
    with ProcessPoolExecutor(jobs) as ex:
        for o in ex.map(_one, parts):
            res.update(o)
    return res
