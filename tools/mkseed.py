#!/usr/bin/env python3
"""mkseed <id> <property>: packs the diff of the scratch tree /tmp/sw and /tmp/sw.scn.py as /verif/seeded/<id>; meta from NEEDS/BREAKS in scn.py. Verifies that it counts."""
import json, os, shutil, subprocess, sys, importlib.util
sid, prop = sys.argv[1], sys.argv[2]
V = "/verif"; D = V + "/seeded/" + sid
diff = subprocess.run(["git", "-C", "/tmp/sw", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no diff"
shutil.rmtree(D, ignore_errors=True); os.makedirs(D + "/lib"); os.makedirs(D + "/harness"); os.makedirs(D + "/spec")
open(D + "/patch.diff", "w").write(diff)
for f in ("common", "id3", "mp3", "flac", "vorbis", "ogg", "mp4", "mkv", "runner", "inputs", "filescn"): shutil.copy(V + "/lib/%s.py" % f, D + "/lib")
for f in ("driver.cpp", "cmds.inc"): shutil.copy(V + "/harness/" + f, D + "/harness")
shutil.copy(V + "/spec/Formats.tla", D + "/spec")
for f in ("demo.sh", "demo.py"): shutil.copy(V + "/tools/seedkit/" + f, D)
shutil.copy("/tmp/sw.scn.py", D + "/scn.py")
src = open(D + "/scn.py").read(); ns = {}
exec("\n".join(l for l in src.splitlines() if l.startswith(("NEEDS", "BREAKS"))), ns)
json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(D + "/meta.json", "w"), indent=1)
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def fail(m): print("SEED DOES NOT COUNT:", m); sys.exit(1)
# the demonstration passes without the change
if sh("bash /opt/vp/build.sh", "/repo").returncode: fail("build")
r = sh("bash %s/demo.sh" % D, "/repo")
if r.returncode: fail("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-800:])
if sh("git apply %s/patch.diff" % D, "/repo").returncode: fail("does not apply")
try:
    r = sh("bash /opt/vp/build.sh", "/repo")
    if r.returncode: fail("does not build: " + r.stdout[-1500:])
    sh("bash /opt/vp/test.sh /tmp/sw.t.json", "/repo")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open("/tmp/sw.t.json"))["passed"])
    if base - got: fail("tests fail: %s" % sorted(base - got))
    r = sh("bash %s/demo.sh" % D, "/repo")
    if r.returncode == 0: fail("demo passes with the change")
    print("demo with the change:", r.stdout.strip()[-300:], r.stderr.strip()[-200:])
    if len(sys.argv) <= 3:
        r = sh("./check %s quick" % prop, V)
        print("check:", r.returncode, "\n".join(l[:300] for l in r.stdout.splitlines()[-4:]), r.stderr[-500:])
finally:
    sh("git apply -R %s/patch.diff" % D, "/repo"); sh("bash /opt/vp/build.sh", "/repo")
print(sh("git status --short", "/repo").stdout)
