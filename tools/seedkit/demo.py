import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [D, os.path.join(D, "lib")]
import runner, scn
S = scn.scenarios()
for s in S:
    ev = runner.run([s], sys.argv[1], keep=True, limit=60)[s.id]
    try: scn.check(s, ev)
    except AssertionError as e:
        print("FAILED: %s: %s" % (s.id, e)); sys.exit(1)
print("ok")
