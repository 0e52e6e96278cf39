"""KNOWN-FINDINGS.txt: genuine defects which are recorded instead of repaired.
   finding: property=<id>[,<id>] scenario=<regex> clause=<regex> [detail=<regex>] :: <what fails>
   fixed: property=<id> <commit> <what failed>      (suppresses nothing)"""
import os, re
PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN-FINDINGS.txt")
def load():
    out = []
    if not os.path.exists(PATH): return out
    for l in open(PATH):
        m = re.match(r"finding: property=(\S+) scenario=(\S+) clause=(\S+)(?: detail=(\S+))? :: (.*)", l.strip())
        if m: out.append(dict(props=m[1].split(","), scn=re.compile(m[2]), clause=re.compile(m[3]), detail=re.compile(m[4]) if m[4] else None, text=m[5], hit=False))
        elif l.startswith("finding:"): raise RuntimeError("cannot read known finding: " + l)
    return out
def split(prop, bad):
    K = [k for k in load() if prop in k["props"]]
    rest = []
    for b in bad:
        for k in K:
            if k["scn"].fullmatch(b["s"]) and k["clause"].fullmatch(b["c"]) and (k["detail"] is None or k["detail"].search(b["d"])):
                k["hit"] = True
                break
        else: rest.append(b)
    return [k["text"] for k in K if k["hit"]], rest
