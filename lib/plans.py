"""Plans: operation sequences exported by TLC while it checks a design module exhaustively."""
import json, os, re
import tlc

def export(module, cfg, marker="PLAN", timeout=600, mem="4g"):
    """Checks the module exhaustively (one worker so that the output is deterministic) and returns (plans, generated, distinct)."""
    g, d, out = tlc.check(module, cfg, workers=1, mem=mem, timeout=timeout)
    # <<"PLAN", "<json with escaped quotes>">>
    plans = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<\s*"%s",\s*"((?:[^"\\]|\\.)*)"\s*>>' % marker, out)]
    return plans, g, d
