"""The registry: which families of scenarios decide which property, and which clauses of the trace specifications belong to which property."""
import importlib

ALL = ["P%02d" % i for i in range(1, 17)]

# clause of a trace specification -> properties it speaks about
CLAUSES = {
    "payload": ["P01"], "refs": ["P02"], "others": ["P04"],
    "tags": ["P03", "P04", "P11"], "tags-noedit": ["P03", "P04", "P09"],
    "wellformed": ["P08"],
    "inplace-forced": ["P07"], "inplace-padding": ["P07"], "rewrite-padding": ["P07"], "tag-position": ["P07"], "index-position": ["P07"],
    "stable-bytes": ["P09"],
    "untouched": ["P06", "P10"], "failed-untouched": ["P05", "P10"],
    "apply-ok": ["P03", "P09"], "apply-critical": ["P16"], "apply-path": ["P06"], "apply-stray": ["P05", "P06"], "apply-keeps": ["P06"], "apply-backup": ["P05", "P06"],
    "edit-result": ["P12", "P03", "P11"], "parse-ok": ["P10", "P15"],
    "progress-range": ["P16"], "progress-monotonic": ["P16"], "progress-overall-monotonic": ["P16"],
    "crash-safe": ["P05"], "backup-reported": ["P05"], "fault-outcome": ["P05"], "abort-untouched": ["P05", "P16"], "foreign-kept": ["P06", "P05"], "source-kept": ["P06", "P05"],
    "abort-honoured": ["P16"], "abort-truthful": ["P16", "P05"], "apply-target": ["P05", "P06"], "apply-nothing": ["P05", "P06"],
    "api-tags": ["P03", "P11", "P12"], "api-values": ["P03", "P11", "P12"], "loss-reported": ["P16"],
    "mem-tags": ["P11"], "mem-fields": ["P11", "P12"],
    "op-values": ["P12"], "op-presence": ["P12"], "op-count": ["P12"], "op-result": ["P12"], "op-source": ["P12"], "op-exception": ["P12"], "op-supported": ["P12"], "op-encoding": ["P12", "P13"],
    "conv-value": ["P13"], "conv-assign": ["P13"], "conv-stored": ["P13"], "conv-encoding": ["P13"], "conv-equality": ["P13"], "conv-scale": ["P13"], "conv-genre": ["P13"],
    "life-results": ["P10"], "life-status": ["P10"], "life-leak": ["P10"], "life-untouched": ["P10"], "life-outcome": ["P10"], "life-repeated": ["P10"], "life-refused": ["P10"],
    "rob-outcome": ["P14"], "rob-untouched": ["P14", "P10"], "rob-time": ["P14"], "rob-memory": ["P14"], "rob-failed-untouched": ["P14", "P05"], "rob-reported": ["P14", "P16"], "rob-reparse": ["P14"], "rob-tags": ["P14", "P04"], "rob-wellformed": ["P14", "P08"], "rob-payload": ["P14", "P01"], "rob-crash": ["P14"],
    "info": ["P15"],
    "exit": ALL, "unexplained": ALL,
}
# property -> families
USES = {
    "P01": ["fam_layout", "fam_edge", "fam_meta"], "P02": ["fam_layout", "fam_edge", "fam_meta"], "P03": ["fam_fields", "fam_layout"], "P04": ["fam_layout", "fam_meta"], "P05": ["fam_faults"], "P06": ["fam_faults", "fam_layout"], "P11": ["fam_policy"], "P12": ["fam_tagops", "fam_fields"], "P13": ["fam_values"], "P16": ["fam_faults", "fam_fields"], "P07": ["fam_layout", "fam_edge"], "P08": ["fam_layout", "fam_edge", "fam_meta"], "P09": ["fam_layout", "fam_edge", "fam_meta"],
    "P10": ["fam_lifecycle"], "P14": ["fam_robust"], "P15": ["fam_info"],
}
def families(prop): return [importlib.import_module(m) for m in USES.get(prop, [])]
TECH = {"": "explicit TLA+ specification (spec/*.tla) checked with TLC; behaviours of it are replayed into the real library and the recorded executions (file projections by independent parsers) are validated against the trace specification by TLC"}
NOTE = {"": "exhaustive over the enumerated structures x edits x settings; every recorded behaviour of the real code is validated by TLC"}
