"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("TLA+ specification checked with TLC: %s; traces recorded from the real code (behaviours printed by TLC and seeded "
        "random histories) validated against %s")
GROUP = "GroupDesign (streaming statistics and laws over exact rationals, every short history)"
CACHE = "CacheDesign (score caches of mixtures, every short history)"
MIX = "MixtureDesign (counts, empty set, packed groups, id maps refine the partition)"
LAW = "PartitionLaws (normalised, exchangeable, undone by removal)"
HOW = {
    "C01": (GROUP, "TraceModels"), "C02": (GROUP, "TraceModels"), "C03": (GROUP, "TraceModels"),
    "C04": (GROUP, "TraceModels"), "C05": (GROUP, "TraceModels"), "C06": (GROUP, "TraceModels"), "C07": (GROUP, "TraceModels"),
    "C08": (CACHE, "TraceModels"), "C09": (CACHE, "TraceModels"),
    "C10": (MIX, "TraceClustering"), "C11": (MIX, "TraceClustering"),
    "C12": (LAW, "TraceClustering"), "C13": (LAW, "TraceClustering"), "C14": (LAW, "TraceClustering"),
    "C15": ("StickDesign (whole-number stick: sums to one, known = referenced, weights kept)", "TraceModels"),
    "C16": ("ContainerDesign (the sparse counter refines a multiset)", "TraceContainers"),
    "C17": ("SamplerDesign (inverse cumulative sums)", "TraceSampling"),
    "C18": ("laws of Sampling", "TraceSampling and TraceModels"),
    "C19": ("abstract state of Models and Clustering copied by saving and loading", "TraceModels and TraceClustering"),
    "C20": ("StreamDesign (a writer that may stop at any byte)", "TraceStreams"),
    "C21": ("one abstract state for all implementations", "TraceModels"),
    "C22": ("laws of Numeric", "TraceNumeric"), "C23": ("laws of Numeric", "TraceNumeric"),
    "C24": ("ReplayDesign (interleaved programs, with a sensitivity witness)", "TraceReplay"),
    "C25": ("StirlingCache (threads that grow a shared table, with sensitivity witnesses)", "TraceConcurrency (vector clocks)"),
    "C26": ("laws of Sampling", "TraceSampling"),
    "C27": ("TestDesign (size of the test under the exact multinomial law, with a sensitivity witness)", "TraceGoodness"),
}
TRUST = ("Trusts TLC, the exact-arithmetic override spec/java, and the recorders in harness/ and tools/py_*.py. Design models are "
         "exhaustive within the bounds in the evidence; inputs and long histories are sampled from a seed by boundary-rich generators.")
CLAIMED = set(open(os.path.join(HERE, "tools/claimed.txt")).read().split())
REASON = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {
        "version": 1,
        "setup_cmd": "bash tools/setup.sh",
        "checks": [{
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
            "technique": BASE % HOW[i], "level": "model_checking", "level_note": TRUST} for i in ids if i in CLAIMED],
        "not_applicable": [{"property": i, "reason": REASON.get(i, "check not built yet")} for i in ids if i not in CLAIMED],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
