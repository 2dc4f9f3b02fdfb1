"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Recorded calls of the real library are judged one by one by the Quint transition relation (spec/trace.qnt over spec/machine.qnt): "
        "contents of every live object after every call, within rounding or bit for bit. Sampled, not exhaustive, over contents; ")
EXTRA = {
    "C01": "types, sizes and zero patterns swept", "C02": "operators and aliasing patterns swept", "C03": "functions, special points and spellings swept",
    "C04": "quadrants, axes and aliasing swept", "C05": "random programs, also in the company of threads, end results also judged by central differences of the program's values",
    "C06": "all index pairs of each size", "C07": "all types and constructor forms", "C08": "all lengths around each size, all operations",
    "C09": "the same programs in every representation and permuted", "C10": "all size pairs up to a bound", "C11": "types and sizes swept",
    "C12": "every step between the name sets of two numbers over three names as TLC enumerates them (names.tla), up to 21 names sampled", "C13": "all pairs of special values", "C14": "every step of the sharing protocol TLC enumerates (sharing.tla): three names, one view, two sizes; all ways to copy; every live object observed after every call",
    "C15": "shapes and mixtures of operands swept", "C16": "all 37 Python types times all names and spellings", "C17": "nine builds of the header",
}
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": "Quint specification; trace validation of recorded executions by quint run, plus theorems of the specification; walks of TLA+ protocols enumerated by TLC",
        "level": "model_checking", "level_note": NOTE + EXTRA[p["id"]], "evidence_file": "evidence/%s.json" % p["id"]} for p in props],
    "not_applicable": [],
    "notes": "Specification languages: Quint (the machine, its mathematics, the judge), TLA+ with TLC (the finite protocols that are walked completely). No hooks in /repo: the public interface shows all of the state.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
