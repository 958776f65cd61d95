"""Writes MANIFEST.json from table.py and properties.jsonl."""
import glob, json, os, re, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from table import TABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
assert sorted(TABLE) == sorted(ids), set(TABLE) ^ set(ids)
for p in ids:  # every test runs in one of the configured builds
    src = "".join(open(f).read() for f in glob.glob(os.path.join(VERIF, "harness", "props", p.lower(), "*_test.go")))
    kinds = {("race" if t.startswith("TestRace") else "sched" if t.startswith("TestSched") else "plain") for t in re.findall(r"^func (Test\w+)", src, re.M) if t != "TestMain"}
    assert kinds == set(TABLE[p]["builds"]), (p, kinds)
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
            "technique": TABLE[p]["technique"], "level": "exploration", "level_note": TABLE[p]["note"],
        }
        for p in ids
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: harnesses are a separate module that replaces the library by /repo, and the schedule builds overlay instrumented copies at build time. known-findings.txt lists the defects found and repaired.",
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
