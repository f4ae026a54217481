"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GROUP = {
    "P": "reference-model monitor over generated logs",
    "C": "reference-model monitor over generated configurations",
    "V": "reference-model monitor over objects and generated logs", "H": "monitor of the program around the library"}
SPECIAL = {
    "H01": "effect monitor (audit events, process settings, open files, output, weak references)",
    "H02": "controlled thread scheduler with a sequential oracle", "H03": "differential monitor over interpreter settings",
    "H04": "memory monitor (allocations, live objects)", "H05": "value monitor over copies and pickles",
    "H06": "I/O monitor over kinds of streams",
    "H07": "fault-injection monitor (failing stream calls, interruptions at traced lines)",
    "H08": "re-entrancy monitor (calls inside stream methods, iterables, traced lines and garbage collections)",
    "P01": "sequence-model monitor over random access histories", "P06": "layout-invariance monitor (same facts, many layouts, recorded reads)",
    "P07": "fault-injection monitor (damaged and cut inputs, step budget)", "P08": "fault-injection monitor (undecodable events)",
    "P09": "resource monitor (steps, allocation, reads) over hostile inputs", "P10": "differential monitor over reader options",
    "P23": "I/O monitor (recorded reads, stream faults)", "P18": "size-boundary monitor over generated logs",
    "P22": "exhaustive code-table monitor over generated logs", "C05": "fault-injection monitor (damaged configurations)"}
NOTE = ("The real library is run on inputs written by an independent writer, and an oracle compares everything it returns with the "
        "facts the input was made from. Nothing outside the inputs explored is decided; the writer, the oracle and the name tables "
        "(checked against the genuine captures in the repository) are trusted.")


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)["id"]
        checks.append({
            "property": p, "quick_cmd": "env VERIF_TIER=quick python3 run.py " + p,
            "thorough_cmd": "env VERIF_TIER=thorough python3 run.py " + p,
            "technique": "runtime monitoring: " + SPECIAL.get(p, GROUP[p[0]]), "level": "exploration", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3 run.py setup",
         "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo are needed: the library is pure Python and every property is observable through its API, its "
                  "streams and the interpreter's own monitoring events."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
