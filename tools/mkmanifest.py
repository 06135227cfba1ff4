"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
STORE = ("seeded search over simulated executions of the real storage code, SQLAlchemy and SQLite on a simulated disk, clock and thread scheduler; "
         "a failure comes with a minimised, exactly repeatable schedule and fault trace. Nothing is claimed about executions that were not run; "
         "trusts the simulated disk's durability model and the reference map model.")
NOTES = {p: STORE for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}
SYNC = ("seeded search over simulated executions of the real loader with two real stores on two simulated machines joined by a simulated network; trusts the "
        "network model (requests reach the remote storage object through a proxy) and the simulated disks. Nothing is claimed about executions that were not run.")
NOTES.update({p: SYNC for p in ("C08", "C09", "C10")})
CALC = ("seeded search over simulated executions of the real statistics, generators and resolvers in one process whose threads are pre-empted at lines and draws and whose draws and lines fail; "
        "native code of numpy and scipy runs whole between yield points. Nothing is claimed about executions that were not run. ")
NOTES["C11"] = CALC + "Oracle: the same evaluation alone in a fresh process."
NOTES["C12"] = CALC + "Oracle: the samples seen by the statistic, the reference law and an undisturbed process; distribution comparisons have an error probability below 1e-10 and bounded power."
NOTES["C13"] = CALC + "Oracle: reference laws written independently of the code; distribution comparisons have an error probability below 1e-10 and bounded power."
NOTES["C15"] = CALC + "Oracle: reference laws written independently of the code and a pristine process; distribution comparisons have an error probability below 1e-10 and bounded power."
NOTES["C14"] = STORE + " Decisions are judged against the lists the reference model allows at that moment, ties counted either way, numbers up to single precision."
NOTES["C16"] = ("seeded search over simulated processes that differ in class and enumeration hash order, directory order, import order, earlier and concurrent lookups and interruptions; a few runs start a "
                "new interpreter with another string-hash seed. Imports themselves are not pre-empted or interrupted.")
NOTES["C17"] = ("seeded search over simulated campaigns of experiments (p-values of true hypotheses drawn uniform under random and least favourable dependence) and over simulated threads adjusting "
                "lists, pre-empted and interrupted at lines. Oracle: the level itself with a Chernoff bound of error 1e-12 per campaign, and the same adjustment in a pristine process. Bounded power: an excess of "
                "about 7% of the level is found at level 0.3. One known finding (Holm) is suppressed by its exact behaviour.")
NA = {
    "C18": "pure function of the sample: whether a formula is the published one has nothing to do with scheduling or faults (independence from schedules, history and interruption is claimed as C11)",
    "C19": "pure function of the sample (optimisation of a likelihood): no source of nondeterminism or fault for a simulator to control",
    "C20": "pure functions of parameters and argument: agreement of pdf, cdf and ppf does not depend on schedules, time, I/O or faults (the sampling side is claimed as C13 and C15)",
}
TODO = "check not built yet"


def main():
    out = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo: every seam (SQLite VFS, thread locks, clock, native compression, line events, numpy's global generator) is installed from outside. "
                    "Each check runs /repo's working tree directly through the editable install path /repo/src; nothing is built."}
    ids = []
    with open(os.path.join(HERE, "..", "properties.jsonl")) as f:
        for ln in f:
            ids.append(json.loads(ln)["id"])
    for p in ids:
        if p in NOTES:
            out["checks"].append({
                "property": p, "quick_cmd": f"/opt/venv/bin/python check.py {p} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection",
                "level": "exploration", "level_note": NOTES[p]})
        else:
            out["not_applicable"].append({"property": p, "reason": NA.get(p, TODO)})
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
