"""Common shape of a property's check."""
import copy
import json
import random


class Prop:
    id = "?"
    rule = ""
    real = []
    stubs = []
    assumptions = []
    known_list = []
    quick = {"wall": 45, "runs": 200000, "timeout": 60, "min_wall": 60}
    thorough = {"wall": 600, "runs": 10 ** 7, "timeout": 120, "min_wall": 150}

    def budget(self, tier):
        return self.thorough if tier == "thorough" else self.quick

    def rng(self, seed, i):
        return random.Random(f"{self.id}:{seed}:{i}")

    def known(self, v):
        return any(k["sig"] == v.get("sig") for k in self.known_list)

    def prepare(self):
        """Work done once, before any run."""

    # to be provided: gen(seed, i), execute(spec), elements(spec), drop(spec, els), explicit(spec, rec)
    def explicit(self, spec, rec):
        s = copy.deepcopy(spec)
        s["sched"] = {"phases": rec["sched"]}
        s["faults"] = {"phases": rec["faults"]}
        return s

    def elements(self, spec):
        out = []
        for i, ph in enumerate(spec["phases"]):
            out += [["phase", i]] if len(spec["phases"]) > 1 and not ph.get("fixed") else []
        for i, ph in enumerate(spec["phases"]):
            for c, ops in ph["clients"].items():
                out += [["op", i, o["id"]] for o in ops if not o.get("fixed")]
        for i, f in enumerate(spec["faults"].get("phases", [])):
            out += [["fault", i, k] for k in f.get("list", {})]
        for i, f in enumerate(spec["sched"].get("phases", [])):
            out += [["switch", i, k] for k in f.get("switches", {})]
        for i, r in enumerate(spec.get("pre", [])):
            out.append(["pre", r["v"]])
        for i, ph in enumerate(spec["phases"]):
            for ops in ph["clients"].values():
                for o in ops:
                    if o["k"] == "bulk":
                        out += [["rec", i, o["id"], r["v"]] for r in o["recs"]][:400]
        return out

    def drop(self, spec, els):
        s = copy.deepcopy(spec)
        gone = {json.dumps(e) for e in els}

        def g(*e):
            return json.dumps(list(e)) in gone
        for i, ph in enumerate(s["phases"]):
            if g("phase", i):
                for c in ph["clients"]:
                    ph["clients"][c] = []
                ph["end"] = "kill"
            for c in ph["clients"]:
                ph["clients"][c] = [o for o in ph["clients"][c] if not g("op", i, o["id"])]
                for o in ph["clients"][c]:
                    if o["k"] == "bulk":
                        o["recs"] = [r for r in o["recs"] if not g("rec", i, o["id"], r["v"])]
        for i, f in enumerate(s["faults"].get("phases", [])):
            f["list"] = {k: v for k, v in f["list"].items() if not g("fault", i, k)}
        for i, f in enumerate(s["sched"].get("phases", [])):
            f["switches"] = {k: v for k, v in f["switches"].items() if not g("switch", i, k)}
        if s.get("pre"):
            s["pre"] = [r for r in s["pre"] if not g("pre", r["v"])]
        return s
