#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--wall S] [--runs N] [--workers N]
   check.py --selftest <property> : same seeds twice, other worker counts; prints digests"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import zygote  # noqa: E402

zygote.reexec()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests", type=int, help="print the digest of the first N runs and exit")
    ap.add_argument("--one", type=int, help="execute one run index with a trace")
    a = ap.parse_args()
    zygote.warm()
    from sim import runner
    import props.registry as reg
    prop = reg.load(a.prop)
    prop.prepare()
    if a.replay:
        return runner.replay(prop, a.replay)
    if a.one is not None:
        spec = prop.gen(a.seed, a.one)
        spec["trace"] = True
        r = runner.run_forked(prop.execute, spec, 120)
        if r[0] != "ok":
            print(r[0], r[1])
            return 2
        v, st, rec, hist = r[1]
        for ln in st.get("trace", []):
            print(ln)
        for h in hist if isinstance(hist, list) else [hist]:
            print(h)
        print({k: x for k, x in st.items() if k != "trace"})
        print(v)
        return 0
    if a.digests is not None:
        b = runner.search_digests(prop, a.seed, a.workers or 8, a.digests)
        for i in sorted(b):
            print(i, b[i])
        return 0
    return runner.check(prop, a.tier, a.seed, a.workers, a.wall, a.runs)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
