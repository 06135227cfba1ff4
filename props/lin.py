"""Linearizability / refinement of a store history against a small reference model.

The model is a map from a record's primary key to its values.  Every operation of the
history has an interval [inv, ret] in global event sequence numbers.  Operations that
failed or never returned may have taken effect once inside their interval, or not at all;
operations known to be rejected (bad input) must not have taken effect.
"""
import sys

sys.setrecursionlimit(20000)
INF = 1 << 60


class TooHard(Exception):
    pass


class Model:
    """Immutable-by-convention map  pk -> value token; pk = (exp, code, params, n, m)."""

    @staticmethod
    def key_match(pk, q):
        return pk[1:] == q

    @staticmethod
    def apply(state, op):
        k = op["k"]
        if k == "ins":
            s = dict(state)
            s[op["pk"]] = op["val"]
            return s
        if k == "bulk":
            if not op["recs"]:
                return state
            s = dict(state)
            for pk, v in op["recs"]:
                s[pk] = v
            return s
        if k == "del":
            q = op["q"]
            if any(pk[1:] == q for pk in state):
                return {pk: v for pk, v in state.items() if pk[1:] != q}
            return state
        if k == "wipe":
            return {}
        return state

    @staticmethod
    def accepts(state, op, res):
        """Is `res` a right answer of read `op` in `state`?"""
        k = op["k"]
        if k == "dec":
            hits = [pk for pk in state if pk[1] == res["c"] and pk[2] == res["p"] and pk[3] == res["n"]]
            if res["tok"] is None:
                return not hits
            return any(state[pk] in res["tok"] for pk in hits)
        if k == "get":
            q = op["q"]
            hits = [pk for pk in state if pk[1:] == q]
            if res is None:
                return not hits
            return res[0] in state and res[0][1:] == q and state[res[0]] == res[1]
        if k == "cv":
            hits = [pk for pk in state if pk[1] == op["code"] and abs(pk[3] - op["n"]) <= op["err"]]
            if res is None:
                return not hits
            if not hits:
                return False
            best = max(pk[4] for pk in hits)
            return res[0] in hits and res[0][4] == best and state[res[0]] == res[1]
        if k == "bget":
            hits = {}
            for pk in state:
                if pk[1] in op["codes"] and abs(pk[3] - op["n"]) <= op["err"]:
                    hits.setdefault(pk[1], []).append(pk)
            if len(res) != len(hits):
                return False
            seen = set()
            for pk, v in res:
                if pk[1] in seen or pk[1] not in hits or pk not in hits[pk[1]]:
                    return False
                seen.add(pk[1])
                if pk[4] != max(x[4] for x in hits[pk[1]]) or state[pk] != v:
                    return False
            return True
        raise AssertionError(k)


READS = ("get", "cv", "bget", "dec")
WRITES = ("ins", "bulk", "del", "wipe")


def check(ops, init, budget=40000):
    """ops: dicts with k, inv, ret, out ('ok'|'fail'|'none'|'pending'), res for reads.

    Returns None if the history is linearizable, else a diagnosis string."""
    todo = []
    for o in ops:
        if o["k"] in READS:
            if o["out"] == "ok":
                todo.append(o)
        elif o["k"] in WRITES:
            if o["out"] != "none":
                todo.append(o)
    todo.sort(key=lambda o: o["inv"])
    n = len(todo)
    if n == 0:
        return None
    inv = [o["inv"] for o in todo]
    ret = [o["ret"] if o["ret"] is not None else INF for o in todo]
    read = [o["k"] in READS for o in todo]
    optional = [o["out"] != "ok" for o in todo]
    seen = set()
    best = [-1, None]
    steps = [0]
    states = {}

    def sid(state):
        key = frozenset(state.items())
        return states.setdefault(key, len(states))

    # iterative DFS over (remaining tuple, state)
    stack = [(tuple(range(n)), init)]
    while stack:
        rem, state = stack.pop()
        # settle reads greedily
        while True:
            if not rem:
                return None
            lim = min(ret[i] for i in rem)
            keep = []
            changed = False
            for i in rem:
                if read[i] and inv[i] < lim and Model.accepts(state, todo[i], todo[i]["res"]):
                    changed = True
                else:
                    keep.append(i)
            rem = tuple(keep)
            if not changed:
                break
        key = (rem, sid(state))
        if key in seen:
            continue
        seen.add(key)
        steps[0] += 1
        if steps[0] > budget:
            raise TooHard()
        done = n - len(rem)
        lim = min(ret[i] for i in rem)
        cand = [i for i in rem if inv[i] < lim]
        if done > best[0]:
            best[0] = done
            best[1] = (tuple(rem), cand, state)
        nxt = []
        for i in cand:
            if read[i]:
                continue
            rest = tuple(j for j in rem if j != i)
            nxt.append((rest, Model.apply(state, todo[i])))
            if optional[i]:
                nxt.append((rest, state))
        stack.extend(reversed(nxt))
    rem, cand, state = best[1]
    return describe(todo, rem, cand, state)


def short(op):
    k = op["k"]
    if k == "ins":
        return f"insert {op['pk']}={op['val']}"
    if k == "bulk":
        r = op["recs"]
        return f"batch of {len(r)}: " + ", ".join(f"{p}={v}" for p, v in r[:4]) + (" ..." if len(r) > 4 else "")
    if k == "wipe":
        return "the database file is removed"
    if k == "del":
        return f"delete {op['q']}"
    if k == "get":
        return f"lookup {op['q']}"
    if k == "cv":
        return f"cv-lookup {op['code']} n={op['n']}+-{op['err']}"
    if k == "bget":
        return f"batch lookup {op['codes']} n={op['n']}+-{op['err']}"
    if k == "dec":
        r = op.get("res") or {}
        return f"decision for {r.get('c')} {r.get('p')} n={r.get('n')}: {op.get('what')}"
    return k


def describe(todo, rem, cand, state):
    lines = []
    for i in cand[:6]:
        o = todo[i]
        s = f"{o['id']} by {o.get('task')} [{o['inv']},{o['ret']}] {short(o)} -> {o['out']}"
        if o["k"] in READS:
            s += f" {str(o['res'])[:300]}"
        lines.append(s)
    st = sorted((str(k), str(v)) for k, v in state.items())
    return ("no order of the operations explains the results; stuck at: " + " || ".join(lines) +
            " || model state there: " + ", ".join(f"{k}={v}" for k, v in st[:12]) + (" ..." if len(st) > 12 else ""))
