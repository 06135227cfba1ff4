"""Run by C16 in a new interpreter: import modules in the given order, look everything up."""
import importlib
import json
import sys

a = json.loads(sys.argv[1])
sys.path.insert(0, a["src"])
for m in a["pre"]:
    try:
        importlib.import_module(m)
    except Exception:
        pass
fns = {"pysatl_criterion.utils.generator": ("gen", "get_available_generator"),
       "pysatl_criterion.utils.statistic": ("crit", "get_available_criteria"),
       "pysatl_criterion.utils.distribution": ("desc", "get_available_distribution_descriptor")}
out = []
for m in a["ask"]:
    kind, name = fns[m]
    f = getattr(importlib.import_module(m), name)
    from pysatl_criterion import DistributionType
    for d in DistributionType:
        try:
            x = f(d, None) if kind == "gen" else f(d)
            if kind == "crit":
                r = {"codes": [str(c) for c in x]}
            else:
                t = x.distribution_type() if kind == "gen" else x.type()
                r = {"cls": type(x).__module__ + "." + type(x).__qualname__, "type": t.value}
                if kind == "gen":
                    r["params"] = {str(k): float(v) for k, v in x.parameters().items()}
                else:
                    r["params"] = [[p.name, p.default, type(p.validator).__name__] for p in x.parameters()]
        except Exception as e:
            r = {"fails": type(e).__name__}
        out.append([kind, d.value, r])
print(json.dumps(out))
