def load(pid):
    from . import store, sync, calc, mc, gens, decide, lookup, multi
    for m in (store, sync, calc, mc, gens, decide, lookup, multi):
        c = getattr(m, pid, None)
        if c is not None:
            return c()
    raise SystemExit(f"unknown property {pid}")
