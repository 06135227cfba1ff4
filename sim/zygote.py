"""Process set-up shared by every run: deterministic interpreter, seams, warm imports."""
import ctypes
import gc
import os
import sys


def reexec():
    """Re-execute without address randomisation and with fixed hashing."""
    if os.environ.get("SIM_READY") == "1":
        return
    env = dict(os.environ)
    env["SIM_READY"] = "1"
    env["PYTHONHASHSEED"] = "0"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[v] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        libc.personality(0x0040000)          # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


CLONE = ("pysatl_criterion.persistence", "pysatl_criterion.hypothesis_testing", "pysatl_criterion.utils")


def warm(heavy=True):
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    repo_src = os.environ.get("SIM_REPO", "/repo/src")
    if repo_src not in sys.path:
        sys.path.insert(0, repo_src)
    from . import pyfs, seams, vfs
    seams.install()
    pyfs.install()
    import numpy  # noqa: F401
    import pysatl_criterion  # noqa: F401
    assert os.path.realpath(pysatl_criterion.__file__).startswith(seams.REPO_SRC), pysatl_criterion.__file__
    import pysatl_criterion.persistence.sqlalchemy.datastorage as ds
    import pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader  # noqa: F401
    import pysatl_criterion.hypothesis_testing.limit_distribution.base  # noqa: F401
    import pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test  # noqa: F401
    vfs.register()
    # warm SQLAlchemy's caches so that runs start from one fixed state
    vfs.DISKS["/sim/warm/"] = vfs.Disk()
    pm = import_clone()
    try:
        _exercise(pm)
    except Exception:                        # noqa: BLE001  whatever is wrong shows in the runs
        pass
    del pm, ds
    vfs.reset()
    import sqlalchemy.orm
    for _ in range(20):
        CLONES.append(_import_clone())
    sqlalchemy.orm.configure_mappers()
    CLONES.reverse()
    seams.lines_on()
    gc.collect()
    gc.freeze()
    gc.disable()


def _exercise(pm):
    from sqlalchemy.engine import Engine
    m = pm.model
    s = pm.ds.AlchemyLimitDistributionStorage("sqlite:////sim/warm/w.db")
    try:
        s.init()
        s.insert_data(m.LimitDistributionModel(1, "w", [1], 1, 1, [1.0]))
        s.insert_bulk_data([m.LimitDistributionModel(1, "w", [1], 1, 1, [2.0])])
        s.get_data(m.LimitDistributionQuery("w", [1], 1, 1))
        s.get_bulk_data(["w"], 1, 0)
        s.get_data_for_cv(m.CriticalValueQuery("w", 1))
        s.delete_data(m.LimitDistributionQuery("w", [1], 1, 1))
    finally:
        for e in [x for x in gc.get_objects() if isinstance(x, Engine)]:
            e.dispose()


class Proc:
    """A private copy of the stateful modules of the code under test: what a
    separate process would have (module and class state is not shared)."""


CLONES = []


def import_clone():
    """A fresh process image: taken from the stock prepared in the zygote."""
    return CLONES.pop() if CLONES else _import_clone()


def _import_clone():
    saved = {k: m for k, m in sys.modules.items() if k.startswith(CLONE)}
    for k in saved:
        del sys.modules[k]
    import importlib
    import pysatl_criterion
    keep = {a: getattr(pysatl_criterion, a) for a in ("persistence", "hypothesis_testing", "utils")
            if hasattr(pysatl_criterion, a)}
    try:
        p = Proc()
        p.ds = importlib.import_module("pysatl_criterion.persistence.sqlalchemy.datastorage")
        p.model = importlib.import_module("pysatl_criterion.persistence.models.limit_distribution")
        p.loader = importlib.import_module("pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader")
        p.resolver = importlib.import_module("pysatl_criterion.hypothesis_testing.limit_distribution.base")
        p.gof = importlib.import_module(
            "pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test")
    finally:
        for k in [k for k in sys.modules if k.startswith(CLONE)]:
            del sys.modules[k]
        sys.modules.update(saved)
        for a, m in keep.items():
            setattr(pysatl_criterion, a, m)
    return p
