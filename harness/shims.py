"""Stand-ins for what this environment lacks (they replace no code of pysgmcmc)."""
import sys
import types
import logging


def install():
    logging.disable(logging.CRITICAL)
    import numpy as np
    # arspy was written for numpy with np.int; give its module a numpy that has it
    try:
        import arspy.ars as ars

        class NP(types.ModuleType):
            def __getattr__(self, name):
                if name in ("int", "float", "bool", "object"):
                    return {"int": int, "float": float, "bool": bool, "object": object}[name]
                return getattr(np, name)
        for m in list(sys.modules.values()):
            if getattr(m, "__name__", "").startswith("arspy") and getattr(m, "np", None) is np:
                m.np = NP("numpy")
            if getattr(m, "__name__", "").startswith("arspy") and getattr(m, "numpy", None) is np:
                m.numpy = NP("numpy")
    except ImportError:
        pass
    # pymc3 is not installed: the classes pysgmcmc derives its traces from
    if "pymc3" not in sys.modules:
        from harness import fake_pymc3
        fake_pymc3.install()
