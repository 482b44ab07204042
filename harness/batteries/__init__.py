"""Run-time evaluation of the contracts on the real code, one function per property."""
import importlib

MODS = {"D": "data", "S": "samplers", "T": "tensors", "F": "factory", "M": "models", "G": "diag"}


class _B(object):
    def __getitem__(self, pid):
        return importlib.import_module("harness.batteries." + MODS[pid[0]]).BATTERY[pid]


BATTERY = _B()
