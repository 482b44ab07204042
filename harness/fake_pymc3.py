"""The parts of pymc3 that pysgmcmc.diagnostics uses (pymc3 is not installed here)."""
import sys
import types


class BaseTrace(object):
    """pymc3.backends.base.BaseTrace reduced to what subclasses rely on"""
    def __init__(self, name=None, model=None, vars=None):
        self.name, self.model, self.vars = name, model, vars

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            return self._slice(idx)
        try:
            return self.point(int(idx))
        except (ValueError, TypeError):
            pass
        return self.get_values(idx)


class MultiTrace(object):
    """keeps the straces by chain id, as pymc3 does"""
    def __init__(self, straces):
        self._straces = {}
        for s in straces:
            if s.chain in self._straces:
                raise ValueError("Chains are not unique.")
            self._straces[s.chain] = s

    @property
    def nchains(self):
        return len(self._straces)

    @property
    def chains(self):
        return sorted(self._straces)

    @property
    def varnames(self):
        return self._straces[self.chains[-1]].varnames

    def __len__(self):
        return len(self._straces[self.chains[-1]])

    def get_values(self, varname, burn=0, thin=1, combine=True, chains=None, squeeze=True):
        return [self._straces[c].get_values(varname, burn, thin) for c in (chains or self.chains)]


calls = []


def effective_n(mtrace, varnames=None, include_transformed=False):
    calls.append(("effective_n", mtrace))
    return {"effective_n": id(mtrace)}


def gelman_rubin(mtrace, varnames=None, include_transformed=False):
    calls.append(("gelman_rubin", mtrace))
    return {"gelman_rubin": id(mtrace)}


def install():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    base = mod("pymc3.backends.base", BaseTrace=BaseTrace, MultiTrace=MultiTrace)
    diag = mod("pymc3.diagnostics", effective_n=effective_n, gelman_rubin=gelman_rubin)
    backends = mod("pymc3.backends", base=base)
    pm = mod("pymc3", backends=backends, diagnostics=diag, effective_n=effective_n, gelman_rubin=gelman_rubin)
    pm.__path__, backends.__path__ = [], []
