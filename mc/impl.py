"""Loads the native and the pure-Python variant of frds side by side in one process."""
import importlib
import os
import sys
import types

NAMES = {
    "alg": "frds.algorithms",
    "measures": "frds.measures",
    "spread": "frds.measures.spread",
    "price_impact": "frds.measures.price_impact",
    "lob": "frds.measures.lob_slope",
    "fftsmooth": "frds.measures.modified_merton.fftsmooth",
    "loan_payoff": "frds.measures.modified_merton.loan_payoff",
    "face": "frds.measures.modified_merton.find_face_value_indiv",
    "merton": "frds.measures.modified_merton.merton_solution",
    "mod_merton": "frds.measures.modified_merton.mod_merton_computation",
    "mod_lookup": "frds.measures.modified_merton.mod_merton_create_lookup",
    "single": "frds.measures.modified_merton.mod_single_cohort_computation",
    "single_lookup": "frds.measures.modified_merton.mod_single_merton_create_lookup",
    "datasets": "frds.datasets",
    "iforest": "frds.algorithms.isolation_forest",
    "utils_ext": "frds.algorithms.utils.utils_ext",
    "measures_ext": "frds.measures.measures_ext",
    "iforest_ext": "frds.algorithms.isolation_forest.iforest_ext",
}


class Variant:
    """Imports modules of one variant on first use, isolated from the other one."""

    def __init__(self, name, path):
        self._name, self._path, self._mods = name, path, {}

    def _get(self, modname):
        stash = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "frds" or k.startswith("frds.")}
        sys.modules.update(self._mods)
        sys.path.insert(0, self._path)
        importlib.invalidate_caches()
        try:
            m = importlib.import_module(modname)
            f = getattr(m, "__file__", None)
            if f and not os.path.abspath(f).startswith(self._path):
                raise RuntimeError("loaded %s from %s, not from %s" % (modname, f, self._path))
        finally:
            sys.path.remove(self._path)
            for k in list(sys.modules):
                if k == "frds" or k.startswith("frds."):
                    self._mods[k] = sys.modules.pop(k)
            sys.modules.update(stash)
        return m

    def __getattr__(self, key):
        if key.startswith("_"):
            raise AttributeError(key)
        m = self._get(NAMES[key])
        setattr(self, key, m)
        return m

    def activate(self):
        """Keeps this variant importable (for imports done inside functions)."""
        self._get("frds")
        sys.modules.update(self._mods)
        if self._path not in sys.path:
            sys.path.insert(0, self._path)

    def __repr__(self):
        return self._name


native = None
pure = None
variants = {}
paths = {}


def load(p):
    global native, pure, variants, paths
    paths = p
    sys.dont_write_bytecode = True
    native = Variant("native", p["native"])
    pure = Variant("pure", p["pure"])
    variants = {"native": native, "pure": pure}
    # preload everything that most checks use, so that workers fork it
    for v in (native, pure):
        v.alg, v.measures
    native.activate()
