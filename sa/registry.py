"""property id -> check function"""
import json
import os
from . import scen
from .checks import fe, data, models, geometry, misc, examples

CHECKS = {}
for _m in (fe, data, models, geometry, misc, examples):
    for _n in dir(_m):
        if len(_n) == 3 and _n[0] == "C" and _n[1:].isdigit():
            CHECKS[_n] = getattr(_m, _n)

# double precision end to end: no literal request for a narrower floating type where these values are computed
DOUBLE = {"C10", "C21", "C23", "C35", "C30", "C31", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C18", "C19", "C20", "C22"}


def _with_precision(fn):
    def run(c):
        fn(c)
        c.scen = ""
        c.rule("no value on the analysed paths is converted to a floating type narrower than the inputs' double precision by a literal in the source")
        sites = {}
        for site, how in c.I.narrow_sites:
            if site and site[0].startswith(("fastvpinns/FE/", "fastvpinns/Geometry/", "fastvpinns/data/", "fastvpinns/utils/")):
                sites.setdefault(tuple(site), how)
        for site, how in sorted(sites.items()):
            c.record(f"double precision kept in {site[1]}", False, f"{how} with a literal single/half precision type", site)
        if not sites:
            c.record("double precision kept on every analysed path", True)
    return run


# shapes that library calls treat specially (axes of length one, empty remainders): the same scenarios with
# every size at its lower bound, and in the thorough tier one above it
SIZED = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C20", "C21", "C23", "C26",
         "C28", "C31", "C34", "C35"}


def _with_sizes(fn):
    def run(c):
        fn(c)
        for k in (1,) if c.tier == "quick" else (1, 2):
            scen.SMALL[0] = k
            try:
                fn(c)
            finally:
                scen.SMALL[0] = 0
    return run


for _n in SIZED & set(CHECKS):
    CHECKS[_n] = _with_sizes(CHECKS[_n])

for _n in DOUBLE & set(CHECKS):
    CHECKS[_n] = _with_precision(CHECKS[_n])

TITLES = {}
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if os.path.exists(_p):
    for _l in open(_p):
        if _l.strip():
            _d = json.loads(_l)
            TITLES[_d["id"]] = _d["title"]

ASSUMPTIONS = [
    "real arithmetic in place of floating point (round-off is out of scope)",
    "the declared models of numpy/scipy/tensorflow/keras/pandas/meshio/gmsh/matplotlib describe the pinned library versions",
    "Python attribute lookup is not changed at run time by code outside the package",
    "identities left open by the normal form are decided by random interpretation of terms (error probability negligible, not zero)",
]
