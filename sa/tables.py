"""Published lookup tables (the oracle for table contents)."""
import json
import os
from . import terms as tm

_t = None
WIDTH = {'GEAR_32': 4, 'GEAR_64': 8, 'GO_BUZHASH': 4, 'BORG_BUZHASH_BASE': 4}


def all_tables():
    global _t
    if _t is None:
        _t = json.load(open(os.path.join(os.path.dirname(__file__), 'tables.json')))
    return _t


def expected(name):
    return all_tables()[name]


def register():
    """make the expected tables readable under their own names"""
    from . import interp as ip
    for k, v in all_tables().items():
        w = WIDTH[k]
        ip.GDATA.setdefault(k, [(i * w, w, ('int', x)) for i, x in enumerate(v)])
