"""Views of a generated database."""
from harness.ctx import *


def generated(res):
    return res.exc is None and res.json is not None


def zone(res, name):
    """The generated zone, or None (aborted or not emitted)."""
    if not generated(res):
        return None
    zm = res.json['zones_map']
    return zm[name] if name in zm else None


def eras(res, name):
    z = zone(res, name)
    return None if z is None else z['eras']


def policy(res, name):
    if not generated(res):
        return None
    pm = res.json['policies_map']
    return pm[name] if name in pm else None


def rules(res, name):
    p = policy(res, name)
    return None if p is None else p['rules']


def with_letter(rs, letter, anchors=False):
    """Generated rules (anchors excluded) having a concrete letter."""
    return [r for r in rs if r['letter'] == letter
            and (anchors or not is_anchor(r))]


def is_anchor(r):
    return bool(r['from_year'] == -32767)


def names(m):
    return list(m.keys())
