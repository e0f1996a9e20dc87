"""Properties decided with the Python interpreter in interp.py."""
import functools

import checks_units as CU
import models as M
from core import Result
from av import (Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Union, alts,
                consistent)

INTERP_ASSUMES = [
    'Python, numpy and pint behave as the models in lib/models.py and '
    'lib/extmodels.py say; calls to anything else give an unknown value, '
    'about which nothing is reported.',
    'Symbolic arguments have the types their annotations and docstrings '
    'state; loops are followed to a fixed point and branches on unknown '
    'values both ways.']


def base(res, d):
    res.assumptions += INTERP_ASSUMES
    it = d.it
    if len(d.broken) > max(10, len(d.done)//2):
        raise RuntimeError(f'interpreter fails on {len(d.broken)} entries, '
                           f'e.g. {d.broken[0]}')
    if d.broken:
        print('not interpreted:', d.broken)
    res.coverage['entry_points'] = len(d.done)
    res.coverage['functions_interpreted'] = len(it.visited)
    res.coverage['entries_not_interpreted'] = d.broken[:20]
    res.coverage['unmodelled'] = dict(sorted(
        it.gaps.items(), key=lambda kv: -kv[1])[:25])


def _emit(res, evs, rule):
    for e in evs:
        path, qual = e['where'].rsplit(':', 1)
        res.add(rule(e), path, e['line'], f"{qual}: {e['msg']} (reached from "
                f"{e['entry']}: {e['stack']})", f"{qual}|{e['key']}")


def _symbolic(e):
    return '$' in e['msg'] or e['kind'] == 'literal'


def unit_independence(prop='P01'):
    """Every public entry point of the package is interpreted abstractly from
    its source, once, with symbolic arguments: a Quantity argument x is a
    number in an unknown unit $x.  Each abstract number carries the unit it is
    in; .to/.ito/.magnitude/ureg(...)/arithmetic transform it by unit algebra.
    Reported: a number still in the caller's unit $x that is added to, compared
    with, stored as or labelled as a number in another unit, and a constant
    (a literal, or the default absolute tolerance of isclose/allclose) compared
    with or added to such a number."""
    d, u = CU.run()
    res = Result()
    base(res, d)
    res.count('entry points interpreted', len(d.done))
    res.count('values whose unit was decided', u.stats['ok'])
    res.count('operations checked', len(d.it.agreed))
    _emit(res, [e for e in d.it.events if _symbolic(e)
                and e['kind'] in ('literal', 'mismatch', 'label')],
          lambda e: e['kind'])
    res.samples = u.samples[:40]
    return res


def unit_labels(prop='P02'):
    """The same interpretation as P01.  Reported: any quantity that reaches a
    result, a constructor or an object's attribute, or a dictionary entry
    paired with a '..._unit' entry, whose number is known to be in a unit
    other than its label, and any sum, comparison or concatenation of numbers
    in two different known units.  File contents in a unit stated by the file
    are unit variables, which agree with one label only."""
    d, u = CU.run()
    res = Result()
    base(res, d)
    res.count('quantities whose label was decided', u.stats['ok'] - u.pairs)
    res.count('dictionary value/unit pairs decided', u.pairs)
    _emit(res, [e for e in d.it.events
                if e['kind'] in ('mismatch', 'label')], lambda e: e['kind'])
    res.notes.append(f"undecided: {u.stats['unknown']}")
    res.samples = u.samples[:40]
    return res


def unit_both():
    """P01 and P02 at once (used by tools/mut.py)"""
    d, u = CU.run()
    res = Result()
    base(res, d)
    _emit(res, d.it.events, lambda e: e['kind'])
    return res


def unit_attributes(prop='P03'):
    """For every public property x of a data class with a companion x_unit,
    the class's own assignment code is interpreted four times on a symbolic
    object: x_unit given a convertible unit, x_unit given a unit nothing
    converts to, x given a quantity in an unknown unit $v, x given a quantity
    nothing converts.  Reported: an unconvertible value that is accepted or
    that changes any attribute; an accepted one that is not what is read back,
    in the unit named, or that changes another attribute; a unit accepted on
    account of a conversion context the getter does not use."""
    import checks_attr as CA
    d, found, n = CA.run()
    res = Result()
    base(res, d)
    res.count('properties with a unit attribute', n['pairs'])
    res.count('assignments interpreted', n['assignments'])
    for rule, key, x, msg, line, name, gi in found:
        res.add(rule, d.it.path(gi.mod), line, f'{name}: {msg}',
                f'{name}|{msg[:40]}')
    return res
