"""P03: properties with a unit attribute."""
import ast

import models as M
from core import Result
from driver import Driver, RECEIVERS
from interp import State, Frame, Diverge
from units import atom
from av import Const, Str, Num, Qty, Ref, Union, Cell, alts, E, consistent


def unit_pairs(d):
    """(class name, class key, X) with an attribute X_unit and property X"""
    it = d.it
    out = []
    for cname in RECEIVERS:
        key = d.clskey(cname)
        if key is None:
            continue
        st = State()
        o = d.obj(st, key, 'self')
        c = it.cell(o, st)
        if c is None:
            continue
        for a in sorted(c.attrs):
            if a.endswith('_unit') and not a.startswith('_') and \
                    it.find(key, a[:-5], 'props'):
                out.append((cname, key, a[:-5]))
    return out


def ctx_names(it, args):
    out = set()
    for a in args:
        for x in alts(a):
            out.add(x.v if isinstance(x, Const) else '?')
    return frozenset(out)


def snapshot(it, o, st):
    """what an object's attributes hold, without provenance"""
    def show(v):
        if isinstance(v, Union):
            return 'U(' + ','.join(sorted(show(a) for a in v.alts)) + ')'
        if isinstance(v, Str):
            return f'str:{v.unit}:{v.opts}'
        if isinstance(v, Qty):
            return f'q:{v.label}:{v.num.tag}'
        if isinstance(v, Num):
            return f'n:{v.tag}:{sorted(v.deps)}'
        if isinstance(v, Const):
            return f'c:{v.v!r}'
        return type(v).__name__
    c = it.cell(o, st)
    return {k: show(v) for k, v in c.attrs.items()}


def run():
    sets, convs = [], []

    def on_set(it, o, c, name, v, st, node):
        sets.append((name, v, getattr(node, 'lineno', 0)))

    def on_conv(it, q, u, rest, st, node):
        convs.append((ctx_names(it, rest), getattr(node, 'lineno', 0)))

    d = Driver({'setattr': on_set, 'convert': on_conv})
    it = d.it
    it.strict = True
    found = []          # (rule, class key, attr, msg, line, name)
    n = {'pairs': 0, 'assignments': 0}

    def attempt(key, attr, value, bad=None):
        st = State()
        o = d.obj(st, key, 'self')
        before = snapshot(it, o, st)
        it.entry, it.unitvars, it.unit_tests = f'{attr}=', {}, {}
        it.n_ops, it.first_div, it.budget = 0, None, 12000
        it.frame = Frame(None, it.classes[key].mod, '<assign>', None, None)
        it.bad = bad
        del sets[:], convs[:]
        n['assignments'] += 1
        try:
            it.setattr_(o, attr, value, st, None)
            ok, outs = True, [st]
        except Diverge as e:
            ok, outs = False, [x for x, _ in e.excs]
        finally:
            it.frame = None
            it.bad = None
        return st, o, before, ok, outs, list(sets), list(convs)

    def get(key, x, st, o):
        del convs[:]
        it.frame = Frame(None, it.classes[key].mod, '<read>', None, None)
        try:
            v = it.getattr_(o, x, st)
        except Diverge:
            v = None
        finally:
            it.frame = None
        return v, list(convs)

    BAD = atom('$bad')
    for cname, key, x in unit_pairs(d):
        n['pairs'] += 1
        owner = it.find(key, x, 'props')
        cls = owner[0] if owner else key
        g = owner[1].get('get')
        gi = it.fninfo(g)
        line = gi.node.lineno
        ua = x + '_unit'

        def add(rule, msg):
            found.append((rule, key, x, msg, line, f'{cname}.{x}', gi))
        try:
            # a convertible unit
            u = atom('$u')
            st, o, before, ok, outs, ss, cv = attempt(
                key, ua, Str(u, None, E))
            if not ok:
                add('accept', f'assigning {ua} raises for every unit')
            else:
                after = snapshot(it, o, st)
                if after.get(ua) != f'str:{u}:None':
                    add('accept', f'assigning {ua} does not store the unit '
                        f'given ({after.get(ua)})')
                for k in after:
                    if k != ua and after[k] != before.get(k):
                        add('accept', f'assigning {ua} changes {k}')
                v, gc = get(key, x, st, o)
                for a in alts(v) if v is not None else ():
                    if isinstance(a, Qty):
                        if a.label is not None and a.label != u:
                            add('getter', f'{x} is in {a.label} when {ua} '
                                f'is {u}')
                        elif consistent(a) is False:
                            add('getter', f'numbers of {x} are in '
                                f'{a.num.tag} but labelled {a.label}')
                # the check allows only what the getter can do
                allow = set().union(*[c for c, _ in cv]) if cv else set()
                can = set().union(*[c for c, _ in gc]) if gc else set()
                if gc and not allow <= can:
                    add('context', f'{ua} is accepted if convertible with '
                        f'{sorted(allow)}, but {x} is converted without it, '
                        'so an accepted unit can make it unreadable')
            # an incompatible unit
            st, o, before, ok, outs, ss, cv = attempt(
                key, ua, Str(BAD, None, E), BAD)
            if ok:
                add('reject', f'assigning {ua} an incompatible unit does not '
                    'always raise')
            for s in outs if not ok else ():
                after = snapshot(it, o, s)
                ch = [k for k in after if after[k] != before.get(k)]
                if ch:
                    add('reject', f'a rejected {ua} changes {ch}')
            if 'set' not in owner[1]:
                continue
            # a new value
            w = atom('$v')
            q = Qty(w, Num(w, False, None, 'float64', None,
                           frozenset({'value'}), frozenset({'value'})))
            st, o, before, ok, outs, ss, cv = attempt(key, x, q)
            if not ok:
                add('set', f'assigning {x} always raises')
            else:
                after = snapshot(it, o, st)
                if after.get(ua) != f'str:{w}:None':
                    add('set', f'assigning {x} leaves {ua} at '
                        f'{after.get(ua)}')
                v, _ = get(key, x, st, o)
                for a in alts(v) if v is not None else ():
                    if isinstance(a, Qty):
                        if 'value' not in a.deps:
                            add('set', f'{x} read back is not the value '
                                'assigned')
                        elif a.num.tag is not None and a.label is not None \
                                and a.num.tag != a.label:
                            add('set', f'{x} read back has numbers in '
                                f'{a.num.tag} labelled {a.label}')
                for k in after:
                    if k in (ua, '_' + x):
                        continue
                    if after[k] != before.get(k):
                        add('set', f'assigning {x} changes {k}')
            q = Qty(BAD, Num(BAD, False, None, 'float64', None,
                             frozenset({'value'}), frozenset({'value'})))
            st, o, before, ok, outs, ss, cv = attempt(key, x, q, BAD)
            if ok:
                add('reject', f'assigning {x} a value in an incompatible '
                    'unit does not always raise')
            for s in outs if not ok else ():
                after = snapshot(it, o, s)
                ch = [k for k in after if after[k] != before.get(k)]
                if ch:
                    add('reject', f'a rejected value for {x} changes {ch}')
        except (KeyError, AttributeError, TypeError, ValueError, IndexError,
                RecursionError) as e:
            d.broken.append((f'{cname}.{x}', f'{type(e).__name__}: {e}'))
    return d, found, n


if __name__ == '__main__':
    d, f, n = run()
    for x in f:
        print(x[0], x[5], x[3])
    print(n, d.broken)
