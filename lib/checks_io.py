"""P04: what is written is what is read back."""
from av import (NONE, Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Union, Cell, alts,
                union, same, E, INTS)
from core import Result
from driver import Driver, RECEIVERS
from interp import State, Frame, Diverge


class Serial:
    """JSON: what is written to the file and what is read from it"""

    def __init__(self, d):
        self.d, self.bad, self.n = d, [], 0
        it = d.it
        it.json, it.json_in = [], self.load

    def load(self, c):
        vals = [v for v, st, node in self.d.it.json]
        if not vals:
            return c.top()
        return union([self.parsed(v, c, {}) for v in vals])

    def parsed(self, v, c, seen):
        if isinstance(v, Union):
            return union([self.parsed(a, c, seen) for a in v.alts])
        if isinstance(v, Tup):
            return c.i.new_list(c.st, [self.parsed(a, c, seen)
                                       for a in v.items])
        if isinstance(v, Ref):
            if v.addr in seen:
                return seen[v.addr]
            cell = c.i.cell(v, c.st)
            if cell is None or cell.kind not in ('list', 'dict'):
                return v
            r = seen[v.addr] = c.i.alloc(c.st, Cell(cell.kind))
            c.i.setcell(r, c.st, cell.with_(
                ext=E,
                attrs={k: self.parsed(x, c, seen)
                       for k, x in cell.attrs.items()},
                items=None if cell.items is None else tuple(
                    self.parsed(x, c, seen) for x in cell.items),
                elem=None if cell.elem is None
                else self.parsed(cell.elem, c, seen)))
            return r
        return v

    def written(self, v, st, path=''):
        """parts of what is written that JSON cannot hold"""
        it = self.d.it
        for a in alts(v):
            self.n += 1
            if isinstance(a, Tup):
                for x in a.items:
                    yield from self.written(x, st, path)
            elif isinstance(a, (Qty, UnitV)):
                yield path, 'a quantity'
            elif isinstance(a, Num):
                if a.arr and 'list' not in a.flags:
                    yield path, 'an array'
                elif a.dtype == 'complex128':
                    yield path, 'complex numbers'
            elif isinstance(a, Ref):
                c = it.cell(a, st)
                if c is None:
                    continue
                if c.kind in ('obj', 'set'):
                    yield path, 'an object'
                    continue
                for k, x in c.attrs.items():
                    yield from self.written(x, st, f'{path}.{k}')
                for x in list(c.items or ()) + (
                        [c.elem] if c.elem is not None else []):
                    yield from self.written(x, st, path)


def shown(v):
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, (Num, Qty)):
        s = same(v)
        return 'something computed' if not s else '/'.join(sorted(s))
    return type(v).__name__


class Compare:
    def __init__(self, d, st, skip):
        self.d, it = d, d.it
        self.it, self.st, self.diff, self.n = it, st, [], 0
        self.skip = skip

    def cells(self, a, b, path, seen=()):
        """every value b may have is a's; a may be"""
        self.n += 1
        for x in alts(b):
            why = None
            for y in alts(a):
                why = self.one(y, x, path, seen)
                if why is None:
                    break
            else:
                self.diff.append((path, why))
        if any(path in self.it.deps_of(y, self.st) for y in alts(a)) and \
                not any(path in self.it.deps_of(x, self.st) or self.seen(x)
                        for x in alts(b)):
            self.diff.append((path, 'is lost, or replaced by something else'))
        for y in alts(a):
            none = isinstance(y, Const) and y.v is None
            if not any((isinstance(x, Const) and x.v is None) == none
                       for x in alts(b)):
                self.diff.append((path, 'is never read back as None although '
                                  'it may be written so' if none else
                                  'is lost: None is always read back'))

    def one(self, a, b, path, seen):
        it, st = self.it, self.st
        if isinstance(a, Ref) and isinstance(b, Ref):
            c, e = it.cell(a, st), it.cell(b, st)
            if c is None or e is None:
                return None
            if c.kind != e.kind:
                return f'is a {c.kind}, read back as a {e.kind}'
            if c.kind == 'obj':
                if not it.subclass(e.cls, c.cls):
                    return (f'is a {c.cls.split(":")[-1]}, read back as a '
                            f'{e.cls.split(":")[-1]}')
                if (a.addr, b.addr) in seen:
                    return None
                for k, x in c.attrs.items():
                    if f'{path}.{k}' in self.skip:
                        continue
                    g = k.startswith('_') and it.find(
                        c.cls, k[1:], 'props')
                    if g and path == 'self' and 'get' in g[1]:
                        self.getter(a, b, k[1:], f'{path}.{k}')
                        continue
                    if k.startswith('_') and not g and not self.top(x):
                        continue    # not visible
                    if k not in e.attrs:
                        self.diff.append((f'{path}.{k}', 'is not set in the '
                                          'object read back'))
                        continue
                    self.cells(x, e.attrs[k], f'{path}.{k}',
                               seen + ((a.addr, b.addr),))
                return None
            return self.container(a, b, path)
        if isinstance(a, Top) and not a.same and not isinstance(
                b, (Ref, Const)):
            return None
        if isinstance(b, Top):
            return None if not b.same and path in it.deps_of(b, st) or \
                path in b.same or same(a) & b.same else \
                'does not come from what was written for it'
        if isinstance(a, Top):
            if isinstance(b, Const) and b.v is None:
                return 'is read back as None'
            return None if path in it.deps_of(b, st) or isinstance(
                b, Const) else 'does not come from what was written for it'
        if isinstance(a, (Num, Qty)) and isinstance(b, (Num, Qty)):
            if type(a) is not type(b):
                return 'is a quantity, read back as a number' if isinstance(
                    a, Qty) else 'is a number, read back as a quantity'
            if isinstance(a, Qty) and a.label is not None and \
                    a.label != b.label:
                return f'is in {a.label}, read back in ' \
                    f'{b.label or "another unit"}'
            m, n = (a.num, b.num) if isinstance(a, Qty) else (a, b)
            if not m.same:
                return None         # follows from other attributes
            if not n.same or '?' in n.same - m.same:
                return 'is read back as something computed from it, not as ' \
                    'it was written'
            if n.same - {'?'} != m.same - {'?'}:
                return f'is read back from {"/".join(sorted(n.same))}'
            if m.tag is not None and m.tag != n.tag and not n.lit:
                return f'is in {m.tag}, read back in {n.tag or "another unit"}'
            if m.dtype == 'complex128' and n.dtype not in (
                    None, 'complex128'):
                return f'is complex, read back as {n.dtype}'
            return None
        if isinstance(a, (Str, Const)) and isinstance(b, Const) or \
                isinstance(a, Const):
            if isinstance(a, Const) and isinstance(b, Const):
                return None if a.v == b.v else f'is {a.v!r}, read back as ' \
                    f'{b.v!r}'
            return f'is {shown(a)}, read back as {shown(b)}'
        if isinstance(a, Str) and isinstance(b, Str):
            if a.unit is not None:
                return None if a.unit == b.unit else \
                    f'is {a.unit}, read back as {b.unit or "another"}'
            return None
        if isinstance(a, Tup) and isinstance(b, Tup):
            return None
        if type(a) is not type(b):
            return f'is a {kind(a)}, read back as a {kind(b)}'
        return None

    def seen(self, v):
        """an object, judged part by part, or a string or number"""
        c = self.it.cell(v, self.st)
        return c.kind == 'obj' if c is not None else not isinstance(v, Top)

    def leaves(self, v, out):
        for a in alts(v):
            c = self.it.cell(a, self.st)
            if isinstance(a, Tup):
                for x in a.items:
                    self.leaves(x, out)
            elif c is not None:
                for x in list(c.attrs.values()) + list(c.items or ()) + (
                        [c.elem] if c.elem is not None else []):
                    self.leaves(x, out)
            elif isinstance(a, (Num, Qty, Top)) and a.deps:
                out.append(a)
        return out

    def top(self, v):
        """a container, or something of unknown type"""
        return any(isinstance(a, (Ref, Top)) for a in alts(v))

    def getter(self, a, b, name, path):
        """compare what a property shows"""
        d = self.d
        vals = []
        for o in (a, b):
            try:
                vals.append(self.it.getattr_(o, name, self.st, None))
            except Diverge:
                return
        self.cells(vals[0], vals[1], path)

    def container(self, a, b, path):
        it, st = self.it, self.st
        want = {x for x in it.deps_of(a, st) if isinstance(x, str)}
        got = {x for x in it.deps_of(b, st) if isinstance(x, str)}
        if want and path in want and path not in got:
            return 'does not come from what was written for it'
        if got - want:
            return f'is read back from {", ".join(sorted(got - want))} too'
        c, e = it.cell(a, st), it.cell(b, st)
        for k, x in c.attrs.items():
            for y in alts(e.attrs.get(k, NONE)):
                if isinstance(y, (Num, Qty)) and any(
                        isinstance(z, Ref) for z in alts(x)):
                    return f'has a list {k!r}, read back as an array'

        def kinds(c):
            xs = list(c.items or ()) + (
                [c.elem] if c.elem is not None else [])
            out = set()
            for x in xs:
                for y in alts(x):
                    z = it.cell(y, st)
                    if z is not None:
                        out.add(z.kind)
                    elif isinstance(y, Tup):
                        out.add('tuple')
            return out
        k, m = kinds(c), kinds(e)
        def kept(v):
            return all(same(x) and '?' not in same(x)
                       for x in self.leaves(v, []))
        if kept(a) and not kept(b):
            return 'is read back as something computed from it'
        if c.kind == 'list' and k and m and 'list' in m and 'list' not in k:
            return 'has tuples, read back as lists'
        return None


def kind(v):
    return {'Ref': 'container', 'Num': 'number', 'Qty': 'quantity',
            'Str': 'string', 'Const': 'constant', 'Tup': 'tuple'}.get(
                type(v).__name__, 'value')


def fixed(d, key, absent):
    """a symbolic object without these optional attributes, with the others"""
    it = d.it
    st = State()
    o = d.obj(st, key, 'self')
    c = it.cell(o, st)
    at = dict(c.attrs)
    for k, v in at.items():
        if k in absent:
            at[k] = NONE
        elif isinstance(v, Union):
            at[k] = union([a for a in alts(v) if not (
                isinstance(a, Const) and a.v is None)])
    it.setcell(o, st, c.with_(attrs=at))
    return st, o


def optional(d, key):
    """sets of attributes to leave out"""
    st = State()
    o = d.obj(st, key, 'self')
    opt = [k for k, v in d.it.cell(o, st).attrs.items()
           if len(alts(v)) > 1 and any(isinstance(a, Const) and a.v is None
                                       for a in alts(v))]
    out = [frozenset()] + [frozenset({k}) for k in opt]
    return out + [frozenset(opt)] if len(opt) > 1 else out


def round_trips():
    """For each data class the source of to_dict and from_dict, and of
    to_json_file and from_json_file, is interpreted one after the other on a
    symbolic object, as a whole and with each optional attribute present and
    absent.  Every array carries the name of the attribute it is, kept only by
    operations that leave all its values alone (copies, unit conversions,
    lists, splitting complex numbers into parts and joining them again).
    Reported: an attribute of the object read back that is not the one written
    (lost, swapped, computed, in another unit, of another kind), an optional
    one that appears or disappears, a value JSON cannot hold, an object of
    another class."""
    d = Driver()
    d.cplx = 'complex128'
    it = d.it
    it.track = True
    res = Result()
    for cname in RECEIVERS:
        key = d.clskey(cname)
        if key is None:
            continue
        for w, r, what in (('to_dict', 'from_dict', 'dictionary'),
                           ('to_json_file', 'from_json_file', 'JSON file')):
            mw, mr = it.find(key, w), it.find(key, r)
            if mw is None or mr is None:
                continue
            for absent in optional(d, key):
                one(d, res, cname, key, mw[1], mr[1], what, absent)
    from checks_py import base
    d.done = list(res.coverage.get('round trips', []))
    base(res, d)
    return res


def one(d, res, cname, key, fw, fr, what, absent):
    it = d.it
    st, o = fixed(d, key, absent)
    iw, ir = it.fninfo(fw), it.fninfo(fr)
    ser = Serial(d)
    kw = {} if what == 'dictionary' else {
        iw.param_names()[1]: Top(frozenset({'filename'}), 'str')}
    case = '' if not absent else f' (without {", ".join(sorted(
        k.lstrip("_") for k in absent))})'
    name = f'{cname} as {what}{case}'
    r = d.run(fw, iw, st, o, kw, f'{cname}.{iw.name}')
    if r is None:
        res.add('fails', it.path(iw.mod), iw.node.lineno,
                f'{name}: writing it always fails', f'{cname}|{what}|write')
        return
    st, v = r
    if what == 'dictionary':
        arg = v
    else:
        arg = Top(frozenset({'filename'}), 'str')
        if not it.json:
            res.notes.append(f'{name}: nothing seen to be written')
            return
        for x, st1, node in list(it.json):
            for path, w in ser.written(x, st):
                res.add('json', it.path(iw.mod), iw.node.lineno,
                        f'{name}: {path[1:]} is {w}, which JSON cannot hold',
                        f'{cname}|{path}|{w}')
    # the object written is still there: compare with it after reading
    r = d.run(fr, ir, st, _cls(it, key), {ir.param_names()[1]: arg},
              f'{cname}.{ir.name}')
    if r is None:
        res.add('fails', it.path(ir.mod), ir.node.lineno, f'{name}: reading '
                'back what was written always fails', f'{cname}|{what}|read')
        return
    st, v = r
    res.count(f'round trips through a {what}')
    res.coverage.setdefault('round trips', []).append(name)
    cmp = Compare(d, st, {f'self.{k.lstrip("_")}_unit' for k in absent})
    it.frame = Frame(None, ir.mod, '<compare>', None, None)
    cmp.cells(o, v, 'self')
    it.frame = None
    res.count('attributes compared', cmp.n)
    for path, why in cmp.diff:
        p = path[5:].lstrip('_') if path != 'self' else 'the object'
        res.add('differs', it.path(ir.mod), ir.node.lineno,
                f'{name}: {p} {why}', f'{cname}|{what}|{p}|{why[:40]}')


def _cls(it, key):
    from av import Cls
    return Cls(key)
