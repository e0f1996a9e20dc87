"""Which values are exactly what was given, only converted to another unit,
type or container, and not computed from it.

`same` of a value holds names of inputs of which it is one, unchanged.  Names
may be marked: re: im: its real or imaginary part, jm: that times 1j, ri: an
array with both along a last axis, v: the same memory as real numbers, r1: it
with an extra last axis of length one."""
from av import (Const, Num, Qty, Ref, Tup, Top, Union, E, INTS, alts, resame,
                same, unsame, union)
from dataclasses import replace

KEEP_EXT = {'numpy.' + n for n in (
    'copy', 'array', 'asarray', 'asanyarray', 'ascontiguousarray',
    'asfortranarray', 'require', 'complex128', 'float64', 'atleast_1d')} | {
    'copy.copy', 'copy.deepcopy', 'ureg.Quantity', 'pint.Quantity',
    'euphonic.Quantity', 'typing.cast', 'ureg', 'ureg.parse_expression',
    'functools.partial', 'functools.reduce', 'json.load', 'json.loads'} | {
    'builtins.' + n for n in (
        'getattr', 'list', 'tuple', 'dict', 'iter', 'next', 'zip',
        'enumerate', 'float', 'complex', 'setattr', 'filter', 'map', 'str',
        'vars', 'super', 'isinstance', 'len')}
KEEP_METH = {'copy', 'tolist', 'to', 'ito', 'm_as', 'astype', 'view',
             'reshape', 'squeeze', 'item', 'get', 'pop', 'items', 'values',
             'keys', 'setdefault', 'append', 'extend', 'update',
             'to_base_units', 'to_root_units', '__deepcopy__', '__copy__',
             '__getitem__', 'fromkeys', 'insert'}


def narrowing(r, old):
    """an element type that cannot hold the numbers"""
    n = r.num if isinstance(r, Qty) else r
    o = old.num if isinstance(old, Qty) else old
    if not isinstance(n, Num) or not isinstance(o, Num):
        return False
    a, b = o.dtype, n.dtype
    if b == 'bool' and a != 'bool' or b == 'float32' and a != 'float32' or \
            b == 'int32' and a != 'int32':
        return True
    if b in INTS and b != 'integer' and a not in INTS:
        return True
    return a in ('complex128', None) and b not in (None, 'complex128')


def mark(v, m):
    return resame(v, lambda x: f'{m}:{x}' if x != '#1' else None)


def only(v, *ms):
    """v is one of these marked inputs: the inputs, else None"""
    s = same(v)
    if s and s != {'?'} and all(x == '?' or x.startswith(tuple(m + ':' for m in ms)) for x in s):
        return frozenset(x.split(':', 1)[-1] for x in s)
    return None


def become(v, s):
    if isinstance(v, Qty):
        return Qty(v.label, become(v.num, s))
    return replace(v, same=frozenset(s)) if isinstance(v, (Num, Top)) else v


def last_axis(c, i=None):
    a = c.arg(i, 'axis')
    return isinstance(a, Const) and a.v == -1


def ext(c, name, r):
    """result r of calling something outside the package"""
    if name.startswith('numpy.'):
        r = unlist(r)
    if name in ('numpy.real', 'numpy.imag') and c.args:
        return part(c.args[0], r, name[-4:])
    if name == 'numpy.stack' and c.args and last_axis(c, 1):
        s = c.seq(c.args[0])[0]
        if s is not None and len(s) == 2:
            re, im = only(s[0], 're'), only(s[1], 'im')
            if re is not None and re == im and isinstance(r, (Num, Qty)):
                return mark(become(r, re), 'ri')
    if name == 'numpy.squeeze' and c.args:
        return squeeze(c, r, c.args[0], 1)
    if name in ('builtins.sorted', 'builtins.reversed', 'builtins.set',
                'builtins.frozenset'):
        return strip(c, r, heap=True)
    if name == 'builtins.int' and c.args and not isinstance(
            c.args[0], Union) and not isinstance(r, Union):
        n = c.args[0]
        return become(r, same(n)) if isinstance(n, Top) or isinstance(
            n, Num) and n.dtype in INTS else unsame(r)
    if name not in KEEP_EXT:
        return strip(c, r, heap=name.startswith('numpy.'))
    if name == 'functools.reduce':
        return strip(c, r)
    return checked(r, c.args[0] if c.args else None)


def checked(r, old):
    if old is None or isinstance(old, Union) or isinstance(r, Union):
        return r
    return unsame(r) if narrowing(r, old) and only(r, 'ri', 'v') is None \
        else r


def strip(c, r, heap=False):
    if heap:
        for a in alts(r):
            cell = c.i.cell(a, c.st)
            if cell is not None and cell.kind == 'list':
                c.i.setcell(a, c.st, cell.with_(
                    items=tuple(unsame(x) for x in cell.items)
                    if cell.items is not None else None,
                    elem=unsame(cell.elem) if cell.elem is not None
                    else None))
    return unsame(r)


def part(v, r, which):
    """real or imaginary part of v"""
    if isinstance(r, Union) or isinstance(v, Union):
        return unsame(r)
    n = v.num if isinstance(v, Qty) else v
    if not isinstance(n, Num):
        return unsame(r)
    s = same(v)
    if n.dtype not in (None, 'complex128'):
        return become(r, s) if which == 'real' else unsame(r)
    return mark(become(r, s), which[:2]) if s else r


def squeeze(c, r, v, i):
    s = only(v, 'r1')
    if s is not None and last_axis(c, i):
        return become(r, s)
    return unsame(r)


def method(c, name, o, r):
    """result r of method `name` of the value o"""
    if name == 'view' and isinstance(o, Num) and isinstance(r, Num):
        if o.dtype in (None, 'complex128') and r.dtype == 'float64':
            return mark(r, 'v')
        if r.dtype == 'complex128' and o.dtype != 'complex128':
            s = only(o, 'ri')
            return mark(become(r, s), 'r1') if s else unsame(r)
        return r if r.dtype == o.dtype else unsame(r)
    if name == 'reshape':
        s = only(o, 'v')
        return mark(become(r, s), 'ri') if s else unsame(r)
    if name == 'squeeze':
        return squeeze(c, r, o, 0)
    if name == 'astype':
        return checked(r, o)
    if name not in KEEP_METH:
        return strip(c, r, heap=isinstance(o, (Num, Qty)))
    return r


def index(o, k, r):
    """r is element(s) k of o"""
    if isinstance(k, Const) and k.v in (('slice', ':'), Ellipsis):
        return r
    if isinstance(k, Const) and isinstance(k.v, tuple) and \
            k.v[0] == 'slice' and set(k.v[1]) <= set(': '):
        return r
    if isinstance(k, Tup) and len(k.items) == 2 and isinstance(
            k.items[0], Const) and k.items[0].v is Ellipsis and isinstance(
            k.items[1], Const):
        x = k.items[1].v
        s = only(o, 'ri')
        if s and x == 0:
            return mark(become(r, s), 're')
        if s and x == 1:
            return mark(become(r, s), 'im')
        s = only(o, 'r1')
        if s and x in (0, -1):
            return become(r, s)
    return unsame(r)


def binary(t, a, b, r):
    """r = a <t> b"""
    if isinstance(r, Union):
        return r
    sa, sb = same(a), same(b)
    if t == 'Mult':
        for x, y, sx, sy in ((a, b, sa, sb), (b, a, sb, sa)):
            if sx == {'#1'} and sy:
                return become(r, sy)
            if isinstance(x, Const) and x.v == 1j and only(y, 'im'):
                return mark(become(r, only(y, 'im')), 'jm')
    if t == 'Div' and sb == {'#1'} and sa:
        return become(r, sa)
    if t == 'Add':
        for x, y in ((a, b), (b, a)):
            if only(x, 're') and only(x, 're') == only(y, 'jm'):
                return become(r, only(x, 're'))
    return unsame(r)


def unlist(v):
    if isinstance(v, Union):
        return Union(tuple(unlist(a) for a in v.alts))
    if isinstance(v, Qty):
        return Qty(v.label, unlist(v.num))
    if isinstance(v, Num) and 'list' in v.flags:
        return replace(v, flags=v.flags - {'list'})
    return v
