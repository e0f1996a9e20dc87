"""Abstract values for the Python interpreter in interp.py."""
from dataclasses import dataclass, replace
from typing import Any, Optional

from units import ONE, Unit, atom

E = frozenset()


@dataclass(frozen=True)
class Const:
    v: Any
    deps: frozenset = E

    def __eq__(a, b):
        return isinstance(b, Const) and type(a.v) is type(b.v) and \
            a.v == b.v and a.deps == b.deps

    def __hash__(self):
        try:
            return hash((type(self.v), self.v, self.deps))
        except TypeError:
            return hash((type(self.v), self.deps))


@dataclass(frozen=True)
class Top:
    deps: frozenset = E
    typ: str = ''           # '', 'bool', 'str', 'int', 'float', 'array',...
    roots: frozenset = E
    neg: frozenset = E      # constants it is known not to be
    same: frozenset = E


@dataclass(frozen=True)
class Str:
    """a string of which the unit it spells or the set of values is known"""
    unit: Optional[Unit] = None
    opts: Optional[tuple] = None
    deps: frozenset = E


@dataclass(frozen=True)
class UnitV:
    unit: Optional[Unit]
    deps: frozenset = E


@dataclass(frozen=True)
class Num:
    """a number or array: data/tag.  tag None: unknown.  lit: a literal,
    usable with any unit."""
    tag: Optional[Unit] = ONE
    lit: bool = False
    arr: Optional[bool] = None
    dtype: Optional[str] = None
    contig: Optional[bool] = None
    roots: frozenset = E
    deps: frozenset = E
    flags: frozenset = E
    same: frozenset = E     # it is exactly one of these (see checks_io)


@dataclass(frozen=True)
class Qty:
    label: Optional[Unit]
    num: Num

    @property
    def deps(self):
        return self.num.deps


@dataclass(frozen=True)
class Tup:
    items: tuple
    deps: frozenset = E


@dataclass(frozen=True)
class Ref:
    addr: int
    deps: frozenset = E


@dataclass(frozen=True)
class Fn:
    key: int                # index in the interpreter's function table
    deps: frozenset = E


@dataclass(frozen=True)
class Bound:
    fn: Any
    self_: Any
    deps: frozenset = E


@dataclass(frozen=True)
class Cls:
    name: str               # key in the program's class table
    deps: frozenset = E


@dataclass(frozen=True)
class Mod:
    name: str
    deps: frozenset = E


@dataclass(frozen=True)
class Ext:
    """something outside the package, by dotted name"""
    name: str
    deps: frozenset = E


@dataclass(frozen=True)
class Meth:
    """method `name` of a non-object abstract value"""
    obj: Any
    name: str
    node: Any = None        # expression the object came from
    deps: frozenset = E


@dataclass(frozen=True)
class Part:
    """functools.partial"""
    fn: Any
    args: tuple
    kw: tuple
    deps: frozenset = E


@dataclass(frozen=True)
class Super:
    cls: str
    self_: Any
    deps: frozenset = E


@dataclass(frozen=True)
class Union:
    alts: tuple

    @property
    def deps(self):
        d = E
        for a in self.alts:
            d |= a.deps
        return d


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Cell:
    """heap cell; never mutated in place, always replaced"""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'elem', 'ext', 'open',
                 'site', 'maybe')

    def __init__(self, kind, cls=None, attrs=None, items=None, elem=None,
                 ext=E, open=False, site=None, maybe=E):
        self.kind = kind        # 'obj' | 'list' | 'dict' | 'set'
        self.cls = cls          # class name for obj
        self.attrs = attrs if attrs is not None else {}
        self.items = items      # exact list items (tuple) or None
        self.elem = elem        # summary element (list) / value (dict)
        self.ext = ext          # external memory roots
        self.open = open        # dict may have other keys
        self.site = site
        self.maybe = maybe      # keys of a dict that may be absent

    def with_(self, **k):
        c = Cell(self.kind, self.cls, self.attrs, self.items, self.elem,
                 self.ext, self.open, self.site, self.maybe)
        for n, v in k.items():
            setattr(c, n, v)
        return c

    def same(a, b):
        return a is b or (
            a.kind == b.kind and a.cls == b.cls and a.items == b.items and
            a.elem == b.elem and a.ext == b.ext and a.open == b.open and
            a.attrs == b.attrs and a.maybe == b.maybe)


def alts(v):
    return v.alts if isinstance(v, Union) else (v,)


def union(vals, cap=10):
    out = []
    for v in vals:
        for a in alts(v):
            if a not in out:
                out.append(a)
    if not out:
        return Top()
    return _compress(out, cap)


def _compress(out, cap):
    # merge values of the same shape
    changed = True
    while changed and len(out) > 1:
        changed = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                m = merge2(out[i], out[j])
                if m is not None:
                    out = [x for k, x in enumerate(out) if k not in (i, j)]
                    if m not in out:
                        out.append(m)
                    changed = True
                    break
            if changed:
                break
    if len(out) == 1:
        return out[0]
    if len(out) > cap:
        d = E
        r = E
        for x in out:
            d |= x.deps | reach(x)
            r |= roots(x)
        return Top(d, '', r)
    return Union(tuple(out))


HEAPS = []      # of the states last joined


def reach(v, seen=None):
    """provenance of what a value refers to in the heaps last joined"""
    seen = set() if seen is None else seen
    d = v.deps if hasattr(v, 'deps') else E
    if isinstance(v, Union):
        for a in v.alts:
            d |= reach(a, seen)
    elif isinstance(v, Tup):
        for a in v.items:
            d |= reach(a, seen)
    elif isinstance(v, Ref) and v.addr not in seen:
        seen.add(v.addr)
        for h in HEAPS:
            c = h.get(v.addr)
            if c is not None:
                for x in list(c.attrs.values()) + list(c.items or ()) + (
                        [c.elem] if c.elem is not None else []):
                    d |= reach(x, seen)
    return d


def roots(v):
    if isinstance(v, Num):
        return v.roots
    if isinstance(v, Qty):
        return v.num.roots
    if isinstance(v, Top):
        return v.roots
    if isinstance(v, Union):
        r = E
        for a in v.alts:
            r |= roots(a)
        return r
    return E


def jsame(a, b):
    return a | b if a and b or a == b else a | b | {'?'}


def merge2(a, b):
    """one value standing for both, or None to keep them apart"""
    if type(a) is not type(b):
        if isinstance(a, Top) and not a.typ or \
                isinstance(b, Top) and not b.typ:
            if isinstance(a, (Num, Qty, Top, Str)) and \
                    isinstance(b, (Num, Qty, Top, Str)):
                return Top(a.deps | b.deps, '', roots(a) | roots(b))
        if isinstance(a, Const) and isinstance(b, Num):
            a, b = b, a
        if isinstance(a, Num) and isinstance(b, Const) and \
                isinstance(b.v, (int, float, complex)) and \
                not isinstance(b.v, bool):
            return replace(a, deps=a.deps | b.deps, same=jsame(a.same, E),
                           lit=a.lit,
                           arr=a.arr if a.arr is False else None)
        return None
    if isinstance(a, Num):
        if a.lit and not b.lit:
            tag = b.tag
        elif b.lit and not a.lit:
            tag = a.tag
        elif a.tag == b.tag:
            tag = a.tag
        elif a.tag is None or b.tag is None:
            tag = None
        else:
            return None
        return Num(tag, a.lit and b.lit, a.arr if a.arr == b.arr else None,
                   _jd(a.dtype, b.dtype),
                   a.contig if a.contig == b.contig else None,
                   a.roots | b.roots, a.deps | b.deps,
                   (a.flags | b.flags) - ({'none'} - (a.flags & b.flags)),
                   a.same if 'none' in b.flags else
                   b.same if 'none' in a.flags else jsame(a.same, b.same))
    if isinstance(a, Qty):
        if a.label == b.label and (
                a.num.tag == b.num.tag or a.num.lit != b.num.lit):
            m = merge2(a.num, b.num)
            return Qty(a.label, m) if m is not None else None
        return None
    if isinstance(a, Const):
        if type(a.v) is type(b.v) and a.v == b.v:
            return Const(a.v, a.deps | b.deps)
        return None
    if isinstance(a, Top):
        return Top(a.deps | b.deps, a.typ if a.typ == b.typ else '',
                   a.roots | b.roots, a.neg & b.neg,
                   jsame(a.same, b.same))
    if isinstance(a, Str):
        if a.unit == b.unit and a.opts == b.opts:
            return Str(a.unit, a.opts, a.deps | b.deps)
        return None
    if isinstance(a, Ref):
        return Ref(a.addr, a.deps | b.deps) if a.addr == b.addr else None
    if isinstance(a, Tup) and len(a.items) == len(b.items):
        if len(a.items) == 2 and {type(a.items[0]), type(b.items[0])} == {
                Const, Top}:
            return None         # items of a dictionary
        return Tup(tuple(union([x, y]) for x, y in zip(a.items, b.items)),
                   a.deps | b.deps)
    if isinstance(a, UnitV) and a.unit == b.unit:
        return UnitV(a.unit, a.deps | b.deps)
    return None


# element types.  A class stands for any of its members: 'integer', 'floating'
# (of whatever width), 'real' (either).  'empty' is the type of an array that
# has no elements.
INTS = ('bool', 'int', 'int32', 'int64', 'integer')
FLOATS = ('float32', 'float64', 'floating')
REALS = INTS + FLOATS + ('real',)
EMPTY = 'empty'


def _jd(a, b):
    if a == b:
        return a
    if a == EMPTY or b == EMPTY:
        return b if a == EMPTY else a
    if a is None or b is None:
        return None
    if a in INTS and b in INTS:
        return 'integer'
    if a in FLOATS and b in FLOATS:
        return 'floating'
    if a in REALS and b in REALS:
        return 'real'
    return None


def add_deps(v, d):
    if not d:
        return v
    if isinstance(v, Union):
        return Union(tuple(add_deps(a, d) for a in v.alts))
    if isinstance(v, Qty):
        return Qty(v.label, add_deps(v.num, d))
    if d <= v.deps:
        return v
    return replace(v, deps=v.deps | d)


def resame(v, f):
    """v with its identity mapped by f"""
    if isinstance(v, Union):
        return Union(tuple(resame(a, f) for a in v.alts))
    if isinstance(v, Tup):
        return Tup(tuple(resame(a, f) for a in v.items), v.deps)
    if isinstance(v, Qty):
        return Qty(v.label, resame(v.num, f))
    if isinstance(v, (Num, Top)) and v.same:
        xs = [f(x) if x != '?' else x for x in v.same]
        return replace(v, same=frozenset(xs) if all(xs) and set(xs) != {'?'}
                       else E)
    return v


def unsame(v):
    return resame(v, lambda x: None)


def same(v):
    return v.num.same if isinstance(v, Qty) else v.same \
        if isinstance(v, (Num, Top)) else E


ORDER = frozenset({'?order'})


def drop(v, toks):
    """v without some dependences"""
    if isinstance(v, Union):
        return union([drop(a, toks) for a in v.alts])
    if isinstance(v, Qty):
        return Qty(v.label, drop(v.num, toks))
    if isinstance(v, Tup):
        v = replace(v, items=tuple(drop(x, toks) for x in v.items))
    if getattr(v, 'deps', E) & toks:
        return replace(v, deps=v.deps - toks)
    return v


def orderless(c):
    """a container to which the order of what it was made from is
    immaterial"""
    return c.with_(
        items=c.items if c.items is None else
        tuple(drop(x, ORDER) for x in c.items),
        elem=c.elem if c.elem is None else drop(c.elem, ORDER),
        attrs={k: drop(x, ORDER) for k, x in c.attrs.items()})


def with_roots(v, r):
    if isinstance(v, Union):
        return Union(tuple(with_roots(a, r) for a in v.alts))
    if isinstance(v, Qty):
        return Qty(v.label, with_roots(v.num, r))
    if isinstance(v, (Num, Top)):
        return replace(v, roots=frozenset(r))
    return v


def consistent(q):
    """True / False / None (unknown) that a quantity's number is in the unit
    it is labelled with"""
    if q.num.lit:
        return True
    if q.label is None or q.num.tag is None:
        return None
    return q.label == q.num.tag
