"""Models of builtins, numpy, pint and friends for interp.py."""
import ast
import itertools
from dataclasses import replace
from fractions import Fraction

import units
from units import ONE, Unit, atom
from av import (EMPTY, INTS, FLOATS, REALS, _jd, Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Fn, Bound, Cls,
                Mod, Ext, Meth, Part, Super, Union, Cell, NONE, TRUE, FALSE,
                alts, union, add_deps, with_roots, roots, E, consistent,
                merge2, unsame, drop, orderless, ORDER)
import same as S

PACKAGE = {}
CLASSES = {}
NUMTYPES = (int, float, complex)


def isnum(v):
    return isinstance(v, Const) and isinstance(v.v, NUMTYPES) and \
        not isinstance(v.v, bool)


def const_num(v, deps=E):
    dt = 'bool' if isinstance(v, bool) else 'int' if isinstance(v, int) else \
        'float64' if isinstance(v, float) else 'complex128'
    return Num(ONE, True, False, dt, True, E, deps)


def _none(interp, env, st, node):
    return NONE


PACKAGE['euphonic.validate:_check_constructor_inputs'] = _none


# -- unit text ------------------------------------------------------------------
def parse_unit(text, env=None):
    """(unit, constant part) or None"""
    try:
        u, c = units.parse(text)
    except (units.UnitError, ValueError, ZeroDivisionError):
        return None
    if env:
        u, c = subst(u, env), subst(c, env)
    return u, c


def subst(u, env):
    for k, e in u.atoms:
        if k in env:
            u = u/(atom(k)**e)*env[k]**e
    return u


def str_unit(v):
    """unit spelt by a value, with its constant part, or None"""
    if isinstance(v, Str) and v.unit is not None:
        return v.unit, ONE
    if isinstance(v, UnitV):
        return (v.unit, ONE) if v.unit is not None else None
    if isinstance(v, Const) and isinstance(v.v, str):
        return parse_unit(v.v)
    if isinstance(v, Const) and v.v is None:
        return ONE, ONE
    if isinstance(v, Qty):
        if v.label is not None:
            return v.label, ONE
    return None


def joinstr(interp, parts, deps, st):
    if all(isinstance(p, str) or isinstance(p, Const) for p in parts):
        return Const(''.join(p if isinstance(p, str) else str(p.v)
                             for p in parts), deps)
    text, env = '', {}
    for i, p in enumerate(parts):
        if isinstance(p, str):
            text += p
        elif isinstance(p, Const):
            text += str(p.v)
        else:
            if isinstance(p, Union):
                # all alternatives as separate strings
                outs = []
                for a in p.alts:
                    q = list(parts)
                    q[i] = a
                    outs.append(joinstr(interp, q, deps, st))
                return union(outs)
            u = str_unit(p) if isinstance(p, (Str, UnitV)) else None
            if u is None:
                return Top(deps | p.deps, 'str')
            if text == '' and i == len(parts) - 1:
                return Str(u[0], None, deps | p.deps)
            text += f'[#{i}]'
            env[f'#{i}'] = u[0]
    u = parse_unit(text, env)
    if u is None:
        return Top(deps, 'str')
    return Str(u[0], None, deps)


# -- lifting ---------------------------------------------------------------------
def lift(fn, vals, cap=24):
    """apply fn to every combination of alternatives (None raises)"""
    lists = [[a for a in alts(v) if not (isinstance(a, Const) and
                                         a.v is None)] or alts(v)
             for v in vals]
    n = 1
    for l in lists:
        n *= len(l)
    if n == 1:
        return fn(*[l[0] for l in lists])
    if n > cap:
        d, r = E, E
        for v in vals:
            d |= v.deps
            r |= roots(v)
        return Top(d, '', E)
    return union([fn(*c) for c in itertools.product(*lists)])


class Mis:
    """collects mismatches of alternatives; reported only if no combination
    agrees"""
    def __init__(self):
        self.ok = False
        self.bad = []


def split(interp, v, st):
    """(label or None, Num, has_label) of a numeric value"""
    if isinstance(v, Qty):
        return v.label, v.num, True
    if isinstance(v, Num):
        return ONE, v, False
    if isinstance(v, Const):
        if isinstance(v.v, bool) or isinstance(v.v, NUMTYPES):
            return ONE, const_num(v.v, v.deps), False
        if v.v is None:
            return ONE, Num(None, deps=v.deps), False
        return ONE, Num(None, deps=v.deps), False
    if isinstance(v, Tup):
        return _seq(interp, list(v.items), st, v.deps)
    if isinstance(v, Ref):
        c = interp.cell(v, st)
        if c is not None and c.kind in ('list', 'set'):
            xs = list(c.items) if c.items is not None else \
                [c.elem] if c.elem is not None else []
            return _seq(interp, xs, st, v.deps)
        return ONE, Num(None, deps=interp.deps_of(v, st)), False
    if isinstance(v, UnitV):
        return v.unit, Num(ONE, True, False, 'int', deps=v.deps,
                           same=frozenset({'#1'})), True
    if isinstance(v, Union):
        # None in arithmetic raises
        some = [a for a in v.alts
                if not (isinstance(a, Const) and a.v is None)]
        if len(some) < len(v.alts):
            return split(interp, add_deps(union(some), v.deps), st)
        return split(interp, union_num(interp, v, st), st)
    if '@file' in v.deps and interp.frame is not None and not any(
            isinstance(d, str) and d.endswith('_unit') for d in v.deps):
        return ONE, file_number(interp, v.deps), False
    return None, Num(None, deps=v.deps, roots=roots(v)), False


def file_number(interp, deps, arr=None, dtype=None):
    """a number read from a file: its unit is fixed but not known here"""
    fr = interp.frame
    while fr is not None and fr.parent is not None and \
            fr.qual.split('.')[-1].startswith('_read_entry'):
        fr = fr.parent
    name = f'?{fr.qual}:{fr.line}' if fr else '?file'
    return Num(atom(name), False, arr, dtype, True, E, deps)


def union_num(interp, v, st):
    """one value for a union (loses alternatives that differ)"""
    lab, num, has = None, None, False
    for a in v.alts:
        l, n, h = split(interp, a, st)
        if num is None:
            lab, num, has = l, n, h
        else:
            m, dt = merge2(num, n), _dt(num.dtype, n.dtype)
            num = replace(m, dtype=dt) if m is not None else Num(
                None, False, None, None, None, num.roots | n.roots,
                num.deps | n.deps)
            if l != lab:
                lab = None
            has = has or h
    return Qty(lab, num) if has else num


def _seq(interp, xs, st, deps):
    if not xs:
        return ONE, Num(ONE, True, True, EMPTY, True, E, deps), False
    lab, num, has = ONE, None, False
    for x in xs:
        l, n, h = split(interp, x, st)
        if num is None:
            lab, num, has = l, n, h
        else:
            if h and l != lab:
                lab = None
            m = merge2(num, n)
            num = m if m is not None else Num(
                None, False, True, dt, None, num.roots | n.roots,
                num.deps | n.deps)
    return lab, replace(num, arr=True, contig=True, deps=num.deps | deps,
                        roots=E), has


def build(label, num, has):
    return Qty(label, num) if has else num


# -- agreement ---------------------------------------------------------------------
def agree(interp, a, b, what, node, mis=None, lits=(None, None)):
    """tag both numbers share; reports when they do not.  a, b: Num"""
    deps = a.deps | b.deps
    if a.lit and b.lit:
        return a.tag if a.tag == b.tag else ONE, True
    if a.lit or b.lit:
        t, lv = (b.tag, lits[0]) if a.lit else (a.tag, lits[1])
        if t is not None and t.atoms and isinstance(lv, Const) and \
                isinstance(lv.v, (int, float)) and lv.v not in (0, 1, -1) \
                and lv.v == lv.v and abs(lv.v) != float('inf') and any(k.startswith('$') for k, _ in t.atoms):
            interp.event('literal', f'{what}: a number in the caller\'s unit '
                         f'{t} is combined with the constant {lv.v}', node,
                         key=what)
        return t, False
    if a.tag is None or b.tag is None:
        return None, False
    if a.tag != ONE or b.tag != ONE:
        interp.agreed.add((what, getattr(node, 'lineno', 0)))
    if a.tag == b.tag:
        if mis is not None:
            mis.ok = True
        return a.tag, False
    u = unify(interp, a.tag, b.tag)
    if u:
        if mis is not None:
            mis.ok = True
        t = subst(a.tag, interp.unitvars)
        if any(k.startswith('?') for k, _ in t.atoms):
            t = subst(b.tag, interp.unitvars)
        return t, False
    m = (f'{what}: numbers in {a.tag} and in {b.tag}', what)
    if mis is not None:
        mis.bad.append(m)
    else:
        interp.event('mismatch', m[0], node, key=m[1])
    return None, False


def unify(interp, a, b):
    """bind run-time unit variables (?x) so that a == b"""
    a, b = subst(a, interp.unitvars), subst(b, interp.unitvars)
    if a == b:
        return True
    a, b = subst(a, interp.unitvars), subst(b, interp.unitvars)
    if a == b:
        return True
    r = a/b
    var = [(k, e) for k, e in r.atoms if k.startswith('?')]
    rest = [k for k, e in r.atoms if not k.startswith('?')]
    if len(var) == 1 and not rest:
        return True         # the file may well use that unit
    if len(var) > 1:
        return True         # cannot decide
    return False


def assume_units(interp, test, truth):
    """every continuing path has passed `test`"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return assume_units(interp, test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            for v in test.values:
                assume_units(interp, v, truth)
        return
    if isinstance(test, ast.Compare) and id(test) in interp.unit_tests and \
            isinstance(test.ops[0], ast.Eq if truth else ast.NotEq):
        a, b = interp.unit_tests[id(test)]
        r = a/b
        for k, e in reversed(r.atoms):
            if k.startswith(('$', '?')):
                interp.unitvars[k] = (r/atom(k)**e)**(Fraction(-1)/e)
                break


def report_mis(interp, mis, node):
    if mis.bad and not mis.ok:
        for m, k in mis.bad[:1]:
            interp.event('mismatch', m, node, key=k)


def drop_inconsistent(v):
    """of several alternatives keep the consistent ones, if there are any"""
    if not isinstance(v, Union):
        return v
    keep = []
    good = False
    for a in v.alts:
        if isinstance(a, Qty):
            c = consistent(a)
            if c is False:
                continue
            good = good or c
        keep.append(a)
    return union(keep) if keep and good else v


def conv(q, label):
    """quantity q expressed in unit label"""
    if q.label != label and q.num.dtype in INTS:
        q = Qty(q.label, replace(q.num, dtype='real'))
    if q.label is None or label is None or q.num.tag is None:
        return Qty(label, replace(q.num, tag=None, lit=q.num.lit))
    return Qty(label, replace(q.num, tag=q.num.tag*label/q.label,
                              lit=q.num.lit and label == q.label))


def src(node, n=60):
    try:
        s = ast.unparse(node)
    except Exception:
        return '?'
    return s if len(s) <= n else s[:n - 3] + '...'


# -- operators ----------------------------------------------------------------------
def _dt(a, b, op=None, weak=False):
    """element type of the result of arithmetic.  weak: one of the two is a
    scalar, which does not widen an array of the same kind"""
    if a == EMPTY or b == EMPTY:
        # (elementwise arithmetic on no elements; putting arrays together)
        return EMPTY if op else b if a == EMPTY else a
    if 'complex128' in (a, b):
        return 'complex128'
    if a is None or b is None or a not in REALS or b not in REALS:
        return None
    if a in INTS and b in INTS:
        if op == 'div':
            return 'floating' if 'integer' in (a, b) else 'float64'
        if a == b:
            return a
        if weak or 'integer' in (a, b):
            return 'integer'
        o = ('bool', 'int32', 'int', 'int64')
        return o[max(o.index(a), o.index(b))]
    if 'float64' in (a, b):
        o = b if a == 'float64' else a
        if weak and o not in ('float64', 'int', 'int32', 'int64', 'bool'):
            return 'floating'
        return 'float64'
    if op == 'div' or a in FLOATS or b in FLOATS:
        return 'floating'
    return 'real'


def floated(dt):
    """of a function whose results are never integers"""
    return dt if dt in (None, EMPTY, 'complex128') else \
        'float64' if dt in ('float64', 'int', 'int64', 'int32') else 'floating'


def _arr(a, b):
    if a is True or b is True:
        return True
    if a is False and b is False:
        return False
    return None


OPS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
       'Pow': 'pow', 'BitOr': 'or', 'BitAnd': 'and', 'Mod': 'mod'}


def operator(interp, op, x, y, fmt, st, node):
    """the package's own operator method, when x is one of its objects"""
    out = []
    for xa in alts(x):
        c = interp.cell(xa, st)
        if c is None or c.kind != 'obj' or not c.cls:
            return None
        meth = OPS.get(type(op).__name__)
        m = meth and interp.find(c.cls, fmt % meth)
        if not m:
            return None
        out.append((m[1], xa))
    rs = [interp.call_fn(f, [y], {}, st, xa, None, node) for f, xa in out]
    return union(rs) if len(rs) > 1 else rs[0] if rs else None


def binop(interp, op, a, b, st, node):
    if isinstance(a, Const) and isinstance(b, Const):
        r = fold(op, a, b)
        if r is not None:
            return r
    if isinstance(op, ast.Add):
        r = add_seq(interp, a, b, st)
        if r is not None:
            return r
    if isinstance(op, ast.Mod) and isinstance(a, (Const, Str)) and \
            (not isinstance(a, Const) or isinstance(a.v, str)):
        return Top(a.deps | interp.deps_of(b, st), 'str')
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isnum(y) and not isnum(x):
                c = interp.cell(x, st)
                if c is not None and c.kind == 'list':
                    if c.items is not None and isinstance(y.v, int) and \
                            len(c.items)*y.v <= 24:
                        return interp.new_list(st, list(c.items)*y.v)
                    return interp.new_list(st, elem=union(
                        list(c.items or ()) +
                        ([c.elem] if c.elem is not None else [])))
            if isinstance(x, Ref):
                c = interp.cell(x, st)
                if c is not None and c.kind == 'list' and isinstance(
                        y, (Num, Top)) and not (
                        isinstance(y, Num) and y.arr):
                    xs = list(c.items or ()) + (
                        [c.elem] if c.elem is not None else [])
                    return interp.new_list(st, elem=union(xs) if xs else None)
    if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        r = merge_cells(interp, op, a, b, st)
        if r is not None:
            return r
    # objects of the package with operators
    for x, y, nm in ((a, b, '__%s__'), (b, a, '__r%s__')):
        r = operator(interp, op, x, y, nm, st, node)
        if r is not None:
            return r
    mis = Mis()

    def one(x, y):
        r = binop1(interp, op, x, y, st, node, mis)
        return S.binary(type(op).__name__, x, y, r) if interp.track else r
    r = lift(one, [a, b])
    report_mis(interp, mis, node)
    if isinstance(a, Union) and isinstance(b, Union):
        r = drop_inconsistent(r)
    return r


def merge_cells(interp, op, a, b, st):
    """dict | dict, and set arithmetic"""
    cs = [[interp.cell(y, st) for y in alts(x)] for x in (a, b)]
    kinds = {c.kind if c is not None else None for x in cs for c in x}
    if 'dict' in kinds and isinstance(op, ast.BitOr):
        outs = []
        for x, cx in zip(alts(a), cs[0]):
            for y, cy in zip(alts(b), cs[1]):
                at, el, opn = {}, [], False
                for v, c in ((x, cx), (y, cy)):
                    if c is not None and c.kind == 'dict':
                        at.update({k: add_deps(w, v.deps)
                                   for k, w in c.attrs.items()})
                        opn = opn or c.open
                        if c.elem is not None:
                            el.append(add_deps(c.elem, v.deps))
                    else:
                        opn = True
                        d = interp.deps_of(v, st)
                        el.append(Top(d))
                        at = {k: add_deps(w, d) for k, w in at.items()}
                outs.append(interp.new_dict(st, at,
                                            union(el) if el else None, opn))
        return union(outs)
    if kinds == {'set'}:
        xs = []
        for x, c in zip(alts(a) + alts(b), cs[0] + cs[1]):
            xs += list(c.items or ())
            if c.elem is not None:
                xs.append(c.elem)
        d = a.deps | b.deps
        return interp.alloc(st, Cell('set', elem=union(
            [add_deps(x, d) for x in xs]) if xs else None))
    return None


def fold(op, a, b):
    x, y = a.v, b.v
    d = a.deps | b.deps
    try:
        if isinstance(x, str) and isinstance(y, str) and \
                isinstance(op, ast.Add):
            return Const(x + y, d)
        if isinstance(x, str) and isinstance(op, ast.Mod):
            return Top(d, 'str')
        if isinstance(x, str) and isinstance(y, int) and \
                isinstance(op, ast.Mult):
            return Const(x*y, d)
        if isnum(a) and isnum(b):
            t = type(op).__name__
            if t == 'Pow' and (abs(x) > 1e6 or abs(y) > 100):
                return None
            f = {'Add': lambda: x + y, 'Sub': lambda: x - y,
                 'Mult': lambda: x*y, 'Div': lambda: x/y,
                 'FloorDiv': lambda: x//y, 'Mod': lambda: x % y,
                 'Pow': lambda: x**y}.get(t)
            return Const(f(), d) if f else None
    except (ArithmeticError, ValueError, TypeError):
        return None
    return None


def add_seq(interp, a, b, st):
    def seq(v):
        if isinstance(v, Tup):
            return list(v.items), None, 'tuple'
        c = interp.cell(v, st)
        if c is not None and c.kind == 'list':
            return (list(c.items) if c.items is not None else None), c.elem, \
                'list'
        return None
    x, y = seq(a), seq(b)
    if x and y:
        if x[0] is not None and y[0] is not None:
            its = x[0] + y[0]
            if x[2] == 'tuple':
                return Tup(tuple(its))
            return interp.new_list(st, its)
        els = (x[0] or []) + (y[0] or []) + [
            z[1] for z in (x, y) if z[1] is not None]
        return interp.new_list(st, elem=union(els) if els else None)
    strs = (Str,)
    if isinstance(a, strs) or isinstance(b, strs) or \
            isinstance(a, Const) and isinstance(a.v, str) or \
            isinstance(b, Const) and isinstance(b.v, str):
        return joinstr(interp, [a, b], a.deps | b.deps, st)
    return None


def nought(n):
    """zeros nothing with a unit was added to: zero in any unit"""
    return n.lit and 'zeros' in n.flags


def binop1(interp, op, a, b, st, node, mis):
    t = type(op).__name__
    if isinstance(a, Const) and isinstance(b, Const):
        r = fold(op, a, b)
        if r is not None:
            return r
    deps = interp.deps_of(a, st) | interp.deps_of(b, st)
    if isinstance(a, Top) and a.typ == 'str' or \
            isinstance(b, Top) and b.typ == 'str':
        return Top(deps, 'str')
    if isinstance(a, (Const, Str)) and not isnum(a) and not (
            isinstance(a, Const) and isinstance(a.v, bool)):
        return Top(deps)
    la, na, ha = split(interp, a, st)
    lb, nb, hb = split(interp, b, st)
    topa, topb = isinstance(a, Top) and na.tag is None, \
        isinstance(b, Top) and nb.tag is None
    arr = _arr(na.arr, nb.arr)
    contig = True if na.contig and nb.contig else None
    dt = _dt(na.dtype, nb.dtype, 'div' if t == 'Div' else 'op',
             na.arr is False or nb.arr is False)
    flags = na.flags | nb.flags
    has = ha or hb

    def mk(label, tag, lit):
        n = Num(tag, lit, arr, dt, contig, E, deps, flags)
        if (topa or topb) and not has:
            return Top(deps) if tag is None else n
        return build(label, n, has)
    if 'mixed' in flags:
        interp.event('mismatch', f'{src(node)}: numbers in different units '
                     'are computed with as one array', node, key=src(node))
        flags = flags - {'mixed'}
    if topa and topb:
        return Top(deps)
    if (ha or hb) and interp.hooks.get('qzero') and t != 'Sub':
        for has_, lb_ in ((ha, la), (hb, lb)):
            if has_:
                interp.hooks['qzero'](interp, lb_, node)
    if t in ('Mult', 'MatMult'):
        lab = None if la is None or lb is None else la*lb
        if t == 'Mult' and lab is not None and lab != ONE and na.lit and \
                nb.lit and ha != hb and na.tag == nb.tag == ONE:
            # a number written in the source with its unit
            return mk(lab, lab, False)
        tag = None if na.tag is None or nb.tag is None else na.tag*nb.tag
        return mk(lab, tag, na.lit and nb.lit or
                  nought(na) or nought(nb))
    if t in ('Div', 'FloorDiv'):
        lab = None if la is None or lb is None else la/lb
        tag = None if na.tag is None or nb.tag is None else na.tag/nb.tag
        return mk(lab, tag, na.lit and nb.lit or nought(na))
    pr = [f for f in flags if isinstance(f, tuple)]
    if pr:
        flags = flags - set(pr)
        if t == 'Pow' and not has and isnum(b) and abs(b.v - 1/3) < 1e-9:
            return mk(ONE, pr[0][1], False)
    if t == 'Pow':
        if isnum(b):
            try:
                n = Fraction(b.v).limit_denominator(24)
                return mk(la**n if la is not None else None,
                          na.tag**n if na.tag is not None else None, na.lit)
            except (TypeError, ValueError):
                pass
        if na.tag == ONE and (not ha or la == ONE):
            return mk(ONE, ONE, na.lit and nb.lit)
        return mk(None, None, False)
    if t in ('Add', 'Sub', 'Mod'):
        if topa or topb:
            return mk(None, None, False)
        lits = (a if isinstance(a, Const) else None,
                b if isinstance(b, Const) else None)
        lab = la
        if ha and hb:
            if la is not None and lb is not None and la != lb:
                nb = conv(Qty(lb, nb), la).num
            elif la is None or lb is None:
                lab = la if la is not None else None
                if la != lb:
                    nb = replace(nb, tag=None)
        elif ha or hb:
            lab = ONE
            if ha:
                na = conv(Qty(la, na), ONE).num
            else:
                nb = conv(Qty(lb, nb), ONE).num
        tag, lit = agree(interp, na, nb, src(node), node, mis, lits)
        return mk(lab, tag, lit)
    if t in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        return Num(ONE, False, arr, None, None, E, deps)
    return Top(deps)


def unop(interp, op, v, st, node):
    if isinstance(op, ast.Not):
        t = truth(interp, v, st)
        if t is not None:
            return Const(not t)
        return Top(interp.deps_of(v, st), 'bool')

    def one(x):
        if isnum(x):
            return Const(-x.v if isinstance(op, ast.USub) else
                         ~x.v if isinstance(op, ast.Invert) and
                         isinstance(x.v, int) else x.v, x.deps)
        if isinstance(x, (Num, Qty)):
            return unsame(with_roots(x, E))
        return Top(interp.deps_of(x, st))
    return lift(one, [v])


def augassign(interp, s, a, b, st):
    """value of `a op= b`; in-place for arrays, quantities and lists"""
    r = operator(interp, s.op, a, b, '__i%s__', st, s)
    if r is not None:
        return r
    for x in alts(a):
        inplace = isinstance(x, Num) and x.arr is not False or \
            isinstance(x, Qty) and x.num.arr is not False or \
            isinstance(x, Top) and x.roots
        if inplace and roots(x):
            interp.write(roots(x), st, s, src(s.target), value=b,
                         maybe=not ((x.num if isinstance(x, Qty) else x).arr
                                    if isinstance(x, (Num, Qty)) else False))
        if isinstance(x, Ref):
            c = interp.cell(x, st)
            if c is not None and c.kind in ('list', 'set', 'dict'):
                if c.ext:
                    interp.write(c.ext, st, s, src(s.target), value=b)
                if c.kind == 'list' and isinstance(s.op, ast.Add):
                    seq, el, _ = iterate(interp, b, st, s.value)
                    if c.items is not None and seq is not None and \
                            len(c.items) + len(seq) <= 40:
                        interp.setcell(x, st, c.with_(
                            items=c.items + tuple(seq)))
                    else:
                        xs = list(c.items or ()) + list(seq or ()) + \
                            [y for y in (c.elem, el) if y is not None]
                        interp.setcell(x, st, c.with_(
                            items=None, elem=union(xs) if xs else None))
                    if not isinstance(a, Union):
                        return a
    r = binop(interp, s.op, a, b, st, s)
    rr = roots(a)
    if rr:
        def keep(x):
            n = x.num if isinstance(x, Qty) else x
            if isinstance(n, Num) and n.arr is False:
                return x
            return with_roots(x, rr)
        r = lift(keep, [r])
    # the array keeps its type and layout when modified in place
    if isinstance(a, Num) and isinstance(r, Num) and a.arr:
        r = replace(r, arr=True, dtype=a.dtype, contig=a.contig)
    return r


def compare(interp, op, a, b, st, node):
    t = type(op).__name__
    deps = interp.deps_of(a, st) | interp.deps_of(b, st)
    if t in ('Is', 'IsNot'):
        r = None
        if isinstance(a, Union) or isinstance(b, Union):
            rs = {ident(x, y) for x in alts(a) for y in alts(b)}
            r = rs.pop() if len(rs) == 1 else None
        else:
            r = ident(a, b)
        if r is None:
            return Top(deps, 'bool')
        return Const(r if t == 'Is' else not r)
    if t in ('Eq', 'NotEq'):
        r = None
        if isinstance(a, Const) and isinstance(b, Const):
            r = a.v == b.v
        elif istype(a) and istype(b):
            r = a.name == b.name
        elif not isinstance(a, Union) and not isinstance(b, Union):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and x.v is None and isinstance(
                        y, (Ref, Tup, Str, UnitV, Cls, Fn)):
                    r = False
                if isinstance(x, Const) and isinstance(y, Str) and \
                        y.opts is not None and x.v not in y.opts:
                    r = False
        elif all(isinstance(x, Const) for x in alts(a) + alts(b)):
            rs = {x.v == y.v for x in alts(a) for y in alts(b)}
            r = rs.pop() if len(rs) == 1 else None
        ua, ub = (x.unit if isinstance(x, (Str, UnitV)) else None
                  for x in (a, b))
        if ua is not None and ub is not None and r is None:
            interp.unit_tests[id(node)] = (ua, ub)
        if r is not None:
            return Const(r if t == 'Eq' else not r, deps)
    if t in ('In', 'NotIn'):
        r = None
        c = interp.cell(b, st)
        if isinstance(a, Const):
            if isinstance(b, Const) and isinstance(b.v, str) and \
                    isinstance(a.v, str):
                r = a.v in b.v
            its = b.items if isinstance(b, Tup) else \
                c.items if c is not None and c.kind in ('list', 'set') \
                else None
            if its is not None and all(isinstance(x, Const) for x in its):
                r = any(type(x.v) is type(a.v) and x.v == a.v for x in its)
            if c is not None and c.kind == 'dict' and not c.open:
                r = False if a.v not in c.attrs else None if a.v in c.maybe \
                    or '?default' in c.attrs else True
            if c is not None and a.v in c.maybe:
                r = None
        if r is not None:
            return Const(r if t == 'In' else not r, deps)
        return Top(deps, 'bool')
    mis = Mis()
    isarr = [None]

    def one(x, y):
        if not isinstance(x, (Num, Qty, Const)) or \
                not isinstance(y, (Num, Qty, Const)):
            return Top(deps, 'bool')
        for z in (x, y):
            if isinstance(z, Const) and not isnum(z):
                return Top(deps, 'bool')
        la, na, ha = split(interp, x, st)
        lb, nb, hb = split(interp, y, st)
        if ha and hb and la is not None and lb is not None:
            nb = conv(Qty(lb, nb), la).num
        elif ha or hb:
            if not (ha and hb):
                if ha:
                    na = conv(Qty(la, na), ONE).num
                else:
                    nb = conv(Qty(lb, nb), ONE).num
            else:
                nb = replace(nb, tag=None)
        lits = (x if isinstance(x, Const) else None,
                y if isinstance(y, Const) else None)
        if ha != hb and interp.hooks.get('qzero'):
            interp.hooks['qzero'](interp, la if ha else lb, node)
        agree(interp, na, nb, src(node), node, mis, lits)
        if isnum(x) and isnum(y):
            try:
                v = {'Lt': x.v < y.v, 'Gt': x.v > y.v, 'LtE': x.v <= y.v,
                     'GtE': x.v >= y.v}.get(t)
                if v is not None:
                    return Const(v, deps)
            except TypeError:
                pass
        ar = _arr(na.arr, nb.arr)
        if ar:
            return Num(ONE, False, True, 'bool', None, E, deps)
        return Top(deps, 'bool')
    r = lift(one, [a, b])
    report_mis(interp, mis, node)
    return r


def istype(v):
    return isinstance(v, Cls) or isinstance(v, Ext) and (
        v.name in TYPES or v.name in NPTYPES)


NPTYPES = {'numpy.' + x for x in (
    'complex128', 'complex64', 'float64', 'float32', 'int32', 'int64',
    'bool_', 'intc')} | {'builtins.bytes'}


def ident(a, b):
    if istype(a) and istype(b):
        return a.name == b.name
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.v is None:
            if isinstance(y, Const):
                return y.v is None
            if isinstance(y, Top):
                if None in y.neg or y.typ:
                    return False
                return None
            return False
    if isinstance(a, Const) and isinstance(b, Const):
        return a.v is b.v if isinstance(a.v, (bool, type(None))) else \
            a.v == b.v
    if isinstance(a, Cls) and isinstance(b, Cls):
        return a.name == b.name
    if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
        return True
    return None


def truth(interp, v, st):
    if isinstance(v, Const):
        if isinstance(v.v, tuple) and v.v and v.v[0] == 'slice':
            return True
        return bool(v.v)
    if isinstance(v, (Cls, Fn, Mod, Bound)):
        return True
    if isinstance(v, Ext) and v.name.split('.')[0] in (
            'numpy', 'builtins', 'np') and v.name.split('.')[-1] in TYPENAMES:
        return True
    if isinstance(v, Tup):
        return bool(v.items)
    if isinstance(v, Union):
        ts = {truth(interp, a, st) for a in v.alts}
        return ts.pop() if len(ts) == 1 else None
    c = interp.cell(v, st)
    if c is not None:
        if c.kind == 'obj':
            if c.cls and (interp.find(c.cls, '__len__') or
                          interp.find(c.cls, '__bool__')):
                return None
            return True
        if c.kind in ('list', 'set') and c.items is not None:
            return bool(c.items)
        if c.kind == 'dict' and not c.attrs and not c.open and \
                c.elem is None:
            return False
    return None


def filter_truth(interp, v, b, st):
    if isinstance(v, Union):
        xs = [a for a in v.alts if truth(interp, a, st) in (None, b)]
        return union(xs) if xs else v
    return v


TYPENAMES = {'int32', 'int64', 'float32', 'float64', 'complex128', 'intc',
             'double', 'int', 'float', 'complex', 'str', 'bool', 'list',
             'dict', 'tuple', 'ndarray'}
TYPES = {'builtins.str': 'str', 'builtins.int': 'int',
         'builtins.float': 'float', 'builtins.bool': 'bool',
         'ureg.Quantity': 'Quantity', 'pint.Quantity': 'Quantity',
         'numpy.ndarray': 'array',
         'builtins.dict': 'dict', 'builtins.list': 'list',
         'builtins.tuple': 'tuple', 'numbers.Real': 'real',
         'numbers.Number': 'real', 'numbers.Integral': 'int',
         'numpy.number': 'real', 'typing.Mapping': 'dict',
         'collections.abc.Mapping': 'dict', 'builtins.complex': 'real',
         'typing.Sequence': 'seq', 'collections.abc.Sequence': 'seq',
         'collections.abc.Callable': 'callable',
         'typing.Callable': 'callable', 'numpy.integer': 'int',
         'numpy.generic': 'npscalar',
         'builtins.set': 'set', 'builtins.Exception': 'exc'}


def isinst(interp, v, t, st):
    """True/False/None"""
    if isinstance(t, (Tup, Ref, Union)):
        if isinstance(t, Ref):
            c = interp.cell(t, st)
            its = c.items if c is not None else None
        elif isinstance(t, Union):
            its = t.alts
        else:
            its = t.items
        if its is None:
            return None
        rs = [isinst(interp, v, x, st) for x in its]
        return True if True in rs else None if None in rs else False
    if isinstance(v, Union):
        rs = {isinst(interp, a, t, st) for a in v.alts}
        return rs.pop() if len(rs) == 1 else None
    if isinstance(v, Top) and not v.typ:
        return None
    if isinstance(t, Cls):
        if isinstance(v, Ref):
            c = interp.cell(v, st)
            if c is None:
                return None
            if c.kind != 'obj':
                return False
            if c.cls is None:
                return None
            if interp.subclass(c.cls, t.name):
                return True
            return None if c.open else False
        return None if isinstance(v, (Top, Meth, Ext)) else False
    if isinstance(t, Ext):
        k = TYPES.get(t.name)
        if k is None:
            return False if isinstance(v, (Const, Num, Qty, Str)) and \
                not t.name.startswith('typing') else None
        if isinstance(v, Const):
            x = v.v
            return {'str': isinstance(x, str), 'int': isinstance(x, int),
                    'float': isinstance(x, float),
                    'bool': isinstance(x, bool),
                    'real': isinstance(x, NUMTYPES),
                    'tuple': isinstance(x, tuple),
                    'seq': isinstance(x, (str, tuple))}.get(k, False)
        if isinstance(v, Str):
            return k in ('str', 'seq')
        if isinstance(v, Qty):
            return k == 'Quantity'
        if isinstance(v, Num) and 'list' in v.flags:
            return k in ('list', 'seq')
        if isinstance(v, Num):
            if k in ('Quantity', 'str', 'dict', 'list', 'tuple', 'callable',
                     'seq', 'set'):
                return False
            if k == 'array':
                return v.arr
            if k == 'npscalar':
                return False if v.arr else None
            if k in ('int', 'float', 'real', 'bool'):
                if v.arr:
                    return False
                if k == 'real':
                    return True if v.arr is False else None
                if k == 'float' and v.arr is False and v.dtype == 'float64':
                    return True
                if k == 'int' and v.arr is False and v.dtype == 'int':
                    return True
                if k == 'int' and v.dtype == 'float64':
                    return False
                return None
        if isinstance(v, Tup):
            return k in ('tuple', 'seq')
        if isinstance(v, (Fn, Bound, Part, Ext)):
            return k == 'callable'
        if isinstance(v, Top) and v.typ in ('str', 'bool', 'int', 'float',
                                            'array', 'callable'):
            if v.typ == k:
                return True
            if v.typ == 'bool' and k == 'int':
                return True
            if v.typ in ('int', 'float') and k == 'real':
                return True
            if v.typ == 'array' and k == 'Quantity':
                return False
            if v.typ == 'str' and k == 'seq':
                return True
            return False
        if isinstance(v, Ref):
            c = interp.cell(v, st)
            if c is None:
                return None
            if c.kind in ('list', 'dict', 'set'):
                return k == c.kind or k == 'seq' and c.kind == 'list'
            return False if k != 'callable' else None
    return None


def refinement(interp, e, st, b):
    """(target, keep) meaning: `e` being b restricts target's alternatives"""
    if isinstance(e, (ast.Name, ast.Attribute, ast.NamedExpr)):
        t = e.target if isinstance(e, ast.NamedExpr) else e

        def keep(a):
            x = truth(interp, a, st)
            if x is None:
                if b and isinstance(a, Top) and not a.typ:
                    return replace(a, neg=a.neg | {None})
                if isinstance(t, ast.Name) and isinstance(a, Top) and \
                        t.id in interp.partition:
                    return Const(b, a.deps)
                return True
            return x == b
        return t, keep
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'isinstance' and len(e.args) == 2:
        try:
            ty = interp.ev(e.args[1], st)
        except Exception:
            return None

        def keep(a):
            x = isinst(interp, a, ty, st)
            if x is None:
                if b and isinstance(a, Top) and isinstance(ty, Ext):
                    k = TYPES.get(ty.name)
                    if k == 'str':
                        return Top(a.deps, 'str', a.roots)
                    if k == 'Quantity':
                        u = atom('$' + min(a.deps)) if len(a.deps) == 1 \
                            and a.deps == a.roots else None
                        return Qty(u, Num(u, deps=a.deps, roots=a.roots))
                return True
            return x == b
        return e.args[0], keep
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        op = e.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            want = b == isinstance(op, (ast.Is, ast.Eq))
            l, r = e.left, e.comparators[0]
            if isinstance(l, ast.Constant) and not isinstance(
                    r, ast.Constant):
                l, r = r, l
            if isinstance(r, ast.Constant):
                cv = r.value

                def keep(a):
                    if isinstance(a, Const):
                        same = a.v == cv and (a.v is None) == (cv is None)
                        return same == want
                    if cv is None:
                        i = ident(a, NONE)
                        if i is not None:
                            return i == want
                        if isinstance(a, Top):
                            if want:
                                return Const(None, a.deps)
                            return replace(a, neg=a.neg | {None})
                        return True
                    if isinstance(a, Str) and a.opts is not None:
                        if want:
                            return Const(cv, a.deps) if cv in a.opts \
                                else False
                        return replace(a, opts=tuple(
                            o for o in a.opts if o != cv)) \
                            if any(o != cv for o in a.opts) else False
                    if want and isinstance(cv, str) and \
                            isinstance(a, Top) and a.typ in ('', 'str'):
                        return Const(cv, a.deps)
                    if isinstance(a, Top) and not want:
                        return replace(a, neg=a.neg | {cv})
                    return True
                return l, keep
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(
                e.comparators[0], (ast.Tuple, ast.List, ast.Set)) and all(
                isinstance(x, ast.Constant) for x in e.comparators[0].elts):
            want = b == isinstance(op, ast.In)
            vals = [x.value for x in e.comparators[0].elts]

            def keep(a):
                if isinstance(a, Const):
                    return (a.v in vals) == want
                if isinstance(a, Str) and a.opts is not None:
                    o = tuple(x for x in a.opts if (x in vals) == want)
                    return replace(a, opts=o) if o else False
                return True
            return e.left, keep
    return None


# -- containers ----------------------------------------------------------------------
def iterate(interp, v, st, node=None):
    """(exact list of elements or None, summary element, may be empty)"""
    if isinstance(v, Tup):
        return [add_deps(x, v.deps) for x in v.items], None, False
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return ([Const(c) for c in v.v] if len(v.v) <= 24 else None), \
                Top(v.deps, 'str'), False
        if isinstance(v.v, tuple):
            return [Const(c) for c in v.v], None, False
        return None, Top(v.deps), True
    if isinstance(v, Union):
        rs = [iterate(interp, a, st, node) for a in v.alts
              if not (isinstance(a, Const) and a.v is None)]
        if len(rs) == 1:
            return rs[0]
        xs = []
        for s, e, _ in rs:
            xs += s if s is not None else [e] if e is not None else []
        return None, union(xs) if xs else None, True
    if isinstance(v, Ref):
        c = interp.cell(v, st)
        if c is not None:
            if c.kind in ('list', 'set'):
                if c.items is not None and c.elem is None:
                    return [add_deps(x, v.deps) for x in c.items], None, \
                        False
                xs = list(c.items or ()) + (
                    [c.elem] if c.elem is not None else [])
                return None, add_deps(union(xs), v.deps) if xs else None, True
            if c.kind == 'dict':
                if interp.sources and any(
                        x.deps & ORDER for x in list(c.attrs.values()) +
                        [c.elem] if hasattr(x, 'deps')):
                    v = add_deps(v, ORDER)
                if not c.open:
                    return [Const(k, v.deps) for k in c.attrs], None, False
                return None, union([Const(k) for k in c.attrs] +
                                   [Top(v.deps, 'str')]), True
            if c.kind == 'obj' and c.cls:
                m = interp.find(c.cls, '__iter__')
                if m:
                    r = interp.call_fn(m[1], [], {}, st, v, None, node)
                    return iterate(interp, r, st, node)
                m = interp.find(c.cls, '__getitem__')
                if m:
                    el = interp.call_fn(
                        m[1], [Num(ONE, True, False, 'int')], {}, st, v,
                        None, node)
                    return None, el, True
        return None, Top(interp.deps_of(v, st)), True
    if isinstance(v, Num):
        return None, replace(v, arr=None if v.arr else v.arr,
                             same=E), True
    if isinstance(v, Qty):
        return None, Qty(v.label, replace(v.num, arr=None, same=E)), True
    return None, Top(interp.deps_of(v, st), '', roots(v)), True


def unpack(interp, v, n, st, star=None):
    if isinstance(v, Union):
        cols = [unpack(interp, a, n, st, star) for a in v.alts]
        return [union([c[i] for c in cols]) for i in range(n)]
    seq, el, _ = iterate(interp, v, st)
    if seq is not None:
        if star is not None and len(seq) >= n - 1:
            k = len(seq) - (n - 1)
            mid = interp.new_list(st, seq[star:star + k])
            return seq[:star] + [mid] + seq[star + k:]
        if len(seq) == n:
            return seq
        return [Top() for _ in range(n)]
    x = el if el is not None else Top()
    out = [x]*n
    if star is not None:
        out = list(out)
        out[star] = interp.new_list(st, elem=x)
    return out


def basic_key(k):
    """True if indexing an array with k gives a view, False if a copy"""
    if isinstance(k, Const):
        return True if not isinstance(k.v, bool) else False
    if isinstance(k, Tup):
        rs = [basic_key(x) for x in k.items]
        return False if False in rs else None if None in rs else True
    if isinstance(k, Ref):
        return False
    if isinstance(k, Num):
        if k.arr:
            return False
        if k.arr is False:
            return True
        return None
    if isinstance(k, Top):
        return True if k.typ == 'int' else False if k.typ in (
            'array', 'bool') else None
    return None


def getitem(interp, o, k, st, node):
    if isinstance(o, Union):
        xs = [getitem(interp, a, k, st, node) for a in o.alts
              if not (isinstance(a, Const) and a.v is None)]
        return union(xs) if xs else Top()
    kd = interp.deps_of(k, st)
    if isinstance(o, Tup):
        if isinstance(k, Const) and isinstance(k.v, int) and \
                -len(o.items) <= k.v < len(o.items):
            return add_deps(o.items[k.v], o.deps)
        if isinstance(k, Const) and isinstance(k.v, tuple):
            r = slice_exact(list(o.items), k.v[1])
            if r is not None:
                return Tup(tuple(r), o.deps)
            return interp.new_list(st, elem=union(o.items)) if o.items \
                else Tup(())
        return add_deps(union(o.items), o.deps | kd) if o.items else Top()
    if isinstance(o, Const):
        if isinstance(o.v, str):
            if isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return Const(o.v[k.v], o.deps)
                except IndexError:
                    pass
            if isinstance(k, Const) and isinstance(k.v, tuple):
                r = slice_exact(list(o.v), k.v[1])
                if r is not None:
                    return Const(''.join(r), o.deps)
            return Top(o.deps | kd, 'str')
        return Top(o.deps | kd)
    if isinstance(o, Ref):
        c = interp.cell(o, st)
        if c is None:
            return Top(o.deps | kd)
        if c.kind in ('list', 'set'):
            if isinstance(k, Const) and isinstance(k.v, int) and \
                    c.items is not None and c.elem is None:
                if -len(c.items) <= k.v < len(c.items):
                    return add_deps(c.items[k.v], o.deps)
                return Top(o.deps)
            xs = list(c.items or ()) + (
                [c.elem] if c.elem is not None else [])
            if isinstance(k, Const) and isinstance(k.v, tuple):
                if c.items is not None and c.elem is None:
                    r = slice_exact(list(c.items), k.v[1])
                    if r is not None:
                        return interp.new_list(st, r)
                return interp.new_list(st, elem=union(xs) if xs else None)
            return add_deps(union(xs), o.deps | kd) if xs else \
                Top(o.deps | kd)
        if c.kind == 'dict':
            if interp.sources:      # what a key maps to has no order
                c = orderless(c)
                kd -= ORDER
            if isinstance(k, Const) and _h(k.v) and k.v in c.attrs:
                return add_deps(c.attrs[k.v], o.deps)
            if isinstance(k, Const):
                if c.elem is not None:
                    return add_deps(c.elem, o.deps | kd)
                if interp.misses and not c.open and \
                        not c.attrs.get('?default'):
                    from interp import Diverge
                    raise Diverge([(st.copy(), 'KeyError')])
                return Top(o.deps | kd)
            xs = list(c.attrs.values()) + (
                [c.elem] if c.elem is not None else [])
            if c.open and c.elem is None:
                xs.append(Top(o.deps))
            return add_deps(union(xs), o.deps | kd) if xs else \
                Top(o.deps | kd)
        if c.kind == 'obj' and c.cls:
            m = interp.find(c.cls, '__getitem__')
            if m:
                return interp.call_fn(m[1], [k], {}, st, o, None, node)
            # NamedTuple by position
            if isinstance(k, Const) and isinstance(k.v, int):
                names = list(interp.classes[c.cls].ann)
                if 0 <= k.v < len(names) and names[k.v] in c.attrs:
                    return c.attrs[names[k.v]]
        return Top(interp.deps_of(o, st) | kd)

    def idx(n):
        bk = basic_key(k)
        n = replace(S.index(n, k, n), deps=n.deps | kd)
        if bk is False:
            return replace(n, roots=E, contig=True if n.contig else None)
        if n.arr is not False and n.tag is not None and \
                len(n.tag.atoms) == 1 and n.tag.atoms[0][0].startswith('?') \
                and n.tag == atom(n.tag.atoms[0][0]) and \
                n.tag.atoms[0][0].count('[') < 3:
            # a table read from a file may have a unit per column
            n = replace(n, tag=atom(f'{n.tag.atoms[0][0]}[{ktext(k)}]'))
        scal = isinstance(k, (Const, Num)) and not (
            isinstance(k, Const) and isinstance(k.v, tuple))
        return replace(n, arr=None if scal or isinstance(k, Tup) else n.arr,
                       contig=n.contig if scal and n.contig else None)
    if isinstance(o, Num):
        return idx(o)
    if isinstance(o, Qty):
        return Qty(o.label, idx(o.num))
    if isinstance(o, (Ext, Cls)):
        return o            # typing subscripts
    r = roots(o) if basic_key(k) is not False else E
    return Top(interp.deps_of(o, st) | kd, '', r)


def ktext(k):
    if isinstance(k, Const):
        return str(k.v) if not isinstance(k.v, tuple) else k.v[1]
    if isinstance(k, Tup):
        return ','.join(ktext(x) for x in k.items)
    return '*'


def _h(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def slice_exact(seq, text):
    parts = text.split(':')
    try:
        vals = [int(p) if p else None for p in parts]
        return seq[slice(*vals)]
    except (ValueError, TypeError):
        return None


def store_into(interp, node, fn, st):
    """update the variable/attribute holding an array after writing to it"""
    t = node
    while isinstance(t, ast.Subscript):
        t = t.value
    if isinstance(t, (ast.Name, ast.Attribute)):
        v = interp.lookup_target(t, st)
        if v is not None:
            nv = lift(fn, [v])
            if nv != v:
                interp.store_target(t, nv, st)
                # views of the same array elsewhere keep their old value


def setitem(interp, o, k, v, st, node, aug=False):
    kd = interp.deps_of(k, st)
    if isinstance(o, Union):
        for a in o.alts:
            setitem(interp, a, k, v, st, node, aug)
        return
    if isinstance(o, Ref):
        c = interp.cell(o, st)
        if c is None:
            return
        if c.ext:
            interp.write(c.ext, st, node, src(node), value=v)
        if c.kind in ('list', 'set'):
            if isinstance(k, Const) and isinstance(k.v, int) and \
                    c.items is not None and -len(c.items) <= k.v < \
                    len(c.items):
                its = list(c.items)
                its[k.v] = v
                interp.setcell(o, st, c.with_(items=tuple(its)))
            else:
                xs = list(c.items or ()) + (
                    [c.elem] if c.elem is not None else []) + [v]
                if isinstance(k, Const) and isinstance(k.v, tuple):
                    seq, el, _ = iterate(interp, v, st)
                    xs = xs[:-1] + (seq if seq is not None else
                                    [el] if el is not None else [])
                interp.setcell(o, st, c.with_(
                    items=None, elem=add_deps(union(xs), kd) if xs else None))
        elif c.kind == 'dict':
            if interp.sources:
                v = add_deps(v, kd & ORDER)
            if isinstance(k, Const) and _h(k.v):
                at = dict(c.attrs)
                at[k.v] = v
                interp.setcell(o, st, c.with_(attrs=at,
                                              maybe=c.maybe - {k.v}))
            else:
                interp.setcell(o, st, c.with_(
                    elem=add_deps(union([c.elem, v]) if c.elem is not None
                                  else v, kd), open=True))
        elif c.kind == 'obj' and c.cls:
            m = interp.find(c.cls, '__setitem__')
            if m:
                interp.call_fn(m[1], [k, v], {}, st, o, None, node)
        return
    if isinstance(o, (Num, Qty, Top)):
        r = roots(o)
        if r:
            interp.write(r, st, node, src(node), value=v)
        if isinstance(o, Top):
            vd = interp.deps_of(v, st) | kd | st.pc
            store_into(interp, node, lambda x: add_deps(x, vd)
                       if isinstance(x, Top) else x, st)
            return
        vd = interp.deps_of(v, st) | kd
        mis = Mis()
        label, num = (o.label, o.num) if isinstance(o, Qty) else (None, o)
        res = []
        for a in alts(v):
            if isinstance(a, Top):
                res.append((None, False))
                continue
            lb, nb, hb = split(interp, a, st)
            if isinstance(o, Qty):
                if hb:
                    nb = conv(Qty(lb, nb), label).num if lb is not None and \
                        label is not None else replace(nb, tag=None)
                else:
                    nb = conv(Qty(ONE, nb), label).num if label is not None \
                        else nb
            elif hb:
                nb = conv(Qty(lb, nb), ONE).num if lb is not None else nb
            if nb.tag is None and not nb.lit:
                res.append((None, False))
                continue
            if num.lit and not nb.lit:
                res.append((nb.tag, False))
                mis.ok = True
            else:
                res.append(agree(interp, num, nb, src(node), node, mis,
                                 (None, a if isinstance(a, Const)
                                  else None)))
        report_mis(interp, mis, node)
        tags = {t for t, l in res if t is not None or not l}
        if not res:
            return
        lit = all(l for _, l in res)
        tag = res[0][0] if len({t for t, _ in res}) == 1 else None

        def fn(x):
            if isinstance(x, Num):
                return replace(x, tag=tag, lit=lit, same=E,
                               deps=x.deps | vd)
            if isinstance(x, Qty):
                return Qty(x.label, replace(x.num, tag=tag, lit=lit, same=E,
                                            deps=x.deps | vd))
            return x
        store_into(interp, node, fn, st)


def delitem(interp, o, k, st, node):
    for a in alts(o):
        c = interp.cell(a, st)
        if c is None:
            continue
        if c.ext:
            interp.write(c.ext, st, node, 'del ' + src(node))
        if c.kind == 'dict' and isinstance(k, Const) and k.v in c.attrs:
            at = dict(c.attrs)
            del at[k.v]
            interp.setcell(a, st, c.with_(attrs=at))
        elif c.kind == 'list':
            xs = list(c.items or ()) + (
                [c.elem] if c.elem is not None else [])
            interp.setcell(a, st, c.with_(items=None, elem=union(xs)
                                          if xs else None))


def enter(interp, v, st):
    if isinstance(v, Ref):
        c = interp.cell(v, st)
        if c is not None and c.kind == 'obj' and c.cls:
            m = interp.find(c.cls, '__enter__')
            if m:
                return interp.call_fn(m[1], [], {}, st, v)
        return v
    return v if isinstance(v, Top) else Top(interp.deps_of(v, st))


# -- attributes ----------------------------------------------------------------------
def ext_attr(interp, o, name, st):
    full = f'{o.name}.{name}'
    if o.name in ('numpy', 'math', 'scipy.constants'):
        if name == 'pi':
            return Const(3.141592653589793)
        if name in ('nan', 'inf'):
            return Const(float(name))
        if name == 'newaxis':
            return NONE
    if o.name == 'ureg' and name != 'Quantity':
        u = parse_unit(name)
        if u is not None:
            return UnitV(u[0])
    return Ext(full)


KEEP_ATTR = {'real', 'imag'}
ALIAS_ATTR = {'T', 'flat'}


def attr(interp, o, name, st, node):
    if isinstance(o, Qty):
        if name in ('magnitude', 'm'):
            return o.num
        if name in ('units', 'u'):
            return UnitV(o.label, o.deps)
        if name == 'dimensionality':
            return Top(o.deps)
        if name in ALIAS_ATTR:
            return Qty(o.label, replace(o.num, contig=None, same=E))
        if name in KEEP_ATTR:
            return S.part(o, Qty(o.label, o.num), name)
        if name in ('shape', 'size', 'ndim', 'dtype'):
            return shape_attr(o.num, name)
        return Meth(o, name, node)
    if isinstance(o, Num):
        if name in ALIAS_ATTR:
            return replace(o, contig=None, same=E)
        if name in KEEP_ATTR:
            return S.part(o, replace(o, dtype='float64' if o.dtype == 'complex128' else
                           o.dtype if o.dtype in REALS else None,
                           contig=None), name)
        if name in ('shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize',
                    'flags', 'strides'):
            return shape_attr(o, name)
        return Meth(o, name, node)
    if isinstance(o, UnitV):
        if name == 'dimensionality':
            return Top(o.deps)
    if isinstance(o, Const) and o.v is None:
        return Top(o.deps)
    return Meth(o, name, node)


def shape_attr(n, name):
    if name in ('size', 'ndim', 'nbytes', 'itemsize'):
        return Num(ONE, True, False, 'int', None, E, shape_deps(n))
    if name == 'dtype' and n.dtype:
        return Const(('dtype', n.dtype))
    return Top(shape_deps(n))


def shape_deps(n):
    return frozenset(d if isinstance(d, tuple) and d[0] == 'shape' else
                     ('shape', d) for d in n.deps)





def call_ext(*a, **k):
    import extmodels
    return extmodels.call_ext(*a, **k)
