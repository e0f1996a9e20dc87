"""Models of calls outside the package (builtins, numpy, pint, ...)."""
import ast
import os
import re
from dataclasses import replace
from fractions import Fraction

import ffi
import models as M
from units import ONE, Unit, atom
from av import (EMPTY, INTS, FLOATS, REALS, Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Fn, Bound, Cls,
                Mod, Ext, Meth, Part, Super, Union, Cell, NONE, TRUE, FALSE,
                alts, union, add_deps, drop, orderless, ORDER, with_roots, roots, E, consistent,
                merge2)
import same as S

NP = {}
BI = {}
OTHER = {}


def reg(table, *names):
    def d(fn):
        for n in names:
            table[n] = fn
        return fn
    return d


class C:
    """one external call"""
    def __init__(self, interp, name, args, kw, st, node, star=None,
                 kwstar=None):
        self.i, self.name, self.args, self.kw = interp, name, list(args), kw
        self.st, self.node = st, node
        self.star, self.kwstar = star, kwstar

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        if self.star is not None and i is not None:
            return self.star
        return default

    def deps(self):
        d = E
        for a in list(self.args) + list(self.kw.values()) + \
                [x for x in (self.star, self.kwstar) if x is not None]:
            d |= self.i.deps_of(a, self.st)
        return d

    def top(self, typ=''):
        return Top(self.deps(), typ)

    def seq(self, v):
        return M.iterate(self.i, v, self.st, self.node)

    def elems(self, v):
        s, e, _ = self.seq(v)
        return s if s is not None else [e] if e is not None else []

    def num(self, v):
        return M.split(self.i, v, self.st)


RANDOM = re.compile(r'(numpy\.random|random|secrets|uuid)\.|os\.urandom$|'
                    r'scipy\.stats\..*\.rvs$')
CLOCK = re.compile(r'(time\.(time|monotonic|perf_counter|process_time|'
                   r'localtime|gmtime|ctime|asctime|strftime)|datetime\.|'
                   r'timeit\.)')
HOST = re.compile(r'os\.(environ|getenv|getcwd|getlogin|getpid|'
                  r'uname|getloadavg)|platform\.|socket\.|'
                  r'getpass\.|locale\.|psutil\.|resource\.|sys\.platform|'
                  r'tempfile\.|threading\.|'
                  r'pathlib\.Path\.(cwd|home)|os\.path\.expanduser')
CPUS = re.compile(r'(multiprocessing|os)\.(cpu_count|process_cpu_count|'
                  r'sched_getaffinity)|psutil\.cpu')
THREADS = ('threads', 'n_threads', 'num_threads', 'nthreads', 'n_jobs',
           'workers')
LISTING = re.compile(r'os\.(listdir|scandir|walk)$|glob\.')
HASH = re.compile(r'builtins\.(id|hash)$')
KEEPS_ORDER = {'builtins.' + x for x in (
    'list', 'tuple', 'iter', 'next', 'enumerate', 'zip', 'map', 'filter',
    'reversed')} | {'numpy.' + x for x in ('array', 'asarray', 'fromiter')}
LOSES_ORDER = {'builtins.' + x for x in (
    'sorted', 'set', 'frozenset', 'dict', 'len', 'any', 'all', 'min', 'max',
    'sum')} | {'numpy.' + x for x in ('sort', 'unique', 'isin', 'in1d')}


def source(name):
    return frozenset({t for t, rx in (
        ('?random', RANDOM), ('?clock', CLOCK), ('?host', HOST), ('?cpus', CPUS),
        ('?order', LISTING), ('?hash', HASH)) if rx.match(name)})


def note_source(c, name, toks):
    fr = c.i.frame
    if toks and fr is not None:
        for t in toks:
            c.i.source_sites.setdefault(t, {})[
                c.i.path(fr.mod), getattr(c.node, 'lineno', 0)] = name


def sourced(c, f, r):
    """the result of a call, with where it comes from outside the inputs"""
    if isinstance(f, Ext):
        t = source(f.name)
        if f.name in LOSES_ORDER:
            r = drop(r, ORDER)
            for a in alts(r):
                cell = c.i.cell(a, c.st)
                if cell is not None and cell.kind != 'obj':
                    c.i.setcell(a, c.st, orderless(cell))
        note_source(c, f.name, t - ORDER)
        return add_deps(r, t | (f.deps & {'?host'}))
    if isinstance(f, Meth):
        t = source(f.obj.name + '.' + f.name) if isinstance(f.obj, Ext) else E
        if f.name == 'pop' and c.i.unordered(f.obj, c.st):
            t |= ORDER
        return add_deps(r, t)
    return r


def call_ext(interp, f, args, kw, st, node, star=None, kwstar=None):
    if interp.sources:
        nm = f.name if isinstance(f, (Ext, Meth)) else ''
        if nm in KEEPS_ORDER or nm in ('join', 'extend'):
            args = [add_deps(a, ORDER) if interp.unordered(a, st) else a
                    for a in args]
        cpus = frozenset({'?cpus', '?host'})
        kw = {k: drop(v, cpus) if k in THREADS else v for k, v in kw.items()}
        for a in alts(kwstar) if kwstar is not None else ():
            cell = interp.cell(a, st)
            if cell is not None and cell.kind == 'dict':
                interp.setcell(a, st, cell.with_(attrs={
                    k: drop(v, cpus) if k in THREADS else v
                    for k, v in cell.attrs.items()}))
        c = C(interp, '', args, kw, st, node, star, kwstar)
        return sourced(c, f, call_ext1(interp, f, args, kw, st, node, star,
                                       kwstar))
    if not interp.track:
        return call_ext1(interp, f, args, kw, st, node, star, kwstar)
    c = C(interp, '', args, kw, st, node, star, kwstar)
    r = call_ext1(interp, f, args, kw, st, node, star, kwstar)
    if isinstance(f, Ext):
        return S.ext(c, f.name, r)
    if isinstance(f, Meth):
        return S.method(c, f.name, f.obj, r)
    return S.strip(c, r)


@reg(OTHER, 'json.dump', 'json.dumps')
def o_jsondump(c):
    if c.i.json is not None and c.args:
        c.i.json.append((c.args[0], c.st, c.node))
    return c.top('str')


@reg(OTHER, 'json.load', 'json.loads')
def o_jsonload(c):
    if c.i.json_in is not None:
        return c.i.json_in(c)
    return c.top()


def call_ext1(interp, f, args, kw, st, node, star=None, kwstar=None):
    c = C(interp, '', args, kw, st, node, star, kwstar)
    h = interp.hooks.get('ext')
    if h:
        h(interp, f, args, kw, st, node)
    if isinstance(f, Ext):
        nm = f.name
        c.name = nm
        if nm.startswith('$fn.'):       # a function the caller supplies
            u = atom('$' + nm[4:] + '()')
            arr = {a.num.arr for v in args for a in alts(v)
                   if isinstance(a, Qty)}
            return Qty(u, Num(u, False, arr.pop() if len(arr) == 1 else None,
                              'float64', None, E, c.deps() | f.deps))
        if nm.startswith('numpy.'):
            short = nm[6:]
            outv = kw.get('out')
            if outv is not None and roots(outv):
                interp.write(roots(outv), st, node, M.src(node))
            fn = NP.get(short)
            if fn:
                return fn(c)
            interp.gap(nm)
            return c.top()
        fn = OTHER.get(nm)
        if fn:
            return fn(c)
        if nm.startswith('builtins.'):
            fn = BI.get(nm[9:])
            if fn:
                return fn(c)
            if nm.endswith(('Error', 'Warning', 'Exception')):
                return Top(c.deps(), 'exc')
        if nm.startswith('ureg.'):
            return c.top()
        interp.gap(nm)
        return c.top()
    if isinstance(f, Meth):
        c.name = f.name
        return method(c, f)
    if isinstance(f, Const) and f.v is None:
        return Top(c.deps())
    return Top(c.deps() | f.deps)


# ============================ numpy ==========================================
def dtype_of(v):
    if isinstance(v, Union):
        ks = {dtype_of(a) for a in v.alts}
        r = None
        for k in ks - {None}:
            r = k if r is None else M._jd(r, k)
        return r if None not in ks or r in ('real', 'integer', 'floating') \
            else None
    if isinstance(v, Const) and isinstance(v.v, tuple) and \
            v.v[0] == 'dtype':
        return v.v[1]
    if isinstance(v, Const) and isinstance(v.v, str):
        return {'float': 'float64', 'complex': 'complex128'}.get(v.v, v.v)
    if isinstance(v, Ext):
        n = v.name.split('.')[-1]
        return {'float': 'float64', 'complex': 'complex128', 'intc': 'int32',
                'double': 'float64'}.get(n, n)
    return None


def one(c, v, fn):
    """apply fn(label, Num, has) to every alternative of v"""
    def g(x):
        if isinstance(x, Top):
            d = c.i.deps_of(x, c.st)
            l, n, h = c.num(x)
            if n.tag is not None:
                l, n, h = fn(l, n, h)
                return M.build(l, n, h)
            l, n, h = fn(None, Num(None, deps=d, roots=x.roots,
                                   same=x.same), False)
            return replace(n, deps=n.deps | d) if not h else Qty(l, n)
        l, n, h = c.num(x)
        l, n, h = fn(l, n, h)
        return M.build(l, n, h)
    return M.lift(g, [v])


def other_deps(c, k=1):
    d = E
    for a in c.args[k:] + list(c.kw.values()):
        d |= c.i.deps_of(a, c.st)
    return d


def k_copy(c, arr=None, contig=None):
    v = c.arg(0, 'a')
    if v is None:
        return c.top()
    d = other_deps(c)
    dt = dtype_of(c.kw['dtype']) if 'dtype' in c.kw else None

    def fn(l, n, h):
        return l, replace(n, roots=E, deps=n.deps | d,
                          arr=n.arr if arr is None else arr,
                          contig=n.contig if contig is None else contig,
                          dtype=EMPTY if n.dtype == EMPTY
                          else dt or n.dtype), h
    return one(c, v, fn)


def whole(c, v):
    """rounding to an integer is not independent of the unit"""
    for a in alts(v):
        n = a.num if isinstance(a, Qty) else a
        if isinstance(n, Num) and n.tag is not None and not n.lit and any(
                k.startswith('$') for k, _ in n.tag.atoms):
            c.i.event('literal', f"{M.src(c.node)}: a number in the caller's "
                      f'unit {n.tag} is rounded', c.node,
                      key='round ' + M.src(c.node))


@reg(NP, 'abs', 'absolute', 'fabs', 'negative', 'copy', 'sort', 'roll',
     'diff', 'cumsum', 'repeat', 'tile', 'rint', 'round', 'around', 'floor',
     'ceil', 'trunc', 'nan_to_num', 'flip', 'gradient', 'delete', 'take',
     'conj', 'conjugate', 'unwrap', 'resize', 'triu', 'tril', 'compress',
     'positive', 'fix')
def np_keep(c):
    if c.name.split('.')[-1] in ('rint', 'round', 'around', 'floor', 'ceil',
                                 'trunc', 'fix') and c.args:
        whole(c, c.args[0])
    r = k_copy(c)
    if c.name.endswith(('absolute', '.abs')):
        def f(x):
            if isinstance(x, Num) and x.dtype == 'complex128':
                return replace(x, dtype='float64')
            return x
        r = M.lift(f, [r])
    if c.name.split('.')[-1] in ('rint', 'floor', 'ceil', 'trunc', 'fix',
                                 'gradient'):
        r = M.lift(refloat, [r])
    return r


def refloat(x):
    if isinstance(x, Num):
        return replace(x, dtype=M.floated(x.dtype))
    if isinstance(x, Qty):
        return Qty(x.label, replace(x.num, dtype=M.floated(x.num.dtype)))
    return x


@reg(NP, 'sum', 'mean', 'average', 'median', 'amax', 'amin', 'max', 'min',
     'nanmax', 'nanmin', 'nansum', 'nanmean', 'std', 'ptp', 'quantile',
     'percentile', 'linalg.norm', 'trace')
def np_reduce(c):
    v = c.arg(0)
    if v is None:
        return c.top()
    full = len(c.args) == 1 and 'axis' not in c.kw
    d = other_deps(c)
    k = c.name.split('.')[-1]

    def fn(l, n, h):
        dt = n.dtype
        if k in ('mean', 'average', 'median', 'nanmean', 'std', 'norm',
                 'quantile', 'percentile'):
            dt = M.floated(dt)
            if k == 'norm' and dt == 'complex128':
                dt = 'float64'
        elif k in ('sum', 'nansum', 'trace') and dt in INTS:
            dt = 'integer'
        return l, replace(n, roots=E, deps=n.deps | d, dtype=dt,
                          arr=False if full else None, contig=None), h
    return one(c, v, fn)


@reg(NP, 'array')
def np_array(c):
    v = c.arg(0)
    dt = dtype_of(c.arg(1, 'dtype')) if c.arg(1, 'dtype') is not None else \
        None
    cp = c.kw.get('copy')
    r = k_copy(c, arr=True, contig=None)
    order = c.kw.get('order')

    def f(x):
        if isinstance(x, Num):
            x = replace(x, dtype=EMPTY if x.dtype == EMPTY else dt or x.dtype)
            if isinstance(order, Const) and order.v == 'C':
                x = replace(x, contig=True)
            elif isinstance(order, Const) and order.v == 'F':
                x = replace(x, contig=False)
        return x
    r = M.lift(f, [r])
    cell = c.i.cell(v, c.st)
    if isinstance(r, Num) and cell is not None and cell.kind == 'list' and \
            cell.items == () and cell.elem is None:
        r = replace(r, flags=r.flags | {'none'})
    if cp is not None and not (isinstance(cp, Const) and cp.v is True):
        r = with_roots(r, roots(v))
    return r


@reg(NP, 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray',
     'require')
def np_asarray(c):
    v = c.arg(0)
    d = dtype_of(c.arg(1, 'dtype')) if c.arg(1, 'dtype') is not None else \
        None
    order = c.kw.get('order')
    req = c.arg(2, 'requirements') if c.name.endswith('require') else None
    reqs = [a.v for x in (c.elems(req) or [req] if req is not None else [])
            for a in alts(x) if isinstance(a, Const) and isinstance(a.v, str)]
    cont = c.name.endswith('ascontiguousarray') or \
        any(r in ('C', 'C_CONTIGUOUS', 'CONTIGUOUS') for r in reqs) or \
        isinstance(order, Const) and order.v == 'C'
    fort = c.name.endswith('asfortranarray') or \
        isinstance(order, Const) and order.v == 'F'

    def fn(l, n, h):
        return l, replace(n, arr=True,
                          dtype=EMPTY if n.dtype == EMPTY else d or n.dtype,
                          contig=True if cont else False if fort
                          else n.contig), h
    return one(c, v, fn)


@reg(NP, 'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'moveaxis',
     'expand_dims', 'atleast_1d', 'atleast_2d', 'broadcast_to', 'real',
     'imag', 'rollaxis', 'fliplr', 'flipud', 'diagonal', 'rot90')
def np_alias(c):
    v = c.arg(0)
    d = other_deps(c)
    keep = c.name.split('.')[-1] in ('reshape', 'ravel', 'squeeze',
                                     'expand_dims', 'atleast_1d',
                                     'atleast_2d')

    def fn(l, n, h):
        dt = n.dtype
        if c.name.endswith(('.real', '.imag')):
            dt = 'float64' if dt == 'complex128' else \
                dt if dt in REALS else None
        return l, replace(n, contig=n.contig if keep else
                          (None if n.contig is None else None),
                          deps=n.deps | d, dtype=dt), h
    return one(c, v, fn)


@reg(NP, 'split', 'array_split')
def np_split(c):
    return c.i.new_list(c.st, elem=np_alias(c))


@reg(NP, 'zeros', 'ones', 'empty')
def np_zeros(c):
    dt = c.arg(1, 'dtype')
    dt = 'float64' if dt is None else dtype_of(dt)
    fl = frozenset({c.name.split('.')[-1]})
    shape = c.arg(0, 'shape')
    if isinstance(shape, Const) and shape.v == 0 or isinstance(
            shape, Tup) and any(isinstance(x, Const) and x.v == 0
                                for x in shape.items):
        fl |= {'none'}          # no elements
    order = c.kw.get('order')
    return Num(ONE, True, True, dt,
               False if isinstance(order, Const) and order.v == 'F' else True,
               E, c.deps(), fl)


@reg(NP, 'zeros_like', 'ones_like', 'empty_like')
def np_zeros_like(c):
    _, n, _ = c.num(c.args[0])
    dt = c.kw.get('dtype')
    return Num(ONE, True, True, dtype_of(dt) if dt is not None else n.dtype,
               n.contig, E, c.deps(), frozenset({c.name.split('.')[-1]}))


@reg(NP, 'full', 'full_like')
def np_full(c):
    v = c.arg(1, 'fill_value')

    def fn(l, n, h):
        return l, replace(n, arr=True, roots=E, contig=True,
                          deps=c.deps()), h
    return one(c, v, fn)


@reg(NP, 'eye', 'identity', 'tri', 'indices', 'ones_like')
def np_unit(c):
    return Num(ONE, True, True, 'float64', True, E, c.deps())


@reg(NP, 'arange')
def np_arange(c):
    xs = [a for a in c.args]
    return join_agree(c, xs, arr=True, contig=True)


@reg(NP, 'linspace', 'geomspace', 'maximum', 'minimum', 'fmin', 'fmax',
     'clip', 'hypot', 'nextafter', 'fmod', 'mod', 'remainder', 'add',
     'subtract')
def np_agree(c):
    if c.name.endswith('add.at'):
        return np_add_at(c)
    k = 3 if c.name.endswith('clip') else 2
    xs = c.args[:k]
    for nm in ('a_min', 'a_max', 'start', 'stop'):
        if nm in c.kw:
            xs.append(c.kw[nm])
    arr = True if c.name.endswith(('linspace', 'geomspace')) else None
    return join_agree(c, xs, arr)


def join_agree(c, xs, arr=None, contig=None, table=False):
    """numbers that must be in one unit; returns their join"""
    d = c.deps()
    mis = M.Mis()

    def f(*vals):
        lab, num, has = None, None, False
        consts = []
        for v in vals:
            if isinstance(v, Top) and '@file' not in v.deps:
                n = Num(None, deps=v.deps)
                l, h = None, False
            else:
                l, n, h = c.num(v)
            if num is None:
                lab, num, has = l, n, h
                consts.append(v)
                continue
            if h and has and l is not None and lab is not None and l != lab:
                n = M.conv(Qty(l, n), lab).num
            elif h != has and not isinstance(v, Top):
                if not (n.lit or num.lit):
                    n = replace(n, tag=None)
                if h:
                    lab, has = l, True
            elif h and (l is None or lab is None):
                lab = lab if lab is not None else l
            tag, lit = M.agree(c.i, num, n, M.src(c.node), c.node, mis,
                               (consts[0] if isinstance(consts[0], Const)
                                else None,
                                v if isinstance(v, Const) else None))
            num = Num(tag, lit, M._arr(num.arr, n.arr),
                      M._dt(num.dtype, n.dtype,
                            weak=num.arr is False or n.arr is False), None, E,
                      num.deps | n.deps, num.flags | n.flags)
        num = replace(num, deps=d, roots=E, arr=arr if arr is not None
                      else num.arr, contig=contig)
        return M.build(lab, num, has)
    if not xs:
        return Num(None, deps=d)
    r = M.lift(f, xs)
    if table and mis.bad and not mis.ok:
        # columns of a table: wrong only if used as numbers of one unit
        return M.lift(lambda x: replace(x, flags=frozenset({'mixed'}))
                      if isinstance(x, Num) else x, [r])
    M.report_mis(c.i, mis, c.node)
    return r


@reg(NP, 'concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'block',
     'dstack', 'row_stack')
def np_concat(c):
    v = c.arg(0, 'arrays')
    xs = c.elems(v)
    return join_agree(c, xs[:8], True, True, table=True)


@reg(NP, 'append')
def np_append(c):
    return join_agree(c, c.args[:2], True, True, table=True)


@reg(NP, 'insert')
def np_insert(c):
    xs = [c.args[0], c.arg(2, 'values')]
    return join_agree(c, [x for x in xs if x is not None], True)


@reg(NP, 'where')
def np_where(c):
    if len(c.args) == 1:
        return c.i.new_list(c.st, elem=Num(ONE, False, True, 'int', True, E,
                                           c.deps()))
    return join_agree(c, c.args[1:3])


@reg(NP, 'choose', 'select')
def np_select(c):
    return c.top()


@reg(NP, 'isclose', 'allclose', 'array_equal', 'equal', 'less', 'greater',
     'less_equal', 'greater_equal', 'not_equal')
def np_cmp(c):
    join_agree(c, c.args[:2])
    if c.name.endswith(('isclose', 'allclose')) and len(c.args) >= 2:
        # absolute tolerance in the unit of the numbers
        for v in c.args[:2]:
            for a in alts(v):
                n = a.num if isinstance(a, Qty) else a
                if isinstance(n, Num) and n.tag is not None and not n.lit \
                        and any(k.startswith('$') for k, _ in n.tag.atoms):
                    at = c.arg(3, 'atol')
                    if at is None or isinstance(at, Const) and at.v != 0:
                        c.i.event('literal', f'{M.src(c.node)}: an absolute '
                                  f'tolerance is applied to a number in the '
                                  f'caller\'s unit {n.tag}', c.node,
                                  key='atol ' + M.src(c.node))
    if c.name.endswith(('allclose', 'array_equal')):
        return c.top('bool')
    return Num(ONE, False, True, 'bool', None, E, c.deps())


@reg(NP, 'logical_and', 'logical_or', 'logical_not', 'logical_xor', 'isnan',
     'isfinite', 'isinf', 'isin', 'in1d', 'signbit', 'invert')
def np_bool(c):
    return Num(ONE, False, None, 'bool', None, E, c.deps())


@reg(NP, 'sign')
def np_sign(c):
    return Num(ONE, False, None, 'float64', None, E, c.deps())


@reg(NP, 'all', 'any')
def np_anyall(c):
    return c.top('bool' if len(c.args) == 1 and 'axis' not in c.kw else '')


@reg(NP, 'argmin', 'argmax', 'argsort', 'nonzero', 'count_nonzero', 'size',
     'flatnonzero', 'lexsort', 'bincount', 'triu_indices', 'tril_indices',
     'unravel_index', 'ravel_multi_index', 'ndim', 'argwhere', 'ndindex')
def np_index(c):
    n = c.name.split('.')[-1]
    v = Num(ONE, False, n in ('argsort', 'flatnonzero', 'lexsort',
                              'bincount') or None, 'int', None, E, c.deps())
    if n in ('nonzero', 'triu_indices', 'tril_indices', 'unravel_index'):
        return Tup((v, v)) if n.endswith('indices') else \
            c.i.new_list(c.st, elem=v)
    return v


@reg(NP, 'digitize', 'searchsorted')
def np_digitize(c):
    xs = [c.arg(0, 'x' if c.name.endswith('digitize') else 'a'),
          c.arg(1, 'bins' if c.name.endswith('digitize') else 'v')]
    join_agree(c, [x for x in xs if x is not None])
    return Num(ONE, False, None, 'int', None, E, c.deps())


@reg(NP, 'histogram')
def np_histogram(c):
    x, b = c.arg(0), c.arg(1, 'bins')
    isint = isinstance(b, Const)
    edges = k_copy(c) if isint or b is None else join_agree(c, [x, b], True)
    w = c.arg(3, 'weights')
    if w is None or isinstance(w, Const) and w.v is None:
        h = Num(ONE, False, True, None, True, E, c.deps())
    else:
        def fn(l, n, hh):
            return l, replace(n, roots=E, deps=c.deps(), arr=True), hh
        h = one(c, w, fn)
    den = c.arg(4, 'density')
    if isinstance(den, Const) and den.v:
        h = Num(None, deps=c.deps())
    return Tup((h, edges))


@reg(NP, 'histogram2d', 'histogramdd', 'polyfit',
     'fft.fft', 'apply_along_axis', 'vectorize')
def np_any(c):
    return Num(None, arr=True, deps=c.deps())


def product(c, xs, powers=None, whole=None):
    def f(*vals):
        lab, tag, lit, has = ONE, ONE, True, False
        dt, fl, arr, weak = None, E, None, False
        for i, v in enumerate(vals):
            if isinstance(v, Top) and '@file' not in v.deps:
                lab, tag, lit = None, None, False
                continue
            l, n, h = c.num(v)
            p = powers[i] if powers else 1
            lab = None if lab is None or l is None else lab*l**p
            tag = None if tag is None or n.tag is None else tag*n.tag**p
            lit = lit and n.lit
            has = has or h
            dt = n.dtype if i == 0 else M._dt(
                dt, n.dtype, 'op', weak=weak or n.arr is False)
            weak = n.arr is False if i == 0 else weak and n.arr is False
            fl |= n.flags
        if whole is False:
            dt = M.floated(dt)
        n = Num(tag, lit, arr, dt, None, E, c.deps(), fl)
        return M.build(lab, n, has)
    return M.lift(f, xs)


@reg(NP, 'einsum')
def np_einsum(c):
    return product(c, c.args[1:])


@reg(NP, 'dot', 'matmul', 'cross', 'outer', 'multiply', 'vdot', 'inner',
     'kron', 'tensordot', 'convolve', 'correlate')
def np_mul(c):
    return product(c, c.args[:2])


@reg(NP, 'linalg.multi_dot')
def np_multidot(c):
    return product(c, c.elems(c.args[0]))


@reg(NP, 'divide', 'true_divide', 'floor_divide')
def np_div(c):
    return product(c, c.args[:2], (1, -1), False)


@reg(NP, 'reciprocal')
def np_recip(c):
    return product(c, c.args[:1], (-1,), False)


@reg(NP, 'sqrt')
def np_sqrt(c):
    return product(c, c.args[:1], (Fraction(1, 2),), False)


@reg(NP, 'cbrt')
def np_cbrt(c):
    return product(c, c.args[:1], (Fraction(1, 3),), False)


@reg(NP, 'square', 'var')
def np_square(c):
    return product(c, c.args[:1], (2,))


@reg(NP, 'prod')
def np_prod(c):
    def fn(l, n, h):
        if n.tag == ONE and (not h or l == ONE):
            return l, replace(n, roots=E), h
        if n.tag is not None and not h:
            # the number of factors is not known, but a geometric mean is
            return l, replace(n, tag=None, roots=E, flags=n.flags | {
                ('prod', n.tag)}), h
        return None, replace(n, tag=None, roots=E), h
    return one(c, c.args[0], fn)


@reg(NP, 'power', 'float_power')
def np_power(c):
    return M.binop(c.i, ast.Pow(), c.args[0], c.args[1], c.st, c.node)


@reg(NP, 'linalg.det')
def np_det(c):
    return product(c, c.args[:1], (3,), False)


@reg(NP, 'linalg.inv', 'linalg.pinv')
def np_inv(c):
    return product(c, c.args[:1], (-1,), False)


@reg(NP, 'linalg.solve', 'linalg.lstsq')
def np_solve(c):
    return product(c, c.args[:2], (-1, 1), False)


@reg(NP, 'linalg.eigh', 'linalg.eig')
def np_eigh(c):
    v = M.lift(refloat, [k_copy(c)])
    dts = {n.dtype for n in [getattr(a, 'num', a) for a in alts(v)]
           if isinstance(n, Num)}
    dt = dts.pop() if len(dts) == 1 and c.name.endswith('eigh') else None
    if dt == 'complex128':
        v = M.lift(lambda x: replace(x, dtype='float64')
                   if isinstance(x, Num) else x, [v])
    return Tup((v, Num(ONE, False, True, dt, None, E, c.deps())))


@reg(NP, 'linalg.eigvalsh', 'linalg.eigvals')
def np_eigvals(c):
    return k_copy(c)


def dimless(c, args=None, out=ONE):
    """the function of a number is meaningful only if it has no unit"""
    mis = M.Mis()

    def g(x):
        if isinstance(x, Top):
            return Num(out, deps=c.deps())
        l, n, h = c.num(x)
        if h:
            n = M.conv(Qty(l, n), ONE).num
        if n.tag is not None and not n.lit:
            if n.tag == ONE or M.unify(c.i, n.tag, ONE):
                mis.ok = True
            elif n.tag.dim == ONE.dim and not n.tag.atoms:
                # degrees for radians, or the like
                mis.bad.append((f'{M.src(c.node)}: argument is in {n.tag}',
                                M.src(c.node)))
            else:
                mis.bad.append((f'{M.src(c.node)}: argument is in {n.tag}, '
                                'not a pure number', M.src(c.node)))
        return Num(out, n.lit and False, n.arr,
                   M.floated(n.dtype),
                   n.contig, E, c.deps())
    r = M.lift(g, [(args or c.args)[0]])
    M.report_mis(c.i, mis, c.node)
    return r


@reg(NP, 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'sin', 'cos',
     'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos', 'arctan', 'sinc')
def np_dimless(c):
    return dimless(c)


@reg(NP, 'arctan2')
def np_arctan2(c):
    join_agree(c, c.args[:2])
    return Num(ONE, deps=c.deps())


@reg(NP, 'unique')
def np_unique(c):
    first = k_copy(c, arr=True, contig=True)
    flags = [k for k in ('return_index', 'return_inverse', 'return_counts')
             if k in c.kw and not (isinstance(c.kw[k], Const)
                                   and not c.kw[k].v)]
    if not flags and len(c.args) == 1:
        return first
    idx = Num(ONE, False, True, 'int', True, E, c.deps())
    return Tup((first,) + (idx,)*len(flags)) if len(c.args) == 1 else c.top()


@reg(NP, 'add.at', 'copyto', 'put', 'fill_diagonal', 'place', 'put_along_axis',
     'random.shuffle', 'subtract.at')
def np_add_at(c):
    tgt = c.args[0]
    r = roots(tgt)
    if r:
        c.i.write(r, c.st, c.node, M.src(c.node))
    val = c.arg(2) if c.name.endswith('.at') else c.arg(1)
    if val is not None and isinstance(c.node, ast.Call):
        k = c.arg(1) if c.name.endswith('.at') else NONE
        M.setitem(c.i, M.lift(lambda x: with_roots(x, E), [tgt]), k, val,
                  c.st, c.node.args[0])
    return NONE


@reg(NP, 'issubdtype', 'can_cast', 'iscomplexobj', 'isrealobj', 'isscalar',
     'may_share_memory', 'shares_memory')
def np_issub(c):
    if c.name.endswith('issubdtype') and len(c.args) == 2:
        a, b = dtype_of(c.args[0]), dtype_of(c.args[1])
        if a and b:
            kind = {'int': 'i', 'int32': 'i', 'int64': 'i', 'float64': 'f',
                    'float32': 'f', 'complex128': 'c', 'complex64': 'c',
                    'bool': 'b', 'integer': 'i', 'floating': 'f',
                    'real': 'if'}.get(a)
            want = {'integer': 'i', 'signedinteger': 'i', 'floating': 'f',
                    'complexfloating': 'c', 'inexact': 'fc', 'number': 'ifc',
                    'int32': '32', 'int64': '64', 'float64': 'F',
                    'complex128': 'c'}.get(b)
            if a == b:
                return Const(True)
            if kind and want and want in ('32', '64', 'F'):
                if a in ('int32', 'int64', 'int', 'float64', 'float32',
                         'complex128', 'bool'):
                    return Const(a == b or (a, b) == ('int', 'int64'))
            elif kind and want:
                if all(k in want for k in kind):
                    return Const(True)
                if not any(k in want for k in kind):
                    return Const(False)
    if c.name.endswith(('iscomplexobj', 'isrealobj')) and c.args:
        ds = {c.num(a)[1].dtype for a in alts(c.args[0])}
        for known, r in ((set(REALS), False),
                         ({'complex128', 'complex64'}, True)):
            if ds <= known:
                return Const(r == c.name.endswith('iscomplexobj'))
    return c.top('bool')


@reg(NP, 'random.random', 'random.rand', 'random.uniform', 'random.randn',
     'random.normal')
def np_random(c):
    return Num(ONE, False, True if c.args else None, 'float64', True, E,
               c.deps(), frozenset({'random'}))


@reg(NP, 'fromiter', 'frombuffer', 'fromstring')
def np_fromiter(c):
    v = c.arg(0)
    els = c.elems(v)
    r = one(c, union(els), lambda l, n, h: (
        l, replace(n, arr=True, contig=True, roots=E,
                   deps=n.deps | c.deps(),
                   dtype=dtype_of(c.arg(1, 'dtype'))
                   if c.arg(1, 'dtype') is not None else None), h)) \
        if els else Num(None, arr=True, deps=c.deps())
    return r


@reg(NP, 'fromfile', 'loadtxt', 'genfromtxt')
def np_file(c):
    dt = c.arg(1, 'dtype')
    return filenum(c, True, dtype_of(dt) if dt is not None else None)


def filenum(c, arr, dtype=None):
    """a number read from a file: its unit is fixed but not known here"""
    return M.file_number(c.i, c.deps() | {'@file'}, arr, dtype)


@reg(NP, 'savetxt', 'save', 'seterr', 'errstate', 'set_printoptions')
def np_none(c):
    return Top()


@reg(NP, 'dtype')
def np_dtype(c):
    d = dtype_of(c.args[0]) if c.args else None
    return Const(('dtype', d)) if d else c.top()


@reg(NP, 'float64', 'float32', 'int32', 'int64', 'complex128', 'intc')
def np_scalar(c):
    def fn(l, n, h):
        return l, replace(n, dtype=c.name.split('.')[-1], roots=E), h
    return one(c, c.args[0], fn) if c.args else Const(0)


@reg(NP, 'finfo', 'iinfo')
def np_finfo(c):
    return Top()


@reg(NP, 'meshgrid')
def np_meshgrid(c):
    return c.i.new_list(c.st, items=[
        one(c, a, lambda l, n, h: (l, replace(n, roots=E, arr=True), h))
        for a in c.args])


@reg(NP, 'ix_', 's_', 'nditer', 'ogrid', 'mgrid')
def np_ix(c):
    return c.top()


# ============================ builtins ==========================================
@reg(BI, 'len')
def b_len(c):
    v = c.arg(0)
    if isinstance(v, Tup):
        return Const(len(v.items))
    if isinstance(v, Const) and isinstance(v.v, (str, tuple)):
        return Const(len(v.v))
    cell = c.i.cell(v, c.st)
    if cell is not None:
        if cell.kind == 'list' and cell.items is not None and \
                cell.elem is None:
            return Const(len(cell.items))
        if cell.kind == 'obj' and cell.cls:
            m = c.i.find(cell.cls, '__len__')
            if m:
                return c.i.call_fn(m[1], [], {}, c.st, v, None, c.node)
    d = frozenset(x if isinstance(x, tuple) and x[0] == 'shape'
                  else ('shape', x) for x in c.deps())
    return Num(ONE, True, False, 'int', None, E, d)


@reg(BI, 'range')
def b_range(c):
    if all(isinstance(a, Const) and isinstance(a.v, int) for a in c.args):
        r = range(*[a.v for a in c.args])
        if len(r) <= 16:
            return c.i.new_list(c.st, [Const(x) for x in r])
    return c.i.new_list(c.st, elem=Num(ONE, True, False, 'int', None, E,
                                       c.deps()))


@reg(BI, 'enumerate')
def b_enumerate(c):
    s, e, _ = c.seq(c.args[0])
    if s is not None and len(s) <= 24:
        return c.i.new_list(c.st, [Tup((Const(i), x))
                                   for i, x in enumerate(s)])
    el = union(s) if s else e if e is not None else Top()
    return c.i.new_list(c.st, elem=Tup((
        Num(ONE, True, False, 'int'), el)))


@reg(BI, 'zip')
def b_zip(c):
    ss = [c.seq(a) for a in c.args]
    if ss and all(s[0] is not None for s in ss) and c.star is None:
        return c.i.new_list(c.st, [Tup(t) for t in zip(*[s[0] for s in ss])])
    els = [union(s[0]) if s[0] else s[1] if s[1] is not None else Top()
           for s in ss]
    if c.star is not None:
        return c.i.new_list(c.st, elem=c.i.new_list(c.st, elem=Top(
            c.deps())))
    return c.i.new_list(c.st, elem=Tup(tuple(els)))


@reg(BI, 'map')
def b_map(c):
    f = c.args[0]
    ss = [c.seq(a) for a in c.args[1:]]
    if ss and all(s[0] is not None and len(s[0]) <= 16 for s in ss):
        return c.i.new_list(c.st, [
            c.i.call(f, list(t), {}, c.st, c.node)
            for t in zip(*[s[0] for s in ss])])
    els = [union(s[0]) if s[0] else s[1] if s[1] is not None else Top()
           for s in ss]
    return c.i.new_list(c.st, elem=c.i.call(f, els, {}, c.st, c.node))


@reg(BI, 'filter')
def b_filter(c):
    els = c.elems(c.args[1])
    if els:
        c.i.call(c.args[0], [union(els)], {}, c.st, c.node)
    return c.i.new_list(c.st, elem=union(els) if els else None)


@reg(BI, 'list', 'sorted', 'set', 'frozenset', 'reversed', 'iter')
def b_list(c):
    if not c.args:
        return c.i.new_list(c.st, ())
    if 'key' in c.kw:
        els = c.elems(c.args[0])
        if els:
            kv = c.i.call(c.kw['key'], [union(els)], {}, c.st, c.node)
            if c.i.sources:
                c.args[0] = add_deps(c.args[0], c.i.deps_of(kv, c.st) &
                                     frozenset({'?hash', '?random', '?clock'}))
    s, e, _ = c.seq(c.args[0])
    n = c.name.split('.')[-1]
    if s is not None and n in ('list', 'iter'):
        return c.i.new_list(c.st, s)
    if s is not None and n == 'reversed':
        return c.i.new_list(c.st, s[::-1])
    if s is not None and n == 'sorted' and all(
            isinstance(x, Const) for x in s) and not c.kw:
        try:
            return c.i.new_list(c.st, sorted(s, key=lambda x: x.v))
        except TypeError:
            pass
    if s is not None and n in ('set', 'frozenset') and all(
            isinstance(x, Const) for x in s):
        u = []
        for x in s:
            if x not in u:
                u.append(x)
        return c.i.alloc(c.st, Cell('set', items=tuple(u)))
    xs = (s or []) + ([e] if e is not None else [])
    if n == 'sorted':
        xs = [with_roots(x, E) for x in xs]
    r = c.i.new_list(c.st, elem=union(xs) if xs else None)
    if c.i.sources and n in ('set', 'frozenset'):
        c.i.setcell(r, c.st, c.i.cell(r, c.st).with_(kind='set'))
    return r


@reg(BI, 'tuple')
def b_tuple(c):
    if not c.args:
        return Tup(())
    s, e, _ = c.seq(c.args[0])
    if s is not None:
        return Tup(tuple(s))
    return c.i.new_list(c.st, elem=e)


@reg(BI, 'dict')
def b_dict(c):
    keys, el, opn = {}, None, c.kwstar is not None
    if c.args:
        for a in alts(c.args[0]):
            cell = c.i.cell(a, c.st)
            if cell is not None and cell.kind == 'dict':
                keys.update(cell.attrs)
                opn = opn or cell.open
                el = cell.elem if el is None else el
            else:
                s, e, _ = c.seq(a)
                for t in (s if s is not None else [e] if e is not None
                          else []):
                    if isinstance(t, Tup) and len(t.items) == 2:
                        k, v = t.items
                        if c.i.sources:
                            v = add_deps(v, t.deps)
                        if isinstance(k, Const) and s is not None:
                            keys[k.v] = v
                        else:
                            el = union([el, v]) if el is not None else v
                            opn = True
                    else:
                        opn = True
    keys.update(c.kw)
    return c.i.new_dict(c.st, keys, el, opn)


@reg(BI, 'str', 'repr', 'format', 'ascii')
def b_str(c):
    v = c.arg(0)
    if v is None:
        return Const('')

    def f(x):
        if isinstance(x, Const) and not isinstance(x.v, tuple):
            return Const(str(x.v), x.deps)
        if isinstance(x, Str):
            return x
        if isinstance(x, UnitV):
            return Str(x.unit, None, x.deps)
        if isinstance(x, Qty) and x.num.arr is False and x.label is not None:
            return Str(x.label, None, x.deps)
        return Top(c.i.deps_of(x, c.st), 'str')
    return M.lift(f, [v])


@reg(BI, 'int', 'float', 'abs', 'round', 'complex')
def b_num(c):
    v = c.arg(0)
    n = c.name.split('.')[-1]
    if v is None:
        return Const(0)

    def f(x):
        if isinstance(x, Const) and not isinstance(x.v, tuple):
            try:
                return Const({'int': int, 'float': float, 'abs': abs,
                              'round': round, 'complex': complex}[n](x.v),
                             x.deps)
            except (TypeError, ValueError):
                return Top(x.deps)
        if isinstance(x, Num):
            if n in ('int', 'round'):
                whole(c, x)
            return replace(x, roots=E, arr=False if n in (
                'int', 'float', 'complex') else x.arr, dtype={
                    'int': 'int', 'float': 'float64'}.get(n, x.dtype))
        if isinstance(x, Qty):
            if n in ('abs', 'round'):
                return Qty(x.label, replace(x.num, roots=E))
            m = M.conv(x, ONE)
            return replace(m.num, roots=E, arr=False)
        if n == 'float' and isinstance(x, Top) and '@file' in x.deps:
            return filenum(c, False, 'float64')
        return Num(None, False, False if n != 'abs' else None,
                   {'int': 'int', 'float': 'float64'}.get(n), None, E,
                   c.i.deps_of(x, c.st))
    return M.lift(f, [v])


@reg(BI, 'bool', 'callable', 'issubclass', 'any', 'all')
def b_bool(c):
    if c.name.endswith('bool') and c.args:
        t = M.truth(c.i, c.args[0], c.st)
        if t is not None:
            return Const(t)
    if c.name.endswith(('any', 'all')) and c.args:
        s, e, _ = c.seq(c.args[0])
        if s is not None:
            ts = [M.truth(c.i, x, c.st) for x in s]
            if c.name.endswith('any'):
                if True in ts:
                    return TRUE
                if None not in ts:
                    return FALSE
            else:
                if False in ts:
                    return FALSE
                if None not in ts:
                    return TRUE
    return c.top('bool')


@reg(BI, 'min', 'max')
def b_min(c):
    xs = c.args if len(c.args) > 1 else c.elems(c.args[0])
    if xs and all(M.isnum(x) for x in xs):
        s = c.seq(c.args[0])[0] if len(c.args) == 1 else xs
        if s is not None and 'key' not in c.kw:
            return Const((min if c.name.endswith('min') else max)(
                x.v for x in xs))
    if any(not isinstance(x, (Num, Qty, Union)) and not M.isnum(x)
           for x in xs) or 'key' in c.kw:
        return union(xs) if xs else c.top()
    if len(xs) == 1:
        return with_roots(xs[0], E)
    return join_agree(c, xs[:6])


@reg(BI, 'sum')
def b_sum(c):
    els = c.elems(c.args[0])
    if not els:
        return c.top()
    if len(els) == 1:
        return add_deps(with_roots(els[0], E), c.deps())
    if all(isinstance(e, (Num, Qty)) or M.isnum(e) for e in els):
        return join_agree(c, els[:8])
    start = c.arg(1, 'start')
    if start is not None and isinstance(start, Ref):
        xs = []
        for e in els:
            xs += c.elems(e)
        return c.i.new_list(c.st, elem=union(xs) if xs else None)
    return c.top()


@reg(BI, 'divmod')
def b_divmod(c):
    return Tup((c.top(), c.top()))


@reg(BI, 'isinstance')
def b_isinstance(c):
    r = M.isinst(c.i, c.args[0], c.args[1], c.st)
    if r is None:
        return c.top('bool')
    return Const(r)


@reg(BI, 'hasattr')
def b_hasattr(c):
    o, n = c.args[0], c.args[1]
    cell = c.i.cell(o, c.st)
    if cell is not None and cell.kind == 'obj' and isinstance(n, Const):
        if n.v in cell.attrs:
            return TRUE if not cell.attrs.get('?maybe:' + n.v) else \
                Top(E, 'bool')
        if cell.cls and (c.i.find(cell.cls, n.v) or
                         c.i.find(cell.cls, n.v, 'props') or
                         c.i.find(cell.cls, n.v, 'attrs')):
            return TRUE
        if cell.cls and not cell.open and not any(
                k.startswith('ext:') for k in c.i.mro(cell.cls)):
            return FALSE
    return c.top('bool')


@reg(BI, 'getattr')
def b_getattr(c):
    o, n = c.args[0], c.args[1]
    out = []
    for a in alts(n):
        if isinstance(a, Const):
            cell = c.i.cell(o, c.st)
            if len(c.args) > 2 and cell is not None and \
                    cell.kind == 'obj' and cell.cls and \
                    a.v not in cell.attrs and not any(
                        c.i.find(cell.cls, a.v, k)
                        for k in ('methods', 'props', 'attrs')):
                out.append(c.args[2])
            elif c.i.misses and len(c.args) == 2 and cell is not None and \
                    cell.kind == 'obj' and cell.cls and not cell.open and \
                    a.v not in cell.attrs and not any(
                        c.i.find(cell.cls, x, k) for k in (
                            'methods', 'props', 'attrs')
                        for x in (a.v, '__getattr__')):
                from interp import Diverge
                raise Diverge([(c.st.copy(), 'AttributeError')])
            else:
                out.append(c.i.getattr_(o, a.v, c.st, c.node))
        elif isinstance(a, Str) and a.opts:
            out += [c.i.getattr_(o, x, c.st, c.node) for x in a.opts]
        else:
            out.append(Top(c.deps(), '', c.i.roots_of(o, c.st)))
    return union(out)


@reg(BI, 'setattr')
def b_setattr(c):
    o, n, v = c.args[:3]
    for a in alts(n):
        if isinstance(a, Const):
            for x in alts(o):
                sa = c.i.cell(x, c.st)
                if sa is not None and sa.kind == 'obj' and sa.cls:
                    m = c.i.find(sa.cls, '__setattr__')
                    if m:
                        c.i.call_fn(m[1], [a, v], {}, c.st, x, None, c.node)
                        continue
                c.i.setattr_(x, a.v, v, c.st, c.node)
        else:
            h = c.i.hooks.get('setattr')
            if h:
                for x in alts(o):
                    cell = c.i.cell(x, c.st)
                    if cell is not None:
                        h(c.i, x, cell, None, v, c.st, c.node)
    return NONE


@reg(BI, 'delattr')
def b_delattr(c):
    o, n = c.args[:2]
    cell = c.i.cell(o, c.st)
    if cell is not None and isinstance(n, Const) and n.v in cell.attrs:
        at = dict(cell.attrs)
        del at[n.v]
        c.i.setcell(o, c.st, cell.with_(attrs=at))
    return NONE


@reg(BI, 'type')
def b_type(c):
    def f(x):
        if isinstance(x, Ref):
            cell = c.i.cell(x, c.st)
            if cell is not None:
                if cell.kind == 'obj' and cell.cls:
                    return Cls(cell.cls)
                if cell.kind != 'obj':
                    return Ext('builtins.' + cell.kind)
        if isinstance(x, Const):
            return Ext('builtins.' + type(x.v).__name__)
        if isinstance(x, Str):
            return Ext('builtins.str')
        if isinstance(x, Qty):
            return Ext('ureg.Quantity')
        if isinstance(x, Tup):
            return Ext('builtins.tuple')
        return Top(c.i.deps_of(x, c.st))
    return M.lift(f, [c.args[0]]) if len(c.args) == 1 else c.top()


@reg(BI, 'super')
def b_super(c):
    if len(c.args) == 2 and isinstance(c.args[0], Cls):
        return Super(c.args[0].name, c.args[1])
    fr = c.i.frame
    while fr is not None and (fr.fn is None or
                              isinstance(fr.fn.node, ast.Lambda)):
        fr = fr.parent
    if fr is None or fr.cls is None:
        return Top()
    ps = fr.fn.param_names()
    return Super(fr.cls, c.st.env.get(ps[0], Top()) if ps else Top())


@reg(BI, 'print')
def b_none(c):
    return NONE


@reg(BI, 'next')
def b_next(c):
    els = c.elems(c.args[0])
    els = els + ([c.args[1]] if len(c.args) > 1 else [])
    return union(els) if els else c.top()


@reg(BI, 'vars')
def b_vars(c):
    cell = c.i.cell(c.args[0], c.st) if c.args else None
    if cell is not None:
        return c.i.new_dict(c.st, cell.attrs, open=cell.open)
    return c.top()


@reg(BI, 'slice')
def b_slice(c):
    return Const(('slice', '?:?'), c.deps())


@reg(BI, 'id', 'hash', 'ord')
def b_int(c):
    return Num(ONE, True, False, 'int', None, E, c.deps())


@reg(BI, 'chr', 'input', 'hex', 'bin')
def b_chr(c):
    return c.top('str')


@reg(BI, 'open')
def b_open(c):
    return Top(c.deps() | {'@file'})


@reg(OTHER, 'h5py.File', 'struct.unpack', 'yaml.load', 'yaml.safe_load',
     'gzip.open')
def o_file(c):
    return Top(c.deps() | {'@file'})


@reg(OTHER, 'os.environ.get', 'os.getenv')
def o_environ(c):
    dflt = c.arg(1, 'default')
    return union([Top(c.deps(), 'str'), dflt if dflt is not None else NONE])


@reg(BI, 'object')
def b_object(c):
    return c.i.alloc(c.st, Cell('obj', open=True))


@reg(BI, 'property', 'classmethod', 'staticmethod')
def b_ident(c):
    return c.args[0] if c.args else Top()


# ============================ pint =================================================
@reg(OTHER, 'ureg', 'ureg.Unit', 'ureg.parse_expression', 'ureg.parse_units')
def o_ureg(c):
    v = c.arg(0)
    if v is None:
        return Top()

    def f(x):
        u = M.str_unit(x)
        if u is None:
            if c.name.endswith(('Unit', 'units')):
                return UnitV(None, c.i.deps_of(x, c.st))
            return Qty(None, Num(ONE, True, False, 'real', None, E,
                                 c.i.deps_of(x, c.st)))
        if c.name.endswith(('Unit', 'units')):
            return UnitV(u[0], c.i.deps_of(x, c.st))
        return Qty(u[0], Num(u[1], True, False, 'real', None, E,
                             c.i.deps_of(x, c.st), E,
                             frozenset({'#1'})))
    return M.lift(f, [v])


@reg(OTHER, 'ureg.Quantity', 'pint.Quantity', 'euphonic.Quantity')
def o_quantity(c):
    v = c.arg(0, 'value')
    u = c.arg(1, 'units')
    if v is None:
        return Top()

    def f(x, y):
        if isinstance(x, Const) and isinstance(x.v, str):
            r = M.parse_unit(x.v)
            if r is None:
                return Qty(None, Num(None, deps=x.deps))
            return Qty(r[0], Num(r[1], True, False))
        if isinstance(x, Qty) and y is None:
            return x
        l, n, h = c.num(x)
        if h and y is not None:
            n = M.conv(Qty(l, n), M.str_unit(y)[0]
                       if M.str_unit(y) else None).num
        if 'mixed' in n.flags:
            c.i.event('mismatch', f'{M.src(c.node)}: numbers in different '
                      'units are labelled with one unit', c.node,
                      key=M.src(c.node))
        r = M.str_unit(y) if y is not None else (ONE, ONE)
        d = c.i.deps_of(y, c.st) if y is not None else E
        n = replace(n, deps=n.deps | d)
        if isinstance(x, (Ref, Tup)) or isinstance(x, Const):
            pass
        if r is None:
            return Qty(None, n)
        if n.lit and n.tag == ONE and r[0] is not None and r[0] != ONE:
            n = replace(n, tag=r[0], lit=False)
        return Qty(r[0], n)
    if u is None:
        return M.lift(lambda x: f(x, None), [v])
    return M.drop_inconsistent(M.lift(f, [v, u])) if isinstance(u, Union) \
        and isinstance(v, Union) else M.lift(f, [v, u])


@reg(OTHER, 'ureg.Quantity.from_list')
def o_fromlist(c):
    els = c.elems(c.args[0])
    return join_agree(c, els[:6], True) if els else c.top()


# ============================ others ===============================================
@reg(OTHER, 'copy.copy')
def o_copy(c):
    def f(v):
        cell = c.i.cell(v, c.st)
        if cell is not None:
            m = cell.cls and cell.kind == 'obj' and \
                c.i.find(cell.cls, '__copy__')
            if m:
                return c.i.call_fn(m[1], [], {}, c.st, v, None, c.node)
            return c.i.alloc(c.st, cell.with_(ext=E))
        return with_roots(v, E) if isinstance(v, (Num, Qty)) else v
    return M.lift(f, [c.args[0]])


def deep(c, v, seen=None):
    seen = seen if seen is not None else {}
    if isinstance(v, Union):
        return union([deep(c, a, seen) for a in v.alts])
    if isinstance(v, Tup):
        return Tup(tuple(deep(c, a, seen) for a in v.items), v.deps)
    if isinstance(v, Ref):
        if v.addr in seen:
            return Ref(seen[v.addr], v.deps)
        cell = c.i.cell(v, c.st)
        if cell is None:
            return v
        r = c.i.alloc(c.st, cell.with_(ext=E))
        seen[v.addr] = r.addr
        c.i.setcell(r, c.st, cell.with_(
            ext=E, attrs={k: deep(c, x, seen) for k, x in
                          cell.attrs.items()},
            items=tuple(deep(c, x, seen) for x in cell.items)
            if cell.items is not None else None,
            elem=deep(c, cell.elem, seen) if cell.elem is not None
            else None))
        return Ref(r.addr, v.deps)
    if isinstance(v, (Num, Qty, Top)):
        return with_roots(v, E)
    return v


@reg(OTHER, 'copy.deepcopy')
def o_deepcopy(c):
    return deep(c, c.args[0])


@reg(OTHER, 'functools.partial')
def o_partial(c):
    return Part(c.args[0], tuple(c.args[1:]), tuple(c.kw.items()))


@reg(OTHER, 'functools.reduce', 'toolz.reduce')
def o_reduce(c):
    f = c.args[0]
    s, e, _ = c.seq(c.args[1])
    xs = s if s is not None and len(s) <= 8 else \
        ([union(s)]*2 if s else [e]*2 if e is not None else [])
    if len(c.args) > 2:
        xs = [c.args[2]] + list(xs)
    if not xs:
        return c.top()
    r = xs[0]
    for x in xs[1:]:
        r2 = c.i.call(f, [r, x], {}, c.st, c.node)
        r = r2 if s is not None else union([r, r2])
    return r


@reg(OTHER, 'itertools.product')
def o_product(c):
    if c.star is not None:
        xs = [y for a in list(c.args) + [c.star] for y in c.elems(a)]
        return c.i.new_list(c.st, elem=c.i.new_list(
            c.st, elem=union(xs) if xs else None))
    return c.i.new_list(c.st, elem=Tup(tuple(
        union(c.elems(a)) if c.elems(a) else Top() for a in c.args)))


@reg(OTHER, 'itertools.chain')
def o_chain(c):
    xs = []
    exact = c.star is None
    for a in c.args:
        s, e, _ = c.seq(a)
        if s is None:
            exact = False
        xs += s if s is not None else [e] if e is not None else []
    if exact:
        return c.i.new_list(c.st, xs)
    return c.i.new_list(c.st, elem=union(xs) if xs else None)


@reg(OTHER, 'itertools.chain.from_iterable', 'toolz.concat',
     'toolz.itertoolz.concat')
def o_chain2(c):
    xs = []
    for a in c.elems(c.args[0]):
        xs += c.elems(a)
    return c.i.new_list(c.st, elem=union(xs) if xs else None)


@reg(OTHER, 'itertools.repeat', 'itertools.cycle')
def o_repeat(c):
    if c.name.endswith('cycle'):
        els = c.elems(c.args[0])
        return c.i.new_list(c.st, elem=union(els) if els else None)
    return c.i.new_list(c.st, elem=c.args[0])


@reg(OTHER, 'toolz.valmap', 'toolz.dicttoolz.valmap')
def o_valmap(c):
    f, d = c.args[0], c.args[1]
    cell = c.i.cell(d, c.st)
    if cell is None or cell.kind != 'dict':
        return c.top()
    keys = {k: c.i.call(f, [v], {}, c.st, c.node)
            for k, v in cell.attrs.items()}
    el = c.i.call(f, [cell.elem], {}, c.st, c.node) \
        if cell.elem is not None else None
    return c.i.new_dict(c.st, keys, el, cell.open)


@reg(OTHER, 'toolz.keyfilter', 'toolz.dicttoolz.keyfilter')
def o_keyfilter(c):
    f, d = c.args[0], c.args[1]
    cell = c.i.cell(d, c.st)
    if cell is None or cell.kind != 'dict':
        return c.top()
    keys = {}
    for k, v in cell.attrs.items():
        t = M.truth(c.i, c.i.call(f, [Const(k)], {}, c.st, c.node), c.st)
        if t is not False:
            keys[k] = v
    return c.i.new_dict(c.st, keys, cell.elem, cell.open)


@reg(OTHER, 'toolz.complement', 'toolz.functoolz.complement')
def o_complement(c):
    f = c.args[0]
    return Part(Ext('verif.complement'), (f,), ())


@reg(OTHER, 'verif.complement')
def o_complement2(c):
    r = c.i.call(c.args[0], c.args[1:], c.kw, c.st, c.node)
    t = M.truth(c.i, r, c.st)
    return Const(not t) if t is not None else Top(r.deps, 'bool')


@reg(OTHER, 'operator.mul', 'operator.add', 'operator.sub',
     'operator.truediv')
def o_operator(c):
    op = {'mul': ast.Mult, 'add': ast.Add, 'sub': ast.Sub,
          'truediv': ast.Div}[c.name.split('.')[-1]]()
    return M.binop(c.i, op, c.args[0], c.args[1], c.st, c.node)


@reg(OTHER, 'math.sqrt')
def o_sqrt(c):
    return product(c, c.args[:1], (Fraction(1, 2),), False)


@reg(OTHER, 'math.exp', 'math.log', 'math.sin', 'math.cos', 'math.log10',
     'scipy.special.erfc', 'scipy.special.erf')
def o_dimless(c):
    return dimless(c)


@reg(OTHER, 'math.ceil', 'math.floor', 'math.fabs')
def o_keep(c):
    return np_keep(C(c.i, 'numpy.ceil', c.args, c.kw, c.st, c.node))


# what the C extension is given and what it writes, by position
C_UNITS = {1: 'bohr', 2: '1/bohr', 3: '1', 5: '1', 6: 'hartree/bohr**2',
           7: '1', 9: '1/m_e', 15: 'bohr'}
C_OUT = {12: 'hartree', 13: '1', 14: 'hartree*bohr'}


def arg_nodes(c):
    """expressions of the positional arguments of a call"""
    if not isinstance(c.node, ast.Call):
        return []
    return ffi.call_nodes(c.i.frame.node if c.i.frame else None, c.node)


def threads_arg():
    """position of the number of threads among the extension's arguments"""
    try:
        with open(os.path.join(ffi.REPO, 'c', '_euphonic.c')) as f:
            s = f.read()
    except OSError:
        return None
    n = re.search(r'omp_set_num_threads\s*\(\s*(\w+)\s*\)', s)
    p = re.search(r'PyArg_ParseTuple\s*\(([^;]*);', s)
    if not n or not p:
        return None
    names = [x for x in re.findall(r'&\s*(\w+)', p.group(1))
             if not x.endswith('_Type')]
    return names.index(n.group(1)) if n.group(1) in names else None


@reg(OTHER, 'euphonic._euphonic.calculate_phonons')
def o_cext(c):
    if len(c.args) != 17 or c.star is not None:
        return NONE
    deps = c.deps()
    if c.i.sources:
        # the number of threads does not decide about results (P06)
        k = threads_arg()
        deps = frozenset().union(*[c.i.deps_of(a, c.st) for i, a in
                                   enumerate(c.args) if i != k])
    for i, u in C_UNITS.items():
        want = M.parse_unit(u)[0]
        for a in alts(c.args[i]):
            if isinstance(a, Num) and a.tag is not None and not a.lit and \
                    a.tag != want and not M.unify(c.i, a.tag, want):
                c.i.event('label', f'argument {i + 1} of the C extension is '
                          f'in {a.tag}, not {want}', c.node,
                          key=f'C argument {i + 1}')
    for i, u in C_OUT.items():
        t = M.parse_unit(u)[0]
        r = roots(c.args[i])
        if r:
            c.i.write(r, c.st, c.node, M.src(c.node))
        nodes = arg_nodes(c)
        if i < len(nodes):
            M.store_into(c.i, nodes[i], lambda x: replace(
                x, tag=t, lit=False, deps=x.deps | deps)
                if isinstance(x, Num) else x, c.st)
    return NONE


@reg(OTHER, 'scipy.stats.norm.pdf')
def o_pdf(c):
    xs = [c.args[0]] + [c.kw[k] for k in ('loc', 'scale') if k in c.kw] + \
        list(c.args[1:])
    j = join_agree(c, xs)
    return product(c, [j], (Fraction(-1),))


@reg(OTHER, 'scipy.optimize.nnls')
def o_nnls(c):
    return Tup((product(c, [c.args[1], c.args[0]],
                        (Fraction(1), Fraction(-1))),
                product(c, [c.args[1]], (Fraction(1),))))


@reg(NP, 'polyval')
def np_polyval(c):
    return dimless(c, [c.args[1]])


@reg(NP, 'interp')
def np_interp(c):
    join_agree(c, c.args[:2])
    return k_copy(c) if len(c.args) < 3 else one(
        c, c.args[2], lambda l, n, h: (l, replace(
            n, roots=E, deps=c.deps(), arr=None), h))


@reg(NP, 'polynomial.Chebyshev')
def np_cheb(c):
    return Ext('$cheb')


@reg(OTHER, '$cheb')
def o_cheb(c):
    return dimless(c)


@reg(OTHER, 'spglib.get_symmetry')
def o_spg(c):
    cell, prec = c.arg(0), c.arg(1, 'symprec')
    lat = None
    for a in alts(cell):
        if isinstance(a, Tup) and a.items:
            lat = a.items[0]
    if prec is not None and lat is not None:
        mis = M.Mis()
        la, pa = c.num(lat), c.num(prec)
        if la[1].tag is not None and pa[1].tag is not None:
            M.agree(c.i, la[1], pa[1], M.src(c.node), c.node, mis)
        M.report_mis(c.i, mis, c.node)
    d = c.deps()
    return union([NONE, c.i.new_dict(c.st, {
        'rotations': Num(ONE, False, True, 'int32', True, E, d),
        'translations': Num(ONE, False, True, 'float64', True, E, d),
        'equivalent_atoms': Num(ONE, False, True, 'int32', True, E, d)})])


@reg(OTHER, 'scipy.ndimage.correlate1d', 'scipy.ndimage.convolve1d',
     'scipy.signal.convolve')
def o_conv(c):
    return product(c, c.args[:2])


@reg(OTHER, 'scipy.ndimage.gaussian_filter')
def o_gf(c):
    s = c.arg(1, 'sigma')
    if s is not None:
        for e in (c.elems(s) if isinstance(s, (Ref, Tup)) else [s]):
            dimless(c, [e])
    return k_copy(c)


@reg(OTHER, 'warnings.warn', 'warnings.filterwarnings',
     'warnings.simplefilter')
def o_none(c):
    return NONE


@reg(OTHER, 'collections.OrderedDict')
def o_od(c):
    return b_dict(c)


@reg(OTHER, 'collections.defaultdict')
def o_defaultdict(c):
    el = None
    if c.args:
        if isinstance(c.args[0], Ext) and c.args[0].name.split('.')[-1] in (
                'list', 'dict', 'set'):
            el = c.i.new_list(c.st, ())
    return c.i.new_dict(c.st, {}, el, True)


@reg(OTHER, 'typing.cast')
def o_cast(c):
    return c.args[1]


@reg(OTHER, 'typing.TypeVar', 'collections.namedtuple')
def o_typevar(c):
    return Top()


# ============================ methods ==============================================
def method(c, f):
    o = f.obj
    if isinstance(o, Union):
        outs = []
        for a in o.alts:
            if isinstance(a, Const) and a.v is None and len(o.alts) > 1:
                continue
            g = c.i.getattr_(a, f.name, c.st, f.node)
            outs.append(c.i.call(g, c.args, c.kw, c.st, c.node, c.star,
                                 c.kwstar))
        return union(outs)
    if isinstance(o, Qty):
        return qty_method(c, f, o)
    if isinstance(o, Num):
        return num_method(c, f, o)
    if isinstance(o, (Const, Str)) or isinstance(o, Top) and o.typ == 'str':
        return str_method(c, f, o)
    if isinstance(o, Tup):
        if f.name in ('index', 'count'):
            return seq_find(c, f.name, o.items) or Num(
                ONE, True, False, 'int', None, E, c.deps())
        return Top(c.deps() | c.i.deps_of(o, c.st))
    if isinstance(o, Ref):
        cell = c.i.cell(o, c.st)
        if cell is not None:
            if cell.kind in ('list', 'set'):
                return list_method(c, f, o, cell)
            if cell.kind == 'dict':
                return dict_method(c, f, o, cell)
    if isinstance(o, Super):
        if f.name == '__setattr__' and len(c.args) == 2 and \
                isinstance(c.args[0], Const):
            c.i.setattr_(o.self_, c.args[0].v, c.args[1], c.st, c.node,
                         base=True)
        return NONE if f.name.startswith('__') else c.top()
    if isinstance(o, Top):
        if f.name in ('sort', 'fill', 'resize', 'append', 'update', 'ito',
                      'setflags') and o.roots:
            c.i.write(o.roots, c.st, c.node, M.src(c.node))
        if f.name in ('copy', 'flatten', 'astype'):
            return Top(o.deps | c.deps())
        r = o.roots if f.name in ('reshape', 'view', 'get', 'items',
                                  'values', 'ravel', 'to', 'squeeze') else E
        return Top(c.deps() | o.deps, '', r)
    return Top(c.deps() | c.i.deps_of(o, c.st))


def num_method(c, f, o, label=None, has=False):
    n = f.name
    d = c.deps()

    def b(x):
        return Qty(label, x) if has else x
    if n in ('copy', 'flatten', 'repeat', 'round', 'conj', 'conjugate',
             'cumsum', 'take', 'tolist', 'item', 'clip', 'compress'):
        x = replace(o, roots=E, deps=o.deps | d)
        order = c.arg(0, 'order') if n == 'copy' else None
        if n == 'flatten' or n == 'copy' and (
                order is None or isinstance(order, Const) and order.v == 'C'):
            x = replace(x, contig=True)
        if n == 'item':
            x = replace(x, arr=False)
        if n == 'tolist':
            if has:
                return Top(o.deps)
            return replace(x, arr=None, contig=None,
                           flags=x.flags | {'list'} if c.i.track
                           else x.flags)
        return b(x)
    if n == 'astype':
        dt = dtype_of(c.arg(0, 'dtype')) if c.arg(0, 'dtype') is not None \
            else None
        order = c.kw.get('order')
        cont = True if isinstance(order, Const) and order.v == 'C' else \
            o.contig
        x = replace(o, dtype=EMPTY if o.dtype == EMPTY else dt,
                    deps=o.deps | d, contig=cont)
        cp = c.kw.get('copy')
        if cp is None or isinstance(cp, Const) and cp.v is True:
            x = replace(x, roots=E)
        return b(x)
    if n in ('reshape', 'ravel', 'squeeze'):
        return b(replace(o, deps=o.deps | d))
    if n in ('transpose', 'swapaxes', 'view', 'diagonal'):
        dt = o.dtype
        if n == 'view':
            dt = dtype_of(c.arg(0, 'dtype')) if c.args or c.kw else dt
        return b(replace(o, deps=o.deps | d, contig=o.contig
                         if n == 'view' else None, dtype=dt))
    if n in ('sum', 'mean', 'min', 'max', 'std', 'ptp', 'trace'):
        return b(replace(o, roots=E, deps=o.deps | d, contig=None,
                         arr=False if not c.args and 'axis' not in c.kw
                         else None))
    if n in ('any', 'all'):
        return Top(o.deps | d, 'bool' if not c.args and not c.kw else '')
    if n in ('argsort', 'argmin', 'argmax', 'nonzero', 'searchsorted'):
        return Num(ONE, False, None, 'int', None, E, o.deps | d)
    if n == 'dot':
        return product(C(c.i, 'numpy.dot', [b(o)] + c.args, c.kw, c.st,
                         c.node), [b(o)] + c.args[:1])
    if n in ('sort', 'fill', 'resize', 'itemset', 'partition', 'setflags',
             'put', 'byteswap'):
        if o.roots:
            c.i.write(o.roots, c.st, c.node, M.src(c.node))
        if n == 'fill' and f.node is not None and c.args:
            M.setitem(c.i, replace(o, roots=E), NONE, c.args[0], c.st,
                      f.node.value)
        return NONE
    if n == 'prod':
        return b(replace(o, tag=ONE if o.tag == ONE else None, roots=E))
    if n == 'var':
        return product(c, [b(o)], (2,))
    return Top(o.deps | d)


def qty_method(c, f, o):
    n = f.name
    d = c.deps()
    if n in ('to', 'm_as', 'ito'):
        u = c.arg(0)
        ctx = len(c.args) > 1
        h = c.i.hooks.get('convert')
        if h:
            h(c.i, o, u, c.args[1:], c.st, c.node)
        if c.i.bad is not None and u is not None:
            us = [M.str_unit(x) for x in alts(u)]
            if (o.label == c.i.bad) != any(
                    x is not None and x[0] == c.i.bad for x in us):
                from interp import Diverge
                raise Diverge([(c.st.copy(), 'DimensionalityError')])

        def g(x):
            r = M.str_unit(x)
            lab = r[0] if r is not None else None
            if ctx:
                k = consistent(o)
                q = Qty(lab, replace(o.num, tag=lab if k else None,
                                     lit=False))
            else:
                q = M.conv(o, lab)
            q = Qty(q.label, replace(q.num, deps=q.num.deps | d))
            if n == 'm_as':
                return q.num
            return q
        if u is None:
            return M.conv(o, ONE) if n != 'ito' else NONE
        r = M.lift(g, [u])
        if n == 'ito':
            if o.num.roots:
                c.i.write(o.num.roots, c.st, c.node, M.src(c.node))
            if f.node is not None:
                M.store_into(c.i, f.node.value, lambda x: r
                             if isinstance(x, Qty) else x, c.st)
            return NONE
        return r
    if n in ('to_base_units', 'to_root_units', 'to_compact',
             'to_reduced_units'):
        return Qty(None, replace(o.num, tag=None))
    if n in ('check', 'is_compatible_with'):
        return Top(o.deps | d, 'bool')
    if n == 'tolist':
        return Top(o.deps)
    r = num_method(c, f, o.num, o.label, True)
    return r


def str_method(c, f, o):
    n = f.name
    d = c.deps() | o.deps
    if isinstance(o, Const) and isinstance(o.v, str):
        if n == 'join':
            s = c.seq(c.args[0])[0]
            if s is not None:
                parts = []
                for i, x in enumerate(s):
                    if i:
                        parts.append(o.v)
                    parts.append(x)
                return M.joinstr(c.i, parts, d, c.st)
            return Top(d, 'str')
        if n == 'format':
            return Top(d, 'str')
        if all(isinstance(a, Const) and not isinstance(a.v, tuple)
               for a in c.args) and not c.kw and hasattr(str, n):
            try:
                r = getattr(o.v, n)(*[a.v for a in c.args])
            except Exception:
                return Top(d)
            if isinstance(r, (list, tuple)):
                return c.i.new_list(c.st, [Const(x) for x in r])
            return Const(r, d)
    if n in ('startswith', 'endswith', 'isdigit', 'isalpha'):
        return Top(d, 'bool')
    if n in ('split', 'splitlines', 'rsplit', 'partition', 'rpartition'):
        return c.i.new_list(c.st, elem=Top(d, 'str'))
    if n in ('find', 'index', 'count', 'rfind', 'rindex'):
        return Num(ONE, True, False, 'int', None, E, d)
    if n in ('lower', 'upper', 'strip', 'replace', 'lstrip', 'rstrip',
             'format', 'join', 'title', 'capitalize', 'encode', 'decode',
             'ljust', 'rjust', 'zfill'):
        return Top(d, 'str')
    return Top(d)


def list_method(c, f, o, cell):
    n = f.name
    if n in ('append', 'extend', 'insert', 'pop', 'sort', 'remove', 'clear',
             'reverse', 'add', 'update', 'discard') and cell.ext:
        c.i.write(cell.ext, c.st, c.node, M.src(c.node))
    xs = list(cell.items or ()) + (
        [cell.elem] if cell.elem is not None else [])
    if n in ('append', 'add'):
        v = c.args[0]
        if cell.items is not None and cell.elem is None and \
                len(cell.items) < 24 and n == 'append':
            new = cell.with_(items=cell.items + (v,))
        else:
            new = cell.with_(items=None, elem=union(xs + [v]))
        c.i.setcell(o, c.st, new)
        return NONE
    if n in ('extend', 'update'):
        s, e, _ = c.seq(c.args[0])
        if s is not None and cell.items is not None and \
                cell.elem is None and len(s) + len(xs) <= 40:
            new = cell.with_(items=cell.items + tuple(s))
        else:
            ys = xs + (s or []) + ([e] if e is not None else [])
            new = cell.with_(items=None, elem=union(ys) if ys else None)
        c.i.setcell(o, c.st, new)
        return NONE
    if n == 'insert':
        ys = xs + [c.args[1]]
        if cell.items is not None and cell.elem is None and \
                isinstance(c.args[0], Const):
            l = list(cell.items)
            l.insert(c.args[0].v, c.args[1])
            new = cell.with_(items=tuple(l))
        else:
            new = cell.with_(items=None, elem=union(ys))
        c.i.setcell(o, c.st, new)
        return NONE
    if n == 'pop':
        if cell.items and cell.elem is None and not c.args:
            c.i.setcell(o, c.st, cell.with_(items=cell.items[:-1]))
            return cell.items[-1]
        c.i.setcell(o, c.st, cell.with_(items=None, elem=union(xs)
                                        if xs else None))
        return union(xs) if xs else Top()
    if n == 'copy':
        return c.i.alloc(c.st, cell.with_(ext=E))
    if n in ('sort', 'reverse', 'remove', 'clear', 'discard'):
        c.i.setcell(o, c.st, cell.with_(
            items=() if n == 'clear' else None,
            elem=None if n == 'clear' else union(xs) if xs else None))
        return NONE
    if n in ('index', 'count'):
        return seq_find(c, n, cell.items if cell.elem is None else None) or \
            Num(ONE, True, False, 'int', None, E,
                c.deps() | c.i.deps_of(o, c.st))
    if n in ('intersection', 'union', 'difference'):
        ys = list(xs)
        if n == 'union':
            for a in c.args:
                ys += c.elems(a)
        if all(isinstance(y, Const) for y in ys) and n != 'union' and \
                cell.elem is None and c.args:
            s = c.seq(c.args[0])[0]
            if s is not None and all(isinstance(y, Const) for y in s):
                vals = [y.v for y in s]
                keep = [y for y in ys if (y.v in vals) ==
                        (n == 'intersection')]
                return c.i.alloc(c.st, Cell('set', items=tuple(keep)))
        return c.i.alloc(c.st, Cell('set', elem=union(ys) if ys else None))
    if n in ('issubset', 'issuperset', 'isdisjoint'):
        return c.top('bool')
    return Top(c.deps() | c.i.deps_of(o, c.st))


def seq_find(c, n, items):
    """index and count where all values are known"""
    if items is None or not c.args or not isinstance(c.args[0], Const) or \
            not all(isinstance(x, Const) for x in items):
        return None
    vals = [x.v for x in items]
    if n == 'index' and c.args[0].v not in vals:
        from interp import Diverge
        raise Diverge([(c.st.copy(), 'ValueError')])
    return Const(getattr(vals, n)(c.args[0].v), c.deps())


def dict_method(c, f, o, cell):
    n = f.name
    if n in ('pop', 'update', 'setdefault', 'clear', 'popitem') and cell.ext:
        c.i.write(cell.ext, c.st, c.node, M.src(c.node))
    if c.i.sources and n == 'get':
        cell = orderless(cell)
    vals = list(cell.attrs.values()) + (
        [cell.elem] if cell.elem is not None else [])
    if n == 'get':
        k = c.args[0]
        dflt = c.arg(1, 'default', NONE)
        if isinstance(k, Const):
            if k.v in cell.attrs:
                v = add_deps(cell.attrs[k.v], o.deps)
                # the key may have been added on one branch only
                return union([v, dflt]) if k.v in cell.maybe else v
            if not cell.open:
                return add_deps(dflt, k.deps) if c.i.misses else dflt
            return union([cell.elem if cell.elem is not None
                          else Top(o.deps), dflt])
        return union(vals + [dflt])
    if n == 'items':
        if not cell.open:
            return c.i.new_list(c.st, [Tup((Const(k, o.deps), add_deps(
                v, o.deps))) for k, v in cell.attrs.items()])
        ts = [Tup((Const(k, o.deps), add_deps(v, o.deps)))
              for k, v in cell.attrs.items()]
        ts.append(Tup((Top(o.deps, 'str'), add_deps(cell.elem, o.deps)
                       if cell.elem is not None else Top(o.deps))))
        # kept apart: a key belongs to its value
        return c.i.new_list(c.st, elem=ts[0] if len(ts) == 1 else
                            Union(tuple(ts)))
    if n == 'keys':
        if not cell.open:
            r = c.i.new_list(c.st, [Const(k) for k in cell.attrs])
            c.i.setcell(r, c.st, c.i.cell(r, c.st).with_(maybe=cell.maybe))
            return r
        return c.i.new_list(c.st, elem=Top(o.deps, 'str'))
    if n == 'values':
        if not cell.open:
            return c.i.new_list(c.st, list(cell.attrs.values()))
        return c.i.new_list(c.st, elem=union(vals) if vals
                            else Top(o.deps))
    if n == 'copy':
        return c.i.alloc(c.st, cell.with_(ext=E))
    if n == 'update':
        at = dict(cell.attrs)
        opn, el = cell.open or c.kwstar is not None, cell.elem
        for a in c.args[:1]:
            for x in alts(a):
                k = c.i.cell(x, c.st)
                if k is not None and k.kind == 'dict':
                    at.update(k.attrs)
                    opn = opn or k.open
                    if k.elem is not None:
                        el = union([el, k.elem]) if el is not None \
                            else k.elem
                else:
                    s, e, _ = c.seq(x)
                    pair = s if s is not None else [e]
                    if any(not (isinstance(p, Tup) and len(p.items) == 2 and
                                all(isinstance(y, Const)
                                    for y in alts(p.items[0])))
                           for p in pair):
                        opn = True
                        continue
                    for p in pair:
                        ks = alts(p.items[0])
                        for y in ks:
                            at[y.v] = p.items[1] if s is not None and \
                                len(ks) == 1 or y.v not in at else \
                                union([at[y.v], p.items[1]])
        at.update(c.kw)
        c.i.setcell(o, c.st, cell.with_(
            attrs=at, open=opn, elem=el, maybe=cell.maybe - set(c.kw)))
        return NONE
    if n == 'pop':
        k = c.args[0]
        if isinstance(k, Const):
            at = dict(cell.attrs)
            v = at.pop(k.v, None)
            c.i.setcell(o, c.st, cell.with_(attrs=at))
            if v is not None:
                return union([v, c.args[1]]) if len(c.args) > 1 and \
                    k.v in cell.maybe else v
            return c.args[1] if len(c.args) > 1 and not cell.open else \
                Top(o.deps)
        return union(vals) if vals else Top(o.deps)
    if n == 'setdefault':
        k = c.args[0]
        dv = c.arg(1, None, NONE)
        if isinstance(k, Const):
            v = cell.attrs.get(k.v)
            if v is None:
                at = dict(cell.attrs)
                at[k.v] = dv
                c.i.setcell(o, c.st, cell.with_(attrs=at))
                return dv
            return union([v, dv]) if k.v in cell.maybe else v
        return union(vals + [dv])
    return Top(c.deps() | c.i.deps_of(o, c.st))
