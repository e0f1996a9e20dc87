"""The contract between the Python caller and the compiled extension."""
import ast
import re

import cfront
import cpaths
import extmodels as XM
import ffi as F
import interp
from av import Const, Top, Num, Qty, Ref, Str, Tup, Union, Ext, alts, EMPTY
from cfront import strip, show, rel, AnalysisBroken
from checks_py import base
from core import Result
from driver import Driver

READS = {'PyObject_GetAttrString': 'attr', 'PyDict_GetItemString': 'key',
         'PyMapping_GetItemString': 'key'}
CONV = {'PyLong_AsLong': 'int', 'PyLong_AsLongLong': 'int',
        'PyLong_AsSsize_t': 'int', 'PyInt_AsLong': 'int',
        'PyFloat_AsDouble': 'float', 'PyFloat_AS_DOUBLE': 'float'}
DATA = {'PyArray_DATA', 'PyArray_BYTES', 'PyArray_GETPTR1', 'PyArray_GETPTR2',
        'PyArray_GETPTR3', 'PyArray_GETPTR4'}
ELEM = {'double': ('float64', 'complex128'), 'int': ('int32',),
        'int32_t': ('int32',), 'npy_int32': ('int32',),
        'npy_int': ('int32',), 'float': ('float32',),
        'long': ('int64', 'int'), 'npy_intp': ('int64', 'int'),
        'int64_t': ('int64', 'int'), 'npy_int64': ('int64', 'int'),
        'npy_double': ('float64', 'complex128'),
        'double complex': ('complex128',), '_Complex double': ('complex128',),
        'npy_cdouble': ('complex128',)}


class CSide:
    """what the C function wants of each Python object it is given"""

    def __init__(self, prog, f):
        self.prog, self.f = prog, f
        self.src = {}       # variable id -> ('arg', n) | (kind, var id, name)
        self.units = None   # PyArg_ParseTuple units
        self.want = []      # (variable id, element type or scalar, line,guard)
        self.reads = []     # (kind, source variable, name, conv, line, guard)
        self.outs = {}
        for n in (1, 2):    # names may be read before they are resolved
            self.reads, self.want = [], []
            self.go(f.body, ())

    def kind(self, g, seen=()):
        """how a function of the package reads a named item: (kind, conv)"""
        k = cv = None
        if g is None or g in seen or g.body is None:
            return None, None
        for e in g.body.walk():
            if e.k != 'call':
                continue
            n = strip(e.a[0])
            if n.k != 'fn':
                continue
            if n.v in READS:
                k = READS[n.v]
            elif n.v in CONV:
                cv = CONV[n.v]
            else:
                k2, c2 = self.kind(self.prog.lookup(n.v, g.file), seen + (g,))
                k, cv = k or k2, cv or c2
        return k, cv

    def var(self, e):
        e = strip(e)
        if e is not None and e.k == 'un' and e.v == '&':
            e = strip(e.a[0])
        return e.v if e is not None and e.k == 'var' else None

    def data(self, e):
        """the array object whose data pointer e is"""
        e = strip(e)
        if e is None:
            return None
        if e.k == 'cond':
            return self.data(e.a[1]) or self.data(e.a[2])
        if e.k != 'call':
            return None
        n = strip(e.a[0])
        if n.k != 'fn':
            return None
        if n.v in DATA and len(e.a) > 1:
            return self.var(e.a[1])
        g = self.prog.lookup(n.v, self.f.file)
        if g is not None and g.body is not None:
            for x in g.body.walk():
                if x.k == 'ret' or x.k == 'return':
                    v = self.data_in(g, x)
                    if v is not None:
                        return self.var(e.a[1 + v])
        return None

    def data_in(self, g, ret):
        for x in ret.walk():
            if x.k == 'call' and strip(x.a[0]).k == 'fn' and \
                    strip(x.a[0]).v in DATA:
                v = self.var(x.a[1])
                for i, p in enumerate(g.params):
                    if v is not None and p.id == v.id:
                        return i
        return None

    def go(self, e, guard):
        if e is None:
            return
        if e.k == 'if':
            self.go(e.a[0], guard)
            g = self.conds(e.a[0])
            self.go(e.a[1], guard + g)
            for x in e.a[2:]:
                self.go(x, guard)
            return
        if e.k == 'call':
            self.call(e, guard)
        if e.k == 'assign' and e.v == '=':
            self.bind(self.var(e.a[0]), e.a[1], e.line, guard)
        if e.k == 'decl' and e.a:
            self.bind(e.v, e.a[0], e.line, guard)
        for x in e.a:
            self.go(x, guard)

    def conds(self, c):
        c = strip(c)
        if c is None:
            return ()
        if c.k == 'var' and self.src.get(c.v.id, ('',))[0] == 'arg':
            return (self.src[c.v.id][1],)
        if c.k == 'bin' and c.v == '&&':
            return self.conds(c.a[0]) + self.conds(c.a[1])
        if c.k == 'bin' and c.v in ('!=', '>', '==') and \
                strip(c.a[1]).k == 'num' and \
                (strip(c.a[1]).v == 0) == (c.v != '=='):
            return self.conds(c.a[0])
        return ()

    def bind(self, v, rhs, line, guard):
        if v is None or not hasattr(v, 'id'):
            return
        r = strip(rhs)
        arr = self.data(rhs)
        if arr is not None:
            t = re.sub(r'\b(const|restrict|volatile)\b', '',
                       v.type.split('[')[0]).replace('*', ' ').strip()
            self.want.append((arr, ' '.join(t.split()), line, guard, v))
            return
        if r is not None and r.k == 'var' and r.v.id in self.src:
            self.src[v.id] = self.src[r.v.id]
        if r is not None and r.k == 'call':
            n = strip(r.a[0])
            if n.k == 'fn' and n.v in READS and len(r.a) > 2 and \
                    strip(r.a[2]).k == 'str':
                s = self.var(r.a[1])
                self.src[v.id] = (READS[n.v], s.id if s else None,
                                  strip(r.a[2]).v)
            elif n.k == 'fn' and n.v in CONV:
                s = self.var(r.a[1])
                if s is not None:
                    self.reads.append(('conv', s, None, CONV[n.v], line,
                                       guard))

    def call(self, e, guard):
        n = strip(e.a[0])
        if n.k != 'fn':
            return
        args = e.a[1:]
        if n.v == 'PyArg_ParseTuple':
            fmt = strip(args[1])
            if fmt.k != 'str':
                raise AnalysisBroken('PyArg_ParseTuple with a computed format')
            self.units = cpaths.parse_fmt(fmt.v)
            self.parse_line = e.line
            j = 2
            self.types = []
            for pos, u in enumerate(self.units):
                t = None
                if u in ('O!', 'O&'):
                    t = show(args[j]) if j < len(args) else None
                    j += 1
                v = self.var(args[j]) if j < len(args) else None
                self.types.append((u, t, v))
                if v is not None:
                    self.src[v.id] = ('arg', pos)
                j += 1
            self.extra = len(args) - j
            return
        if n.v in READS and len(args) > 1 and strip(args[1]).k == 'str':
            s = self.var(args[0])
            self.reads.append((READS[n.v], s, strip(args[1]).v, None, e.line,
                               guard))
            return
        g = self.prog.lookup(n.v, self.f.file)
        if g is None:
            return
        strs = [strip(a).v for a in args if strip(a).k == 'str']
        k, cv = self.kind(g)
        if k and len(strs) == 1:
            outs = [self.var(a) for a in args if strip(a).k == 'un' and
                    strip(a).v == '&']
            ins = [self.var(a) for a in args if strip(a).k == 'var']
            if len(ins) == 1:
                self.reads.append((k, ins[0], strs[0], cv, e.line, guard))
                if len(outs) == 1 and outs[0] is not None and cv is None:
                    self.src[outs[0].id] = (k, ins[0].id, strs[0])


def methods(prog):
    """{Python name: C function} from the method table"""
    out = {}
    for v, init in prog.globals:
        if init is None or 'PyMethodDef' not in v.type:
            continue
        name = None
        for e in init.walk():
            if e.k == 'str' and name is None:
                name = e.v
            elif e.k == 'fn':
                if name is not None:
                    out[name] = next((f for f in prog.by_file.values()
                                      if f.name == e.v), None)
                name = None
    return out


def _num(v):
    return v.num if isinstance(v, Qty) else v


def contract():
    """The C sources are parsed by clang: the format, type and order of every
    argument the extension unpacks, the element type it reads each array's
    memory as, the attributes and keys it looks up, and the conditions under
    which it does so.  The Python side is interpreted abstractly from every
    public entry point (array arguments may hold integers or floating point
    numbers of any width, in any memory order), and at each call of the
    extension every array must provably have that element type and be C
    contiguous, every scalar be of the kind unpacked, and every attribute and
    key exist."""
    res = Result()
    prog = cfront.load()
    table = methods(prog)
    sides = {}
    for name, f in table.items():
        if f is None:
            continue
        s = CSide(prog, f)
        if s.units is not None:
            sides[name] = s
    calls = F.extension_calls()
    if not sides or not calls:
        raise AnalysisBroken('no call of the extension found')
    obl, decided, undecided = set(), set(), {}
    for path, fn, call, name in calls:
        if name not in table:
            res.add('no-such-function', f'{path}:{fn.name}', call.lineno,
                    f'the extension has no function `{name}`', name)

    def bad(rule, fn, node, msg, key):
        res.add(rule, fn, getattr(node, 'lineno', 0), msg, key)

    def look(it, st, side, vals, vid, guard, depth=0):
        """[(description, abstract value)] of a C variable"""
        s = side.src.get(vid)
        if s is None or depth > 4:
            return None
        if s[0] == 'arg':
            return [(f'argument {s[1] + 1}', vals[s[1]])] \
                if s[1] < len(vals) else None
        got = look(it, st, side, vals, s[1], guard, depth + 1)
        if got is None:
            return None
        out = []
        for d, v in got:
            for a in alts(v):
                if isinstance(a, Const) and a.v is None:
                    continue
                c = it.cell(a, st)
                nm = f'{d}.{s[2]}' if s[0] == 'attr' else f'{d}[{s[2]!r}]'
                if c is None:
                    out.append((nm, None))
                elif s[2] in c.attrs:
                    out.append((nm, c.attrs[s[2]]))
                elif s[0] == 'attr' and c.cls and it.find(c.cls, s[2]):
                    out.append((nm, Top()))
                else:
                    out.append((nm, 'missing' if not c.open else None))
        return out

    def ext(it, f, args, kw, st, node):
        if not (isinstance(f, Ext) and '._euphonic.' in f.name):
            return
        name = f.name.split('.')[-1]
        side = sides.get(name)
        if side is None:
            return
        fr = it.frame
        where = f'{it.path(fr.mod)}:{fr.qual}'
        cw = f'{rel(side.f.file)}:{side.f.name}'
        if kw:
            bad('arguments', where, node, f'`{name}` is called with keyword '
                'arguments; the extension takes none', 'keywords')
        if len(args) != len(side.units):
            bad('arguments', where, node, f'`{name}` is called with '
                f'{len(args)} arguments; {cw} unpacks {len(side.units)}',
                f'count {len(args)} {len(side.units)}')
            return
        nodes = XM.arg_nodes(XM.C(it, '', args, kw, st, node))
        names = [M_src(a) for a in nodes] if len(nodes) == len(args) else [
            f'argument {i + 1}' for i in range(len(args))]

        def off(guard):
            """the guarded C code is not reached with these arguments"""
            return any(all(isinstance(a, Const) and not a.v
                           for a in alts(args[g])) for g in guard)
        for i, (u, t, v) in enumerate(side.types):
            key = (name, i, 'unpack')
            obl.add(key)
            for a in alts(args[i]):
                n = _num(a)
                wrong = None
                if u == 'O!' and t and 'PyArray_Type' in t:
                    if isinstance(a, (Qty, Str, Tup, Const)) or \
                            isinstance(a, Num) and n.arr is False or \
                            it.cell(a, st) is not None:
                        wrong = 'is not an array'
                elif u in ('i', 'l', 'n', 'I', 'k', 'L', 'p'):
                    if isinstance(a, (Qty, Str, Tup)) or \
                            isinstance(a, Top) and a.typ == 'str' or \
                            isinstance(a, Const) and not isinstance(
                                a.v, int) or \
                            isinstance(n, Num) and (
                                n.arr is True or n.arr is False and
                                n.dtype in ('float64', 'complex128')):
                        wrong = 'is not an integer'
                elif u in ('d', 'f'):
                    if isinstance(a, (Qty, Str, Tup)) or \
                            isinstance(a, Const) and not isinstance(
                                a.v, (int, float)):
                        wrong = 'is not a number'
                if wrong:
                    bad('argument-kind', where, node,
                        f'`{names[i]}` (argument {i + 1} of `{name}`) {wrong};'
                        f' {cw} unpacks it with "{u}"', f'{i} {wrong}')
                else:
                    decided.add(key)
        for var, elem, line, guard, ptr in side.want:
            s = side.src.get(var.id)
            if off(guard):
                continue
            key = (name, var.name, elem)
            obl.add(key)
            ok = ELEM.get(elem)
            for d, v in look(it, st, side, args, var.id, guard) or \
                    [(var.name, None)]:
                if s is not None and s[0] == 'arg':
                    d = f'`{names[s[1]]}` ({d} of `{name}`)'
                if v is None or v == 'missing':
                    if v is None:
                        undecided.setdefault(key, 'value not known')
                    continue
                for a in alts(v):
                    n = _num(a)
                    if isinstance(a, Const) and a.v is None and \
                            (guard or s[0] != 'arg'):
                        continue
                    if isinstance(a, (Qty, Str)) or \
                            it.cell(a, st) is not None or \
                            isinstance(n, Num) and n.arr is False:
                        if s[0] != 'arg':
                            bad('argument-kind', where, node, f'{d} is not a '
                                f'plain array; {cw} line {line} reads its '
                                f'memory as {elem}', f'{var.name} kind')
                        continue
                    if not isinstance(n, Num) or ok is None:
                        undecided.setdefault(key, 'value not known')
                        continue
                    if n.dtype != EMPTY:
                        if n.dtype is None:
                            undecided.setdefault(key, 'element type not known')
                        elif n.dtype not in ok:
                            bad('element-type', where, node,
                                f'{d} may reach the extension with elements '
                                f'of type {DT.get(n.dtype, n.dtype)}; {cw} '
                                f'line {line} reads its memory as {elem}',
                                f'{var.name} {elem}')
                        else:
                            decided.add(key)
                    if n.contig is not True:
                        bad('contiguity', where, node,
                            f'{d} may reach the extension in another memory '
                            f'layout than C order; {cw} line {line} reads its '
                            'memory in order', f'{var.name} order')
        for kind, var, item, cv, line, guard in side.reads:
            if off(guard):
                continue
            got = look(it, st, side, args, var.id, guard) if var is not None \
                else None
            key = (name, kind, var.name if var is not None else '?', item)
            obl.add(key)
            if not got:
                undecided.setdefault(key, 'object not known')
                continue
            for d, v in got:
                if kind == 'conv':
                    items = [(d, v)]
                else:
                    items = []
                    for a in alts(v) if v not in (None, 'missing') else ():
                        if isinstance(a, Const) and a.v is None and guard:
                            continue
                        c = it.cell(a, st)
                        nm = f'{d}.{item}' if kind == 'attr' else \
                            f'{d}[{item!r}]'
                        if c is None:
                            undecided.setdefault(key, 'object not known')
                        elif item in c.attrs:
                            items.append((nm, c.attrs[item]))
                            decided.add(key)
                        elif kind == 'attr' and c.cls and \
                                it.find(c.cls, item):
                            decided.add(key)
                        elif not c.open or c.kind == 'obj':
                            bad('missing', where, node,
                                f'{nm} does not exist when the extension is '
                                f'called; {cw} line {line} reads it',
                                f'{item}')
                        else:
                            undecided.setdefault(key, 'mapping not known')
                for nm, x in items:
                    for a in alts(x) if x not in (None, 'missing') else ():
                        n = _num(a)
                        if not cv or not isinstance(n, (Num, Const)):
                            continue
                        w = None
                        if isinstance(n, Const):
                            if n.v is None and guard:
                                continue
                            w = not isinstance(n.v, int if cv == 'int'
                                               else float)
                        elif n.arr is True or isinstance(a, Qty):
                            w = True
                        elif cv == 'int' and n.dtype in (
                                'float64', 'floating', 'int32', 'int64'):
                            w = True
                        elif cv == 'float' and n.dtype in (
                                'int', 'int32', 'int64', 'integer'):
                            w = True
                        if w:
                            bad('scalar-kind', where, node,
                                f'{nm} is not a Python {cv} when the '
                                f'extension is called; {cw} line {line} '
                                f'accepts nothing else', f'{item} {cv}')

    for path, fn, call, name in calls:
        side = sides.get(name)
        if side is None:
            continue
        for g in {g for w in side.want for g in w[3]} | \
                {g for r in side.reads for g in r[5]}:
            nodes = F.call_nodes(fn, call)
            if g < len(nodes) and isinstance(nodes[g], ast.Name):
                interp.PARTITION.add(nodes[g].id)
    d = Driver({'ext': ext})
    d.run_all()
    base(res, d)
    for k in sorted(obl, key=str):
        res.sample(' '.join(str(x) for x in k))
    res.count('calls of the extension', len(calls))
    res.count('obligations', len(obl))
    res.count('obligations decided', len(obl & decided))
    for k, why in sorted(undecided.items(), key=str):
        if k not in decided:
            res.notes.append(f'not decided: {k}: {why}')
    res.assumptions += [
        'arrays given by the caller hold real numbers (integers or floating '
        'point of any width) unless documented as complex',
        'astype / ascontiguousarray give the requested element type and order',
    ]
    if not res.findings and (len(obl) < 20 or len(obl & decided) < 15):
        raise AnalysisBroken(f'only {len(obl & decided)} of {len(obl)} '
                             'obligations of the extension were reached')
    return res


DT = {'real': 'int or float of unknown width', 'floating':
      'float of unknown width', 'integer': 'integer of unknown width',
      'int': 'int64'}


def M_src(n):
    return ast.unparse(n)
