"""Entry points of the package and the symbolic values they are given."""
import ast
import re
import sys
from dataclasses import replace

import interp as IN
import models as M
from interp import Interp, State, Frame, Diverge, FnInfo, join
from units import ONE, atom
from av import (Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Fn, Bound, Cls,
                Ext, Union, Cell, NONE, TRUE, FALSE, alts, union, add_deps,
                with_roots, roots, E, consistent)

sys.setrecursionlimit(20000)
RECEIVERS = ['Crystal', 'ForceConstants', 'QpointFrequencies',
             'QpointPhononModes', 'StructureFactor', 'DebyeWaller',
             'Spectrum1D', 'Spectrum2D', 'Spectrum1DCollection',
             'Spectrum2DCollection', 'BrilleInterpolator']


def doc_of(node):
    d = ast.get_docstring(node) or ''
    out = {}
    cur = None
    for line in d.splitlines():
        m = re.match(r'^(\w+(?:, \w+)*)\s*:?\s*$', line) or \
            re.match(r'^(\w+)\s*:', line)
        if m:
            for n in m.group(1).split(','):
                cur = n.strip()
                out[cur] = ''
        elif cur and line.startswith(' '):
            out[cur] += ' ' + line.strip()
        else:
            cur = None
    return out


class Driver:
    def __init__(self, hooks=None, mark_dicts=False):
        self.mark_dicts = mark_dicts
        self.it = Interp()
        for m in sorted(self.it.mods):
            self.it.module(m)
        self.it.hooks = hooks or {}
        self.proto = {}         # class key -> (State, Ref) after __init__
        self.making = set()
        self.broken = []        # entries that could not be interpreted
        self.done = []
        self.cplx = None        # element type of complex arguments
        self.fix_deps = False   # a fixed argument counts as an input

    # -- values ---------------------------------------------------------------
    def clskey(self, name):
        for k, ci in self.it.classes.items():
            if ci.name == name:
                return k
        return None

    def sym(self, st, name, ann, doc='', default=None, pre=''):
        """value of a parameter"""
        t = ast.unparse(ann) if ann is not None else ''
        t = t.strip('"\'')
        key = pre + name
        opt = t.startswith('Optional[') or t.endswith('| None') or (
            isinstance(default, ast.Constant) and default.value is None)
        if t.startswith('Optional['):
            t = t[9:-1]
        v = self.sym1(st, key, t, doc, name)
        return union([v, Const(None)]) if opt else v

    def sym1(self, st, key, t, doc, name):
        d = frozenset({key})
        r = frozenset({key})
        s = d if self.it.track else E
        t = t.replace('typing.', '').strip('"\' ')
        if t.startswith('Union['):
            parts = split_top(t[6:-1])
            return union([self.sym1(st, key, p, doc, name) for p in parts])
        if ' | ' in t and '[' not in t:
            return union([self.sym1(st, key, p, doc, name)
                          for p in t.split(' | ')])
        if t in ('None', 'NoneType'):
            return NONE
        if t in ('Quantity', 'pint.Quantity', 'ureg.Quantity'):
            u = atom('$' + key)
            arr = True if 'hape (' in doc or 'hape(' in doc else \
                False if 'Scalar' in doc or 'scalar' in doc else None
            dt = 'float64' if arr is False else \
                self.cplx if re.search('ompl[ea]x', doc) else 'real'
            return Qty(u, Num(u, False, arr, dt, None,
                              r if arr is not False else E, d, E, s))
        if t in ('np.ndarray', 'ndarray', 'numpy.ndarray'):
            return Num(ONE, False, True, self.cplx if re.search('ompl[ea]x', doc) else 'real',
                       None, r, d, E, s)
        if t.startswith('Literal['):
            o = ast.literal_eval('[' + t[8:-1] + ']')
            return Str(None, tuple(o), d) if all(isinstance(x, str)
                                                 for x in o) else Top(d)
        if t == 'str':
            if name.endswith('_unit') or name == 'unit':
                return Str(atom('$' + key), None, d)
            return Top(d, 'str', same=s)
        if t == 'bool':
            return Top(d, 'bool', same=s)
        if t == 'int':
            return Num(ONE, True, False, 'int', None, E, d, E, s)
        if t == 'float':
            return Num(ONE, True, False, 'float64', None, E, d, E, s)
        m = re.match(r'^(Sequence|List|list|Iterable|Collection|Iterator)'
                     r'\[(.*)\]$', t, re.S)
        if m:
            el = self.sym1(st, key, m.group(2), '', name)
            return self.it.alloc(st, Cell('list', elem=el, ext=r))
        m = re.match(r'^(Tuple|tuple)\[(.*)\]$', t, re.S)
        if m:
            ps = split_top(m.group(2))
            if ps and ps[-1] == '...':
                el = self.sym1(st, key, ps[0], '', name)
                return self.it.alloc(st, Cell('list', elem=el))
            return Tup(tuple(self.sym1(st, key, p, '', name) for p in ps))
        m = re.match(r'^(Dict|dict|Mapping|OrderedDict)(\[(.*)\])?$', t, re.S)
        if m:
            el = Top(d, '', r)
            if m.group(3):
                ps = split_top(m.group(3))
                if len(ps) == 2 and 'Any' not in ps[1]:
                    el = self.sym1(st, key, ps[1], '', name)
            known = {}
            if key.split('.')[-1] == 'metadata' and isinstance(el, Union):
                # the one list in a metadata dictionary is its line_data
                ls = [a for a in el.alts if isinstance(a, Ref)]
                known = {'line_data': union(ls)} if ls else {}
                el = union([a for a in el.alts if a not in ls])
            return self.it.alloc(st, Cell('dict', attrs=known, elem=el,
                                          open=True, ext=r))
        if t == 'Callable' or t.startswith('Callable['):
            if t.replace(' ', '').endswith(('],Quantity]', '...,Quantity]')):
                return Ext('$fn.' + key, d)
            return Top(d, 'callable')
        alias = {'Spectrum1DCollection': 'Spectrum1DCollection'}
        k = self.clskey(alias.get(t, t))
        if k and self.it.classes[k].name in RECEIVERS:
            return self.obj(st, k, key)
        # an alias defined in a module, e.g. a Union of types
        for mod in self.it.mods:
            for s in self.it.trees[self.it.mods[mod][0]].body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and \
                        s.targets[0].id == t and isinstance(
                            s.value, ast.Subscript):
                    return self.sym1(st, key, ast.unparse(s.value), doc,
                                     name)
        return Top(d, '', r)

    def params(self, st, info, skip=1, pre=''):
        a = info.node.args
        doc = doc_of(info.node)
        pos = list(a.posonlyargs) + list(a.args)
        defaults = [None]*(len(pos) - len(a.defaults)) + list(a.defaults)
        out = {}
        for p, d in list(zip(pos, defaults))[skip:] + \
                list(zip(a.kwonlyargs, a.kw_defaults)):
            anns = {}
            if p.annotation is None:
                for o in info.over:
                    for q in o.args.args + o.args.kwonlyargs:
                        if q.arg == p.arg and q.annotation is not None:
                            anns[ast.unparse(q.annotation)] = q.annotation
            vals = [self.sym(st, p.arg, a, doc.get(p.arg, ''), d, pre)
                    for a in anns.values() or [p.annotation]]
            out[p.arg] = union(vals)
        return out

    # -- objects --------------------------------------------------------------
    def obj(self, st, key, pre):
        """a symbolic instance of a class, as left by its constructor"""
        if key in self.making:
            return Top(frozenset({pre}), '', frozenset({pre}))
        if key not in self.proto:
            self.making.add(key)
            try:
                self.proto[key] = self.make(key)
            finally:
                self.making.discard(key)
        pst, ref = self.proto[key]
        return self.import_obj(st, pst, ref, pre)

    def make(self, key):
        it = self.it
        st = State()
        ci = it.classes[key]
        init = it.find(key, '__init__')
        info = it.fninfo(init[1])
        old, hooks, events, keys = it.frame, it.hooks, it.events, it.evkeys
        it.hooks, it.events, it.evkeys = {}, [], set()
        it.frame = Frame(None, ci.mod, '<make>', None, None)
        ref = it.alloc(st, Cell('obj', cls=key))
        cdoc = doc_of(init_doc(it, key, info))
        try:
            ps = self.params(st, info)
            for n, v in ps.items():
                if isinstance(v, Qty) and v.num.arr is None and n in cdoc:
                    pass
            try:
                it.call_fn(init[1], [], ps, st, ref, None, None)
            except Diverge:
                pass
        finally:
            it.frame, it.hooks, it.events, it.evkeys = old, hooks, events, \
                keys
        return st, ref

    def import_obj(self, st, pst, ref, pre):
        """copy the prototype into st: attributes become symbolic inputs"""
        it = self.it
        seen = {}

        def go(v, path, raw):
            if isinstance(v, Union):
                return union([go(a, path, raw) for a in v.alts])
            d = frozenset({path})
            if isinstance(v, Ref):
                if v.addr in seen:
                    return seen[v.addr]
                c = pst.heap.get(v.addr)
                if c is None:
                    return v
                nr = it.alloc(st, c)
                seen[v.addr] = nr
                at = {k: go(x, f'{path}.{k}' if c.kind == 'obj' else
                            path, raw) for k, x in c.attrs.items()}
                it.setcell(nr, st, c.with_(
                    attrs=at, ext=frozenset({path}),
                    items=tuple(go(x, path, raw) for x in c.items)
                    if c.items is not None else None,
                    elem=go(c.elem, path, raw) if c.elem is not None
                    else None))
                return nr
            last = path.split('.')[-1]
            if isinstance(v, Str) and last.endswith('_unit') and \
                    not last.startswith('_'):
                return Str(atom('$' + path), None, d)
            if isinstance(v, Tup):
                return Tup(tuple(go(x, path, raw) for x in v.items), d)
            if isinstance(v, (Num, Top)):
                keep = v.roots or isinstance(v, Num) and v.arr is not False \
                    or isinstance(v, Top)
                return replace(v, deps=d, roots=d if keep else E,
                               same=d if v.same else E)
            if isinstance(v, Qty):
                return Qty(v.label, replace(v.num, deps=d, roots=d,
                                            same=d if v.num.same else E))
            if isinstance(v, Const) and not path.startswith('?'):
                return replace(v, deps=d)
            return add_deps(v, d)
        return go(ref, pre, None)

    # -- running ----------------------------------------------------------------
    def run(self, f, info, st, self_=None, kw=None, name=None):
        """interpret one entry point; returns (state, value) or None"""
        it = self.it
        it.entry = name or f'{info.mod}:{info.qual}'
        it.unitvars = {}
        it.unit_tests = {}
        it.frame = Frame(None, info.mod, '<entry>', None, None)
        it.n_ops = 0
        it.first_div = None
        it.budget = 12000
        try:
            kw = dict(kw or {})
            a = info.node.args
            star = None
            if a.kwarg and set(kw) >= {x.arg for x in (
                    a.posonlyargs + a.args + a.kwonlyargs)} - {'self', 'cls'}:
                kw.pop(a.kwarg.arg, None)
                star = Top(frozenset({a.kwarg.arg}))
            v = it.call_fn(f, [], kw, st, self_, None, None, star)
            return st, v
        except Diverge:
            return None
        except (KeyError, AttributeError, TypeError, ValueError, IndexError,
                RecursionError) as e:       # a construct not modelled
            self.broken.append((it.entry, f'{type(e).__name__}: {e}'))
            return None
        finally:
            it.frame = None

    def entries(self, classes=None, functions=True):
        """yield (name, class key or None, Fn, info, kind)"""
        it = self.it
        for cname in classes or RECEIVERS:
            key = self.clskey(cname)
            if key is None:
                continue
            names = {}
            for k in reversed(it.mro(key)):
                if k.startswith('ext:'):
                    continue
                ci = it.classes[k]
                for n, f in ci.methods.items():
                    names[n] = (f, ci.kinds.get(n, ''))
                for n, g in ci.props.items():
                    if 'get' in g:
                        names[n] = (g['get'], 'get')
                    if 'set' in g:
                        names[n + '='] = (g['set'], 'set')
            for n, (f, kind) in names.items():
                if n.startswith('_') and n != '__init__' and n not in (
                        '__add__', '__sub__', '__mul__', '__imul__',
                        '__getitem__'):
                    continue
                yield f'{cname}.{n}', key, f, it.fninfo(f), kind
        if functions:
            for mod in sorted(it.mods):
                if mod.startswith('euphonic.cli'):
                    continue
                for n, v in it.module(mod).items():
                    if isinstance(v, Fn) and it.fninfo(v).mod == mod and \
                            not n.startswith('_'):
                        yield f'{mod}.{n}', None, v, it.fninfo(v), 'func'

    def dict_of(self, st, key):
        """to_dict() of a symbolic instance"""
        it = self.it
        o = self.obj(st, key, 'self')
        m = it.find(key, 'to_dict')
        if m is None:
            return None
        hooks, it.hooks = it.hooks, {}
        try:
            r = self.run(m[1], it.fninfo(m[1]), st, o, {}, 'to_dict')
        finally:
            it.hooks = hooks
        return r[1] if r else None

    def mark(self, v, st, root, depth=0):
        """a dictionary given by the caller: its parts are the caller's"""
        it = self.it
        if depth > 6:
            return v
        if isinstance(v, Union):
            return Union(tuple(self.mark(a, st, root, depth + 1)
                               for a in v.alts))
        if isinstance(v, Qty):
            return Qty(v.label, replace(v.num, roots=frozenset({root}),
                                        deps=frozenset({root})))
        if isinstance(v, (Num, Top)):
            return replace(v, roots=frozenset({root}),
                           deps=frozenset({root}))
        if isinstance(v, (Const, Str)):
            return replace(v, deps=frozenset({root}))
        if isinstance(v, Ref):
            c = it.cell(v, st)
            if c is None or root in c.ext:
                return v
            it.setcell(v, st, c.with_(ext=c.ext | {root}))
            at = {k: self.mark(x, st, f'{root}[{k}]', depth + 1)
                  for k, x in c.attrs.items()}
            items = None if c.items is None else tuple(
                self.mark(x, st, f'{root}[]', depth + 1) for x in c.items)
            elem = None if c.elem is None else self.mark(
                c.elem, st, f'{root}[]', depth + 1)
            it.setcell(v, st, c.with_(ext=frozenset({root}), attrs=at,
                                      items=items, elem=elem))
        return v

    def run_all(self, classes=None, functions=True, only=None, on=None,
                tasks=None):
        """interpret every entry point; with tasks, (entry, fixed argument)
        pairs as listed by choices()"""
        for name, key, f, info, kind in self.entries(classes, functions):
            if only and not only(name):
                continue
            for fix in [None] if tasks is None else [
                    x for n, x in tasks if n == name]:
                self.run_one(name, key, f, info, kind, fix, on)

    def all_choices(self):
        """each optional argument, flag or choice of each entry point"""
        out = []
        for name, key, f, info, kind in self.entries():
            out.append((name, None))
            if kind not in ('get', 'set'):
                kw = self.params(State(), info, 0 if kind in (
                    'func', 'static') else 1)
                out += [(name, x) for x in self.choices(info, kw)]
        return out

    def choices(self, info, kw):
        out = []
        for p, v in kw.items():
            vs = alts(v)
            some = [a for a in vs if not (isinstance(a, Const)
                                          and a.v is None)]
            if len(some) < len(vs) and some:
                out += [(p, None), (p, 'given')]
                vs = some
            for a in vs:
                if isinstance(a, Str) and a.opts:
                    out += [(p, o) for o in a.opts]
                elif isinstance(a, Top) and a.typ == 'bool':
                    out += [(p, True), (p, False)]
        return out

    def run_one(self, name, key, f, info, kind, fix, on):
        st = State()
        if kind == 'func':
            kw = self.params(st, info, 0)
            self_ = None
        elif kind == 'class':
            kw = self.params(st, info, 1)
            self_ = Cls(key)
        elif kind == 'static':
            kw = self.params(st, info, 0)
            self_ = None
        elif info.name == '__init__':
            kw = self.params(st, info, 1)
            self_ = self.it.alloc(st, Cell('obj', cls=key))
        else:
            self_ = self.obj(st, key, 'self')
            kw = self.params(st, info, 1)
            if kind == 'set':
                p = info.param_names()[1]
                if not info.node.args.args[1].annotation:
                    kw[p] = self.sym1(st, p, 'Quantity', '', p)
        if name.endswith('.from_dict'):
            d = self.dict_of(st, key)
            if d is not None:
                if self.mark_dicts:
                    self.mark(d, st, info.param_names()[1])
                kw[info.param_names()[1]] = d
        for p, v in [] if fix is None else [fix] if isinstance(
                fix[0], str) else fix:
            if v == 'given':
                kw[p] = union([a for a in alts(kw[p]) if not (
                    isinstance(a, Const) and a.v is None)])
            else:
                kw[p] = Const(v, frozenset({p, '?option'}) if self.fix_deps
                              else E)
        r = self.run(f, info, st, self_, kw, name)
        if fix is None:
            self.done.append(name)
        self.fix = fix
        if on:
            on(self, name, key, info, kind, r, self_, st)


def init_doc(it, key, info):
    return info.node


def split_top(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '[(':
            depth += 1
        elif ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
