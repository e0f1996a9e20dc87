"""Abstract interpreter for the Python package: statements, names, calls.

Values are in av.py, models of numpy/pint/builtins in models.py.  Branches are
followed separately (merged when equal or too many), calls into the package
are inlined, loops are run twice and joined, unknown things become Top."""
import ast
import dataclasses
import os
from dataclasses import replace

import av
import ffi
from cfront import REPO
from av import (unsame, INTS, FLOATS, REALS, ORDER, orderless, Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Fn, Bound, Cls,
                Mod, Ext, Meth, Part, Super, Union, Cell, NONE, TRUE, FALSE,
                alts, union, add_deps, with_roots, roots, E, consistent,
                merge2)
from units import ONE, Unit, atom

MAXSTATES = 16
MAXDEPTH = 16


class Diverge(Exception):
    """every path of the expression raises"""
    def __init__(self, excs):
        self.excs = excs            # [(State, exception name)]


ASKED = frozenset({'?option'})


def asks(e):
    """a test of what a value is, not of whether there is one"""
    if isinstance(e, ast.Compare):
        return not all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops)
    return isinstance(e, ast.Call) and not (
        isinstance(e.func, ast.Name) and e.func.id in (
            'isinstance', 'callable', 'bool', 'len', 'hasattr'))


class State:
    __slots__ = ('env', 'heap', 'yields', 'pc', 'ipc')

    def __init__(self, env=None, heap=None, yields=None, pc=E, ipc=E):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.yields = yields
        self.pc = pc            # deps of the conditions taken
        self.ipc = ipc          # conditions on which this point is reached

    def copy(self):
        return State(dict(self.env), dict(self.heap),
                     list(self.yields) if self.yields is not None else None,
                     self.pc, self.ipc)

    def become(self, o):
        self.env, self.heap, self.yields = o.env, o.heap, o.yields
        self.pc = o.pc
        self.ipc = o.ipc

    def same(a, b):
        if a.env != b.env or a.heap.keys() != b.heap.keys() or \
                a.yields != b.yields:
            return False
        return all(a.heap[k] is b.heap[k] or a.heap[k].same(b.heap[k])
                   for k in a.heap)


def join_cells(a, b):
    if a is b or a.same(b):
        return a
    attrs = {}
    for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
        if k in a.attrs and k in b.attrs:
            attrs[k] = a.attrs[k] if a.attrs[k] == b.attrs[k] else \
                union([a.attrs[k], b.attrs[k]])
        else:
            attrs[k] = a.attrs.get(k, b.attrs.get(k))
    items = elem = None
    if a.items is not None and b.items is not None and \
            len(a.items) == len(b.items):
        items = tuple(union([x, y]) for x, y in zip(a.items, b.items))
    else:
        xs = list(a.items or ()) + list(b.items or ())
        xs += [x.elem for x in (a, b) if x.elem is not None]
        elem = union(xs) if xs else None
        if a.items == () and b.items == ():
            items = ()
    if a.kind == 'dict':
        es = [x.elem for x in (a, b) if x.elem is not None]
        elem = union(es) if es else None
        items = None
    opn = a.open or b.open
    may = a.maybe | b.maybe
    if a.kind == 'dict' and set(a.attrs) != set(b.attrs):
        # a key present on one branch only is kept as may-present
        may |= set(a.attrs) ^ set(b.attrs)
    return Cell(a.kind, a.cls if a.cls == b.cls else a.cls, attrs, items, elem,
                a.ext | b.ext, opn, a.site, may)


def renamed(v, names):
    """the value with references renamed"""
    if isinstance(v, Ref):
        return replace(v, addr=names[v.addr]) if v.addr in names else v
    if isinstance(v, Tup):
        its = tuple(renamed(x, names) for x in v.items)
        return v if its == v.items else replace(v, items=its)
    if isinstance(v, Union):
        al = tuple(renamed(x, names) for x in v.alts)
        return v if al == v.alts else union(al)
    o = getattr(v, 'obj', None)
    if o is not None and dataclasses.is_dataclass(v):
        n = renamed(o, names)
        return v if n == o else replace(v, obj=n)
    return v


def unify(a, b):
    """b, with what a variable holds that was made on one side only called
    the same on both: one summary instead of a list of alternatives"""
    names = {}
    for k, v in a.env.items():
        w = b.env.get(k)
        if isinstance(v, Ref) and isinstance(w, Ref) and \
                v.addr != w.addr and v.addr not in b.heap and \
                w.addr not in a.heap and w.addr not in names and \
                v.addr not in names.values():
            c, d = a.heap.get(v.addr), b.heap.get(w.addr)
            if c is not None and d is not None and c.kind == d.kind and \
                    c.cls == d.cls and c.kind in ('dict', 'list'):
                names[w.addr] = v.addr
    if not names:
        return b
    env = {k: renamed(v, names) for k, v in b.env.items()}
    heap = {}
    for k, c in b.heap.items():
        at = {n: renamed(v, names) for n, v in c.attrs.items()}
        its = None if c.items is None else tuple(
            renamed(v, names) for v in c.items)
        el = None if c.elem is None else renamed(c.elem, names)
        heap[names.get(k, k)] = c if (at, its, el) == (
            c.attrs, c.items, c.elem) else c.with_(
            attrs=at, items=its, elem=el)
    ys = None if b.yields is None else [renamed(y, names) for y in b.yields]
    return State(env, heap, ys, b.pc, b.ipc)


def join(a, b):
    av.HEAPS = [a.heap, b.heap]
    env = {}
    for k in list(a.env) + [k for k in b.env if k not in a.env]:
        if k in a.env and k in b.env:
            env[k] = a.env[k] if a.env[k] == b.env[k] else \
                union([a.env[k], b.env[k]])
        else:
            env[k] = a.env.get(k, b.env.get(k))
    heap = {}
    for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
        if k in a.heap and k in b.heap:
            heap[k] = join_cells(a.heap[k], b.heap[k])
        else:
            heap[k] = a.heap.get(k) or b.heap.get(k)
    ys = None
    if a.yields is not None:
        ys = a.yields + [y for y in (b.yields or []) if y not in a.yields]
    return State(env, heap, ys, a.pc | b.pc, a.ipc | b.ipc)


PARTITION = set()     # names whose truth keeps states apart


def merge_states(states, cap=MAXSTATES):
    if PARTITION and len(states) > cap:
        groups = {}
        for s in states:
            k = tuple(v.v for v in (s.env.get(n) for n in sorted(PARTITION))
                      if isinstance(v, Const) and isinstance(v.v, bool))
            groups.setdefault(k, []).append(s)
        if len(groups) > 1:
            return [x for g in groups.values()
                    for x in _merge_states(g, cap)]
    return _merge_states(states, cap)


def _merge_states(states, cap):
    out = []
    for s in states:
        for o in out:
            if o.same(s):
                o.pc = o.pc | s.pc
                o.ipc = o.ipc | s.ipc
                break
        else:
            out.append(s)
    if len(out) > cap:
        r = out[0]
        for s in out[1:]:
            r = join(r, unify(r, s))
        out = [r]
    return out


class Frame:
    __slots__ = ('fn', 'mod', 'qual', 'cls', 'parent', 'params', 'depth',
                 'line', 'node', 'globals_', 'defcls')

    def __init__(self, fn, mod, qual, cls, parent):
        self.fn, self.mod, self.qual, self.cls = fn, mod, qual, cls
        self.parent = parent
        self.params = set()
        self.depth = parent.depth + 1 if parent else 0
        self.line = 0


def local_names(node):
    """names the body of a function binds"""
    out, outer = set(), set()

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0]
                           for a in c.names)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            go(c)
    for b in node.body:
        go(ast.Module([b], []))
    return out - outer


class FnInfo:
    over = ()
    _locals = None

    def locals(self):
        if self._locals is None:
            self._locals = local_names(self.node) if isinstance(
                self.node, ast.FunctionDef) else frozenset()
        return self._locals

    def __init__(self, node, mod, qual, cls=None, closure=None, decos=()):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.closure = closure      # env dict at definition (locals)
        self.decos = decos

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    @property
    def args(self):
        return self.node.args

    def param_names(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class ClsInfo:
    def __init__(self, key, node, mod):
        self.key, self.node, self.mod = key, node, mod
        self.name = node.name
        self.bases = []         # keys or 'ext:...'
        self.methods = {}       # name -> Fn value
        self.props = {}         # name -> {'get': Fn, 'set': Fn}
        self.attrs = {}         # class attributes -> V
        self.ann = {}           # annotated names
        self.kinds = {}         # method name -> 'class'|'static'|''


def iskind(node, *names):
    t = ast.unparse(node)
    return any(t == n or t.endswith('.' + n) or t.startswith(n + '(')
               for n in names)


class Interp:
    def __init__(self):
        self.partition = PARTITION
        self.trees = ffi.modules()
        self.mods = {}          # dotted module name -> (path, tree)
        for p, t in self.trees.items():
            nm = p[:-3].replace(os.sep, '.')
            if nm.endswith('.__init__'):
                nm = nm[:-9]
            self.mods[nm] = (p, t)
        self.modenv = {}        # module name -> {name: V}
        self.loading = set()
        self.fns = []           # FnInfo table
        self.classes = {}       # key -> ClsInfo
        self.naddr = 0
        self.misses = False     # missing attributes and keys raise
        self.source_sites = {}
        self.sources = False    # follow random numbers, clock, environment
        self.track = False      # follow which values are inputs, unchanged
        self.json = None        # what is written to JSON files
        self.json_in = None     # what is read from them
        self.implicit = False   # follow control dependences too
        self.cdeps = E
        self.raise_deps = E     # what decides about, or goes into, errors
        self.events = []
        self.evkeys = set()
        self.frame = None
        self.entry = ''
        self.gaps = {}
        self.agreed = set()     # operations on two numbers with units
        self.visited = set()    # functions interpreted
        self.calls_seen = set()
        self.heap0 = {}         # heap of module-level objects
        self.hooks = {}
        self.stack = []
        import models
        self.models = models
        self.globals_state = State()
        self.n_ops = 0
        self.budget = None
        self.unitvars = {}
        self.unit_tests = {}
        self.strict = False     # assignments go through __setattr__
        self.bad = None         # a unit nothing converts to
        self.atoms_free = True
        self.site_addr = {}

    # -- events --------------------------------------------------------------
    def event(self, kind, msg, node=None, key=None, **data):
        fr = self.frame
        line = getattr(node, 'lineno', fr.line if fr else 0)
        where = f'{self.path(fr.mod)}:{fr.qual}' if fr else '?'
        k = (kind, where, key or msg)
        if k in self.evkeys:
            return
        self.evkeys.add(k)
        self.events.append(dict(kind=kind, where=where, line=line, msg=msg,
                                key=key or msg, entry=self.entry,
                                stack=self.stackstr(), **data))

    def stackstr(self):
        out, fr = [], self.frame
        while fr:
            out.append(f'{fr.qual}:{fr.line}')
            fr = fr.parent
        return ' <- '.join(out)

    def path(self, mod):
        return self.mods[mod][0] if mod in self.mods else mod

    def gap(self, what):
        self.gaps[what] = self.gaps.get(what, 0) + 1

    # -- heap ---------------------------------------------------------------
    def alloc(self, st, cell):
        self.naddr += 1
        st.heap[self.naddr] = cell
        return Ref(self.naddr)

    def new_list(self, st, items=None, elem=None, ext=E):
        return self.alloc(st, Cell('list', items=tuple(items)
                                   if items is not None else None, elem=elem,
                                   ext=ext))

    def new_dict(self, st, keys=None, elem=None, open=False, ext=E):
        return self.alloc(st, Cell('dict', attrs=dict(keys or {}), elem=elem,
                                   open=open, ext=ext))

    def cell(self, v, st):
        if isinstance(v, Ref):
            return st.heap.get(v.addr) or self.globals_state.heap.get(v.addr)
        return None

    def setcell(self, ref, st, cell):
        st.heap[ref.addr] = cell

    def deps_of(self, v, st, seen=None):
        """all data provenance reachable from v"""
        if v is None:
            return E
        d = v.deps
        if isinstance(v, Union):
            for a in v.alts:
                d |= self.deps_of(a, st, seen)
        elif isinstance(v, Tup):
            for a in v.items:
                d |= self.deps_of(a, st, seen)
        elif isinstance(v, (Bound, Meth)):
            d |= self.deps_of(v.self_ if isinstance(v, Bound) else v.obj, st,
                              seen)
        elif isinstance(v, Part):
            for a in v.args:
                d |= self.deps_of(a, st, seen)
            for _, a in v.kw:
                d |= self.deps_of(a, st, seen)
        elif isinstance(v, Ref):
            seen = seen if seen is not None else set()
            if v.addr in seen:
                return d
            seen.add(v.addr)
            c = self.cell(v, st)
            if c is not None:
                for a in list(c.attrs.values()) + list(c.items or ()) + \
                        ([c.elem] if c.elem is not None else []):
                    d |= self.deps_of(a, st, seen)
        return d

    def roots_of(self, v, st, seen=None):
        """external memory reachable from v"""
        if v is None:
            return E
        r = roots(v)
        if isinstance(v, Union):
            for a in v.alts:
                r |= self.roots_of(a, st, seen)
        elif isinstance(v, Tup):
            for a in v.items:
                r |= self.roots_of(a, st, seen)
        elif isinstance(v, Ref):
            seen = seen if seen is not None else set()
            if v.addr in seen:
                return r
            seen.add(v.addr)
            c = self.cell(v, st)
            if c is not None:
                r |= c.ext
                for a in list(c.attrs.values()) + list(c.items or ()) + \
                        ([c.elem] if c.elem is not None else []):
                    r |= self.roots_of(a, st, seen)
        return r

    # -- modules ----------------------------------------------------------------
    def module(self, name):
        """environment of a module of the package"""
        if name in self.modenv:
            return self.modenv[name]
        env = self.modenv[name] = {}
        path, tree = self.mods[name]
        old = self.frame
        fr = Frame(None, name, '<module>', None, None)
        self.frame = fr
        st = State(env, self.globals_state.heap)
        for s in tree.body:
            fr.line = s.lineno
            try:
                self.mod_stmt(s, st, name)
            except Diverge:
                pass
            st.env = env
            self.globals_state.heap = st.heap
        self.frame = old
        return env

    def mod_stmt(self, s, st, name):
        env = st.env
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            self.do_import(s, env, name)
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            self.define(s, st, name, '', None)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if isinstance(s, ast.AnnAssign) and s.value is None:
                return
            self.stmt(s, st)
        elif isinstance(s, ast.If):
            if 'TYPE_CHECKING' in ast.unparse(s.test):
                return
            for x in s.body:
                self.mod_stmt(x, st, name)
        elif isinstance(s, ast.Try):
            for h in s.handlers:
                for x in h.body:
                    if isinstance(x, (ast.Import, ast.ImportFrom, ast.Assign,
                                      ast.FunctionDef, ast.ClassDef)):
                        self.mod_stmt(x, st, name)
            for x in s.body:
                self.mod_stmt(x, st, name)
        elif isinstance(s, ast.With):
            for x in s.body:
                self.mod_stmt(x, st, name)

    def do_import(self, s, env, modname):
        if isinstance(s, ast.Import):
            for a in s.names:
                top = a.name.split('.')[0]
                if a.asname:
                    env[a.asname] = Mod(a.name) if a.name in self.mods else \
                        Ext(a.name)
                else:
                    env[top] = Mod(top) if top in self.mods else Ext(top)
            return
        base = s.module or ''
        if s.level:
            pkg = modname.split('.')
            is_pkg = self.mods[modname][0].endswith('__init__.py')
            cut = s.level - (1 if is_pkg else 0)
            pkg = pkg[:len(pkg) - cut] if cut else pkg
            base = '.'.join(pkg + ([s.module] if s.module else []))
        for a in s.names:
            full = f'{base}.{a.name}'
            nm = a.asname or a.name
            if full in self.mods:
                env[nm] = Mod(full)
            elif base in self.mods:
                env[nm] = ('lazy', base, a.name)
            else:
                env[nm] = Ext(full)

    def modget(self, modname, name):
        if modname == 'euphonic' and name == 'ureg':
            return Ext('ureg')
        if modname == 'euphonic' and name == 'Quantity':
            return Ext('ureg.Quantity')
        if modname == 'euphonic' and name == '__version__':
            return Top(E, 'str')
        env = self.module(modname)
        v = env.get(name)
        if isinstance(v, tuple) and v and v[0] == 'lazy':
            if v[1] == modname and v[2] == name:
                v = Ext(f'{modname}.{name}')
            else:
                v = self.modget(v[1], v[2])
            if v is None:
                v = Ext(f'{env[name][1]}.{name}')
            env[name] = v
        if v is None and f'{modname}.{name}' in self.mods:
            return Mod(f'{modname}.{name}')
        return v

    def define(self, s, st, mod, prefix, closure, cls=None):
        """function or class definition; returns the value"""
        if isinstance(s, ast.ClassDef):
            key = f'{mod}:{prefix}{s.name}'
            ci = ClsInfo(key, s, mod)
            self.classes[key] = ci
            st.env[s.name] = Cls(key)
            for b in s.bases:
                try:
                    v = self.ev(b, st)
                except Diverge:
                    v = Top()
                if isinstance(v, Cls):
                    ci.bases.append(v.name)
                elif isinstance(v, Ext):
                    ci.bases.append('ext:' + v.name)
                elif isinstance(v, Meth) or isinstance(v, Top):
                    ci.bases.append('ext:' + ast.unparse(b).split('[')[0])
            over = {}
            for x in s.body:
                if isinstance(x, ast.FunctionDef):
                    if any(iskind(d, 'overload') for d in x.decorator_list):
                        over.setdefault(x.name, []).append(x)
                        continue
                    f = self.mkfn(x, mod, f'{prefix}{s.name}.{x.name}', key,
                                  closure)
                    self.fninfo(f).over = over.get(x.name, [])
                    kind = ''
                    isprop = False
                    for d in x.decorator_list:
                        if iskind(d, 'property', 'cached_property'):
                            ci.props.setdefault(x.name, {})['get'] = f
                            isprop = True
                        elif isinstance(d, ast.Attribute) and \
                                d.attr == 'setter':
                            ci.props.setdefault(x.name, {})['set'] = f
                            isprop = True
                        elif iskind(d, 'classmethod'):
                            kind = 'class'
                        elif iskind(d, 'staticmethod'):
                            kind = 'static'
                    if not isprop:
                        ci.methods[x.name] = f
                        ci.kinds[x.name] = kind
                elif isinstance(x, ast.Assign):
                    try:
                        v = self.ev(x.value, st)
                    except Diverge:
                        v = Top()
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            ci.attrs[t.id] = v
                elif isinstance(x, ast.AnnAssign) and \
                        isinstance(x.target, ast.Name):
                    ci.ann[x.target.id] = x.annotation
                    if x.value is not None:
                        try:
                            ci.attrs[x.target.id] = self.ev(x.value, st)
                        except Diverge:
                            pass
            return Cls(key)
        if any(iskind(d, 'overload') for d in s.decorator_list):
            return None
        f = self.mkfn(s, mod, prefix + s.name, cls, closure)
        st.env[s.name] = f
        return f

    def mkfn(self, node, mod, qual, cls=None, closure=None):
        info = FnInfo(node, mod, qual, cls, closure)
        # the same definition evaluated again gets a new closure
        self.fns.append(info)
        return Fn(len(self.fns) - 1)

    def fninfo(self, f):
        return self.fns[f.key]

    # -- classes -----------------------------------------------------------------
    def mro(self, key):
        if key.startswith('ext:'):
            return [key]
        out = [key]
        lists = [self.mro(b) for b in self.classes[key].bases]
        for l in lists:
            for k in l:
                if k in out:
                    # keep last position for diamond
                    pass
                out.append(k)
        # linearise: keep the last occurrence
        res = []
        for i, k in enumerate(out):
            if k not in out[i + 1:]:
                res.append(k)
        return res

    def find(self, key, name, what='methods', after=None):
        """(class key, item) of the first class in the MRO having it"""
        m = self.mro(key)
        if after is not None and after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if k.startswith('ext:'):
                continue
            d = getattr(self.classes[k], what)
            if name in d:
                return k, d[name]
        return None

    def subclass(self, key, other):
        return other in self.mro(key)

    # -- functions ----------------------------------------------------------------
    def bind(self, info, args, kw, st, self_=None, star=None, node=None,
             kwstar=None):
        """env for the call: {param: V}; args list of V, kw dict of V"""
        a = info.node.args
        env = {}
        pos = list(a.posonlyargs) + list(a.args)
        vals = list(args)
        if self_ is not None:
            vals.insert(0, self_)
        kw = dict(kw)
        for p in pos:
            if vals:
                env[p.arg] = vals.pop(0)
            elif p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        if a.vararg:
            env[a.vararg.arg] = Tup(tuple(vals)) if star is None else \
                self.new_list(st, elem=star)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        # defaults
        old = self.frame
        dst = State(self.module(info.mod), st.heap)
        nd = len(a.defaults)
        given = set(env)
        for p, d in zip(pos[len(pos) - nd:], a.defaults):
            if p.arg not in env:
                env[p.arg] = star if star is not None and False else \
                    self.default(d, info, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.default(d, info, st)
        self.frame = old
        if kwstar is not None:
            # any parameter not given may come from the unknown mapping
            kd = self.deps_of(kwstar, st)
            for p in pos + list(a.kwonlyargs):
                if p.arg in env and p.arg not in given:
                    env[p.arg] = add_deps(env[p.arg], kd)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, kw, kwstar,
                                             kwstar is not None)
        for p in pos + list(a.kwonlyargs):
            if p.arg not in env:
                env[p.arg] = star if star is not None else kwstar \
                    if kwstar is not None else Top()
        return env, given

    def default(self, d, info, st):
        if isinstance(d, ast.Constant):
            return Const(d.value)
        fr = Frame(info, info.mod, info.qual, info.cls, self.frame)
        old = self.frame
        self.frame = fr
        try:
            s2 = State(dict(info.closure or {}), st.heap)
            v = self.ev(d, s2)
            st.heap = s2.heap
            return v
        except Diverge:
            return Top()
        finally:
            self.frame = old

    def call_fn(self, f, args, kw, st, self_=None, star=None, node=None,
                kwstar=None):
        """inline a function of the package; returns V, updates st.heap"""
        info = self.fninfo(f)
        depth = self.frame.depth if self.frame else 0
        busy = sum(1 for x in self.stack if x == id(info.node))
        h = self.hooks.get('call')
        env, given = self.bind(info, args, kw, st, self_, star, node, kwstar)
        if h:
            h(self, info, env, given, st, node)
        m = self.models.PACKAGE.get(f'{info.mod}:{info.qual}')
        if m is not None:
            r = m(self, env, st, node)
            if r is not None:
                return r
        if depth > MAXDEPTH or busy >= 2 or self.over_budget():
            d = E
            for v in env.values():
                d |= self.deps_of(v, st)
            self.gap('depth:' + info.qual)
            return Top(d)
        self.visited.add((info.mod, info.qual))
        fr = Frame(info, info.mod, info.qual, info.cls, self.frame)
        fr.params = set(info.param_names())
        fr.node = info.node
        old = self.frame
        self.frame = fr
        self.stack.append(id(info.node))
        try:
            full = dict(info.closure or {})
            full.update(env)
            s0 = State(full, dict(st.heap), None, st.pc, st.ipc)
            if isinstance(info.node, ast.Lambda):
                fr.line = info.node.lineno
                v = self.ev(info.node.body, s0)
                st.heap = s0.heap
                return v
            gen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                      for x in walk_own(info.node))
            if gen:
                s0.yields = []
            outs = self.block(info.node.body, [s0])
            rets, raises = [], []
            for kind, s, v in outs:
                if kind == 'return':
                    rets.append((s, v))
                elif kind == 'next':
                    rets.append((s, NONE))
                elif kind == 'raise':
                    raises.append((s, v))
            hr = self.hooks.get('return')
            if hr:
                hr(self, info, rets, env)
            if not rets:
                self.diverged = (info.qual, [e for _, e in raises],
                                 getattr(self, 'last_raise', ''))
                if not getattr(self, 'first_div', None):
                    self.first_div = self.diverged
                raise Diverge(raises or [(st.copy(), 'Exception')])
            if gen:
                ys = []
                for s, _ in rets:
                    ys += s.yields
                js = rets[0][0]
                for s, _ in rets[1:]:
                    js = join(js, s)
                st.heap = js.heap
                lst = self.new_list(st, elem=union(ys) if ys else Top())
                return lst
            vals = [v for _, v in rets]
            js = rets[0][0]
            for s, _ in rets[1:]:
                js = js if js.same(s) else join(js, s)
            st.heap = js.heap
            if self.misses and any(ASKED <= s.pc for s, _ in rets):
                st.pc |= ASKED
            return self.join_values(vals, st)
        finally:
            self.frame = old
            self.stack.pop()

    def join_values(self, vals, st, cap=8, depth=0):
        """union of values; many objects of one class become one summary"""
        flat = []
        for v in vals:
            for a in alts(v):
                if a not in flat:
                    flat.append(a)
        if len(flat) <= cap or depth > 3:
            return union(flat) if flat else Top()
        groups, rest = {}, []
        for a in flat:
            c = self.cell(a, st)
            if c is not None and c.kind == 'obj' and c.cls:
                groups.setdefault(c.cls, []).append((a, c))
            elif c is not None and c.kind == 'dict':
                groups.setdefault(frozenset(c.attrs), []).append((a, c))
            elif c is not None and c.kind == 'list':
                groups.setdefault('list', []).append((a, c))
            else:
                rest.append(a)
        for cls, xs in groups.items():
            if len(xs) == 1:
                rest.append(xs[0][0])
                continue
            at = {}
            for k in {k: 1 for _, c in xs for k in c.attrs}:
                at[k] = self.join_values(
                    [c.attrs[k] for _, c in xs if k in c.attrs], st, cap,
                    depth + 1)
            ext = E
            d = E
            for a, c in xs:
                ext |= c.ext
                d |= a.deps
            els = [c.elem for _, c in xs if c.elem is not None]
            els += [x for _, c in xs for x in c.items or ()]
            r = self.alloc(st, xs[0][1].with_(
                attrs=at, ext=ext, open=any(c.open for _, c in xs),
                items=None,
                elem=self.join_values(els, st, cap, depth + 1)
                if els else None))
            rest.append(add_deps(r, d))
        v = union(rest)
        if isinstance(v, Top) and not all(isinstance(a, Top) for a in rest):
            d = E
            for a in rest:
                d |= self.deps_of(a, st)
            v = add_deps(v, d)
        return v

    def over_budget(self):
        self.n_ops += 1
        return self.budget is not None and self.n_ops > self.budget

    def instantiate(self, key, args, kw, st, star=None, node=None,
                    kwstar=None):
        ci = self.classes[key]
        m = self.models.CLASSES.get(ci.name)
        ext = [k for k in self.mro(key) if k.startswith('ext:')]
        ref = self.alloc(st, Cell('obj', cls=key, site=getattr(
            node, 'lineno', None)))
        h = self.hooks.get('construct')
        init = self.find(key, '__init__')
        if init is not None:
            if h:
                info = self.fninfo(init[1])
                env, given = self.bind(info, args, kw, st, ref, star, node,
                                       kwstar)
                h(self, key, info, env, given, st, node)
            self.call_fn(init[1], args, kw, st, ref, star, node, kwstar)
            return ref
        # NamedTuple / dataclass / TypedDict / Exception
        names = []
        for k in reversed(self.mro(key)):
            if not k.startswith('ext:'):
                names += [n for n in self.classes[k].ann if n not in names]
        attrs = {}
        for n in names:
            d = self.find(key, n, 'attrs')
            if d:
                attrs[n] = d[1]
        for n, v in zip(names, args):
            attrs[n] = v
        attrs.update(kw)
        c = st.heap[ref.addr]
        st.heap[ref.addr] = c.with_(attrs=attrs)
        return ref

    # -- statements --------------------------------------------------------------
    def block(self, stmts, states):
        done = []
        for s in stmts:
            nxt = []
            for st in states:
                for o in self.stmt(s, st):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            states = merge_states(nxt)
            if not states:
                break
        return done + [('next', s, None) for s in states]

    def stmt(self, s, st):
        if self.frame:
            self.frame.line = s.lineno
        h = self.hooks.get('stmt')
        if h:
            h(self, s, st)
        m = getattr(self, 's_' + type(s).__name__, None)
        try:
            if m is None:
                self.gap('stmt:' + type(s).__name__)
                return [('next', st, None)]
            return m(s, st)
        except Diverge as d:
            return [('raise', x, e) for x, e in d.excs]

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return [('next', st, None)]

    def s_Pass(self, s, st):
        return [('next', st, None)]

    def s_Global(self, s, st):
        return [('next', st, None)]
    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        self.do_import(s, st.env, self.frame.mod)
        h = self.hooks.get('import')
        if h:
            h(self, s, st)
        return [('next', st, None)]
    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        clo = st.env
        f = self.mkfn(s, self.frame.mod, f'{self.frame.qual}.{s.name}',
                      self.frame.cls, clo)
        # late binding: closure is the defining environment itself
        st.env[s.name] = f
        self.fns[f.key].closure = dict(st.env)
        return [('next', st, None)]

    def s_ClassDef(self, s, st):
        self.define(s, st, self.frame.mod, self.frame.qual + '.',
                    dict(st.env))
        return [('next', st, None)]

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        if st.ipc:
            v = add_deps(v, st.ipc)
        return [('return', st, v)]

    def s_Raise(self, s, st):
        name = 'Exception'
        if s.exc is not None:
            v = self.ev(s.exc, st)
            self.raise_deps |= self.deps_of(v, st)
            t = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = ast.unparse(t).split('.')[-1]
        self.last_raise = self.stackstr() + ' ' + name
        return [('raise', st, name)]

    def s_Break(self, s, st):
        return [('break', st, None)]

    def s_Continue(self, s, st):
        return [('continue', st, None)]

    def s_Assert(self, s, st):
        out = []
        old, self.cdeps = self.cdeps, E
        for x, b in self.cond(s.test, st):
            out.append(('next' if b else 'raise', x,
                        None if b else 'AssertionError'))
        self.raise_deps |= self.cdeps
        self.cdeps = old
        self.models.assume_units(self, s.test, True)
        return out

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.models.delitem(self, o, k, st, t)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                for a in alts(o):
                    c = self.cell(a, st)
                    if c is not None and t.attr in c.attrs:
                        at = dict(c.attrs)
                        del at[t.attr]
                        self.setcell(a, st, c.with_(attrs=at))
        return [('next', st, None)]

    def s_Assign(self, s, st):
        # evaluate; if the value is a conditional expression keep paths apart
        if isinstance(s.value, ast.IfExp) or isinstance(s.value, ast.Call) \
                and False:
            outs = []
            old, self.cdeps = self.cdeps, E
            conds = self.cond(s.value.test, st)
            pcd, self.cdeps = self.cdeps, old
            for x, b in conds:
                try:
                    v = self.ev(s.value.body if b else s.value.orelse, x)
                    if self.implicit:
                        v = add_deps(v, pcd)
                    for t in s.targets:
                        self.assign(t, v, x, s.value)
                    outs.append(('next', x, None))
                except Diverge as d:
                    outs += [('raise', y, e) for y, e in d.excs]
            return outs
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s.value)
        return [('next', st, None)]

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s.value)
        return [('next', st, None)]

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        a = self.ev(load, st)
        b = self.ev(s.value, st)
        r = self.models.augassign(self, s, a, b, st)
        self.assign(s.target, r, st, s.value, aug=True)
        return [('next', st, None)]

    def s_If(self, s, st):
        outs = []
        dead = {}
        h = self.hooks.get('if')
        old, self.cdeps = self.cdeps, E
        conds = self.cond(s.test, st)
        pcd, self.cdeps = self.cdeps, old
        sides = {True: [], False: []}
        for x, b in conds:
            if h:
                h(self, s, x, b)
            body = s.body if b else s.orelse
            o = self.block(body, [x])
            ends = {k for k, _, _ in o}
            dead[b] = dead.get(b, True) and ends <= {'raise'}
            sides[b] += o
        if self.implicit and pcd:
            if not any(dead.get(b, True) for b in sides):
                sides = self.flow_condition(sides, pcd)
            else:
                self.raise_deps |= pcd
        outs = sides[True] + sides[False]
        for b, x in dead.items():
            if x:
                self.models.assume_units(self, s.test, not b)
        return outs

    def flow_condition(self, sides, pcd):
        """both outcomes of a condition continue: what differs between them
        depends on the condition"""
        st = {b: [s for k, s, _ in o if k in ('next', 'continue', 'break')]
              for b, o in sides.items()}
        names = set()
        for s in st[True] + st[False]:
            names |= set(s.env)
        leave = any(k in ('return', 'continue', 'break')
                    for o in sides.values() for k, _, _ in o)
        for n in names:
            vs = [vset([s.env.get(n) for s in st[b]
                        if not isinstance(s.env.get(n), tuple)])
                  for b in st]
            if vs[0] != vs[1]:
                for s in st[True] + st[False]:
                    v = s.env.get(n)
                    if v is not None and not isinstance(v, tuple):
                        s.env[n] = add_deps(v, pcd)
        ys = [{repr(s.yields) for s in st[b]} for b in st]
        if ys[0] != ys[1]:
            for s in st[True] + st[False]:
                s.yields = s.yields and [add_deps(v, pcd) for v in s.yields]
        addrs = set()
        for s in st[True] + st[False]:
            addrs |= set(s.heap)
        for a in addrs:
            cs = [[s.heap.get(a) for s in st[b]] for b in st]
            c0 = next((c for x in cs for c in x if c is not None), None)
            if all(c is None or c is c0 or c.same(c0) for x in cs
                   for c in x):
                continue
            for s in st[True] + st[False]:
                c = s.heap.get(a)
                if c is None:
                    continue
                at = {}
                for k, v in c.attrs.items():
                    vs = [vset([c2.attrs.get(k) for c2 in x
                                if c2 is not None]) for x in cs]
                    at[k] = add_deps(v, pcd) if vs[0] != vs[1] and \
                        hasattr(v, 'deps') else v
                it = c.items
                if it is not None:
                    vs = [vset([c2.items for c2 in x if c2 is not None])
                          for x in cs]
                    if vs[0] != vs[1]:
                        it = tuple(add_deps(v, pcd) for v in it)
                el = c.elem
                if el is not None:
                    vs = [vset([c2.elem for c2 in x if c2 is not None])
                          for x in cs]
                    if vs[0] != vs[1]:
                        el = add_deps(el, pcd)
                s.heap[a] = c.with_(attrs=at, items=it, elem=el)
        out = {}
        for b, o in sides.items():
            out[b] = [(k, s, add_deps(v, pcd) if k == 'return' else v)
                      for k, s, v in o]
            if leave:
                for _, s, _ in o:
                    s.ipc = s.ipc | pcd
        return out

    def s_While(self, s, st):
        outs = []
        exits = []
        cur = [st]
        entry = st.copy()
        old, self.cdeps = self.cdeps, E
        for it in range(2):
            nxt = []
            for x in cur:
                for y, b in self.cond(s.test, x):
                    if not b:
                        exits.append(y)
                        continue
                    for o in self.block(s.body, [y]):
                        if o[0] in ('next', 'continue'):
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            exits.append(o[1])
                        else:
                            outs.append(o)
            if not nxt:
                cur = []
                break
            j = nxt[0]
            for y in nxt[1:]:
                j = join(j, y)
            cur = [join(entry, j)]
        for x in cur:
            for y, b in self.cond(s.test, x):
                if not b:
                    exits.append(y)
        if not exits and cur:
            exits = cur
        if exits:
            exits = merge_states(exits, 4)
        d, self.cdeps = self.cdeps, old
        if self.implicit and d:
            for x in exits:
                for n in assigned(s.body) & set(x.env):
                    v = x.env[n]
                    if hasattr(v, 'deps') and v != entry.env.get(n):
                        x.env[n] = add_deps(v, d)
        return outs + [('next', x, None) for x in exits]

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        seq, elem, maybe_empty = self.models.iterate(self, it, st, s.iter)
        if self.sources and self.unordered(it, st):
            seq = seq and [add_deps(x, ORDER) for x in seq]
            elem = elem and add_deps(elem, ORDER)
        if self.implicit and not (seq is not None and len(seq) <= 24):
            pre = st.copy()
            # what the body changes depends on how often it runs
            outs = self.for_loop(s, st, seq, elem, maybe_empty)
            d = self.deps_of(it, pre)
            if d:
                names = assigned(s.body)
                for k, x, _ in outs:
                    if k == 'next':
                        for n in names & set(x.env):
                            v = x.env[n]
                            if hasattr(v, 'deps') and v != pre.env.get(n):
                                x.env[n] = add_deps(v, d)
            return outs
        return self.for_loop(s, st, seq, elem, maybe_empty)

    def for_loop(self, s, st, seq, elem, maybe_empty):
        outs, breaks = [], []
        if seq is not None and len(seq) <= 24:
            states = [st]
            for v in seq:
                nxt = []
                for x in states:
                    self.assign(s.target, v, x, None)
                    for o in self.block(s.body, [x]):
                        if o[0] in ('next', 'continue'):
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            breaks.append(o[1])
                        else:
                            outs.append(o)
                states = merge_states(nxt, 8)
            fin = states
        else:
            if seq is not None:
                elem = union(seq)
            entry = st.copy()
            cur = [st]
            for k in range(2):
                nxt = []
                for x in cur:
                    e = elem
                    self.assign(s.target, e if e is not None else Top(), x,
                                None)
                    for o in self.block(s.body, [x]):
                        if o[0] in ('next', 'continue'):
                            nxt.append(o[1])
                        elif o[0] == 'break':
                            breaks.append(o[1])
                        else:
                            outs.append(o)
                if not nxt:
                    break
                j = nxt[0]
                for y in nxt[1:]:
                    j = join(j, y)
                if k == 0:
                    cur = [join(entry.copy(), j)]
                else:
                    cur = [j]
            fin = []
            if nxt:
                fin = [join(entry, cur[0])] if maybe_empty else cur
            elif maybe_empty:
                fin = [entry]
        if s.orelse:
            r = []
            for x in fin:
                for o in self.block(s.orelse, [x]):
                    if o[0] == 'next':
                        r.append(o[1])
                    else:
                        outs.append(o)
            fin = r
        fin = merge_states(fin + breaks, 6)
        return outs + [('next', x, None) for x in fin]

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            h = self.hooks.get('with')
            if h:
                h(self, it, v, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars,
                            self.models.enter(self, v, st), st, None)
        outs = self.block(s.body, [st])
        sup = any('suppress' in ast.unparse(i.context_expr) for i in s.items)
        if sup:
            outs = [('next', o[1], None) if o[0] == 'raise' else o
                    for o in outs]
        return outs

    def s_Try(self, s, st):
        start = st.copy()
        h = self.hooks.get('try')
        if h:
            h(self, s, st)
        outs = self.block(s.body, [st])
        res, nexts = [], []
        for o in outs:
            if o[0] == 'next' and s.orelse:
                res += self.block(s.orelse, [o[1]])
            elif o[0] == 'raise' and s.handlers and any(
                    catches(h, o[2]) for h in s.handlers):
                continue        # modelled by the handler path below
            else:
                res.append(o)
        # a handler may be entered from any point of the body
        mids = [start] + [o[1] for o in outs]
        for hd in s.handlers:
            j = mids[0].copy()
            for m in mids[1:]:
                j = join(j, m)
            if hd.name:
                j.env[hd.name] = Top(E, 'exc')
            res += self.block(hd.body, [j])
        if s.finalbody:
            fin = []
            for kind, x, v in res:
                for o in self.block(s.finalbody, [x]):
                    fin.append((kind, o[1], v) if o[0] == 'next' else o)
            res = fin
        return res

    def s_Match(self, s, st):
        """a match statement, as the chain of ifs it stands for"""
        if not hasattr(s, 'as_ifs'):
            s.as_ifs = match_as_ifs(s)
        return self.block(s.as_ifs, [st])

    # -- assignment ---------------------------------------------------------------
    def assign(self, t, v, st, src=None, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts)
                         if isinstance(e, ast.Starred)), None)
            vals = self.models.unpack(self, v, n, st, star)
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                self.assign(e, x, st, None)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            for a in alts(o):
                self.setattr_(a, t.attr, v, st, t)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev_slice(t.slice, st)
            if not aug:
                self.models.setitem(self, o, k, v, st, t)
            else:
                self.models.setitem(self, o, k, v, st, t, aug=True)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st, src)

    def setattr_(self, o, name, v, st, node=None, raw=False, base=False):
        c = self.cell(o, st)
        if c is None or c.kind != 'obj':
            h = self.hooks.get('setattr_ext')
            if h:
                h(self, o, name, v, st, node)
            return
        if self.strict and not raw and not base:
            m = self.find(c.cls, '__setattr__')
            if m is not None:
                self.call_fn(m[1], [Const(name), v], {}, st, o, None, node)
                return
        if not raw:
            p = self.find(c.cls, name, 'props')
            if p is not None and 'set' in p[1]:
                self.call_fn(p[1]['set'], [v], {}, st, o, None, node)
                return
        h = self.hooks.get('setattr')
        if h:
            h(self, o, c, name, v, st, node)
        if c.ext:
            self.write(c.ext, st, node, f'attribute {name}', attr=name,
                       value=v, cls=c.cls)
        c = self.cell(o, st)
        at = dict(c.attrs)
        at[name] = v
        self.setcell(o, st, c.with_(attrs=at))

    def write(self, rts, st, node, what, **k):
        h = self.hooks.get('write')
        if h:
            h(self, rts, st, node, what, **k)

    # -- attribute access ----------------------------------------------------------
    def getattr_(self, o, name, st, node=None):
        if isinstance(o, Union):
            out = []
            for a in o.alts:
                if isinstance(a, Const) and a.v is None:
                    continue
                out.append(self.getattr_(a, name, st, node))
            return union(out) if out else Top(o.deps)
        if isinstance(o, Mod):
            v = self.modget(o.name, name)
            return v if v is not None else Ext(f'{o.name}.{name}')
        if isinstance(o, Ref):
            c = self.cell(o, st)
            if c is not None and c.kind == 'obj':
                if name in c.attrs:
                    return add_deps(c.attrs[name], o.deps)
                if c.cls is not None:
                    p = self.find(c.cls, name, 'props')
                    if p is not None and 'get' in p[1]:
                        return self.call_fn(p[1]['get'], [], {}, st, o, None,
                                            node)
                    m = self.find(c.cls, name, 'methods')
                    if m is not None:
                        k = self.classes[m[0]].kinds.get(name, '')
                        if k == 'static':
                            return m[1]
                        return Bound(m[1], o if k == '' else Cls(c.cls))
                    m = self.find(c.cls, name, 'attrs')
                    if m is not None:
                        return m[1]
                    if name == '__class__':
                        return Cls(c.cls)
                    if name == '__dict__':
                        return self.new_dict(st, c.attrs)
                    if any(k.startswith('ext:') for k in self.mro(c.cls)):
                        return Meth(o, name, node)
                return Top(o.deps | self.deps_of(o, st))
            return Meth(o, name, node)
        if isinstance(o, Cls):
            m = self.find(o.name, name, 'methods')
            if m is not None:
                k = self.classes[m[0]].kinds.get(name, '')
                return Bound(m[1], o) if k == 'class' else m[1]
            m = self.find(o.name, name, 'attrs')
            if m is not None:
                return m[1]
            if name == '__name__':
                return Const(o.name.split(':')[-1].split('.')[-1])
            return Top()
        if isinstance(o, Super):
            m = self.find(o.cls if False else self.clsof(o.self_, st) or o.cls,
                          name, 'methods', after=o.cls)
            if m is not None:
                k = self.classes[m[0]].kinds.get(name, '')
                if k == 'static':
                    return m[1]
                return Bound(m[1], o.self_ if k == '' else
                             (o.self_ if isinstance(o.self_, Cls) else
                              Cls(self.clsof(o.self_, st))))
            p = self.find(self.clsof(o.self_, st) or o.cls, name, 'props',
                          after=o.cls)
            if p is not None and 'get' in p[1]:
                return self.call_fn(p[1]['get'], [], {}, st, o.self_, None,
                                    node)
            return Meth(o, name, node)
        if isinstance(o, Ext):
            return self.models.ext_attr(self, o, name, st)
        return self.models.attr(self, o, name, st, node)

    def clsof(self, v, st):
        if isinstance(v, Cls):
            return v.name
        c = self.cell(v, st)
        return c.cls if c is not None else None

    # -- expressions ---------------------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.gap('expr:' + type(e).__name__)
            return Top()
        if self.frame is not None and hasattr(e, 'lineno'):
            self.frame.line = e.lineno
        return m(e, st)

    def e_Constant(self, e, st):
        return Const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, tuple) and v and v[0] == 'lazy':
                v = self.modget(v[1], v[2]) or Ext(f'{v[1]}.{v[2]}')
            return self.hosted(v) if self.sources else v
        fn = self.frame.fn if self.frame is not None else None
        if fn is not None and e.id in fn.locals():
            raise Diverge([(st.copy(), 'UnboundLocalError')])
        if self.frame is not None:
            v = self.modget(self.frame.mod, e.id)
            if v is not None:
                return self.hosted(v) if self.sources else v
        return Ext('builtins.' + e.id)

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        v = self.getattr_(o, e.attr, st, e)
        return self.hosted(v) if self.sources else v

    def hosted(self, v):
        if isinstance(v, Ext) and v.name in ('os.environ', 'sys.platform',
                                             'sys.argv', 'os.name'):
            return add_deps(v, frozenset({'?host'}))
        return v

    def e_Tuple(self, e, st):
        items, known = [], True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                seq, el, _ = self.models.iterate(
                    self, self.ev(x.value, st), st, x)
                if seq is None:
                    known = False
                    items += [el] if el is not None else []
                else:
                    items += seq
            else:
                items.append(self.ev(x, st))
        if not known:
            return self.new_list(st, elem=self.join_values(items, st)
                                 if items else None)
        return Tup(tuple(items))

    def e_List(self, e, st):
        t = self.e_Tuple(e, st)
        if isinstance(t, Ref):
            return t
        return self.new_list(st, items=t.items)

    def e_Set(self, e, st):
        return self.e_List(e, st)

    def e_Dict(self, e, st):
        keys, el, opn = {}, None, False
        for k, v in zip(e.keys, e.values):
            val = self.ev(v, st)
            if k is None:
                for a in alts(val):
                    c = self.cell(a, st)
                    if c is not None and c.kind == 'dict':
                        keys.update(c.attrs)
                        opn = opn or c.open
                        if c.elem is not None:
                            el = union([el, c.elem]) if el else c.elem
                    else:
                        opn = True
                continue
            kv = self.ev(k, st)
            if isinstance(kv, Const):
                keys[kv.v] = val
            else:
                el = union([el, val]) if el is not None else val
                opn = True
        return self.new_dict(st, keys, el, opn)

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_JoinedStr(self, e, st):
        parts = []
        deps = E
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(str(x.value))
            else:
                v = self.ev(x.value, st)
                deps |= self.deps_of(v, st)
                parts.append(v)
        return self.models.joinstr(self, parts, deps, st)

    def e_FormattedValue(self, e, st):
        return self.models.joinstr(self, [self.ev(e.value, st)], E, st)

    def e_Lambda(self, e, st):
        f = self.mkfn(e, self.frame.mod, self.frame.qual + '.<lambda>',
                      self.frame.cls, dict(st.env))
        return f

    def e_IfExp(self, e, st):
        vals, sts = [], []
        exc = []
        old, self.cdeps = self.cdeps, E
        conds = self.cond(e.test, st)
        pcd, self.cdeps = self.cdeps, old
        for x, b in conds:
            try:
                vals.append(self.ev(e.body if b else e.orelse, x))
                sts.append(x)
            except Diverge as d:
                exc += d.excs
        if not sts:
            raise Diverge(exc)
        j = sts[0]
        for x in sts[1:]:
            j = j if j.same(x) else join(j, x)
        st.become(j)
        r = union(vals)
        return add_deps(r, pcd) if self.implicit and len(sts) > 1 or \
            self.implicit and len(conds) == 1 else r

    def e_BoolOp(self, e, st):
        vals = []
        cur = st
        isand = isinstance(e.op, ast.And)
        exits = []
        pcd = E
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            if last:
                vals.append(self.ev(x, cur))
                exits.append(cur)
                break
            nxt = None
            c2 = cur.copy()
            v = self.ev(x, c2)
            if self.implicit:
                pcd |= self.deps_of(v, c2)
            for y, b in self.cond(x, cur):
                if b == isand:
                    nxt = y if nxt is None else join(nxt, y)
                else:
                    vals.append(self.models.filter_truth(self, v, b, y))
                    exits.append(y)
            if nxt is None:
                break
            cur = nxt
        j = exits[0]
        for x in exits[1:]:
            j = j if j.same(x) else join(j, x)
        st.become(j)
        return add_deps(union(vals), pcd)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.models.binop(self, e.op, a, b, st, e)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        return self.models.unop(self, e.op, v, st, e)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            res.append(self.models.compare(self, op, left, right, st, e))
            left = right
        if len(res) == 1:
            return res[0]
        if any(isinstance(r, Const) and r.v is False for r in res):
            return FALSE
        d = E
        for r in res:
            d |= r.deps
        return Top(d, 'bool')

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        k = self.ev_slice(e.slice, st)
        return self.models.getitem(self, o, k, st, e)

    def ev_slice(self, s, st):
        if isinstance(s, ast.Slice):
            d = E
            parts = []
            for x in (s.lower, s.upper, s.step):
                v = self.ev(x, st) if x is not None else None
                d |= self.deps_of(v, st) if v is not None else E
                if v is None or isinstance(v, Const) and v.v is None:
                    parts.append('')
                elif isinstance(v, Const) and type(v.v) is int:
                    parts.append(str(v.v))
                else:
                    parts.append(ast.unparse(x))
            if parts[2] in ('', '1'):
                parts.pop()
            return Const(('slice', ':'.join(parts)), d)
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice)
                                            for x in s.elts):
            return Tup(tuple(self.ev_slice(x, st) for x in s.elts))
        return self.ev(s, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        if st.yields is not None and v not in st.yields:
            st.yields.append(v)
        return Top()

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        seq, el, _ = self.models.iterate(self, v, st, e)
        for x in (seq if seq is not None else [el] if el is not None else []):
            if st.yields is not None and x not in st.yields:
                st.yields.append(x)
        return Top()

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def comp(self, e, st, elt):
        """values of a comprehension: (exact list or None, summary)"""
        saved = dict(st.env)
        seqs = []

        def go(gens, st):
            if not gens:
                return [elt(st)], True
            g = gens[0]
            it = self.ev(g.iter, st)
            seq, el, _ = self.models.iterate(self, it, st, g.iter)
            exact = seq is not None and len(seq) <= 24
            out = []
            vs = seq if exact else [union(seq) if seq else el]
            if not exact and isinstance(vs[0], Union) and all(
                    isinstance(x, Tup) for x in vs[0].alts):
                vs = vs[0].alts
            for v in vs:
                if v is None:
                    if seq is None:
                        v = Top()
                    else:
                        continue
                self.assign(g.target, v, st, None)
                live = [(st, True)]
                ok = True
                keep = st
                some = False
                old, self.cdeps = self.cdeps, E
                for c in g.ifs:
                    rs = self.cond(c, keep)
                    ts = [x for x, b in rs if b]
                    if not ts:
                        ok = False
                        break
                    if len(rs) > len(ts):
                        exact = False
                        some = True
                    j = ts[0]
                    for x in ts[1:]:
                        j = join(j, x)
                    keep = j
                fd, self.cdeps = self.cdeps, old
                if not ok:
                    continue
                r, ex = go(gens[1:], keep)
                if some and self.track and seq is None:
                    # some of the elements only
                    r = [Tup((y.items[0], unsame(y.items[1])))
                         if isinstance(e, ast.DictComp) else unsame(y)
                         for y in r]
                if self.implicit and fd:
                    r = [add_deps(y, fd) for y in r]
                if keep is not st:
                    st.heap = keep.heap
                out += r
                exact = exact and ex
            return out, exact
        vals, exact = go(e.generators, st)
        env = dict(saved)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr) and n.target.id in st.env:
                env[n.target.id] = st.env[n.target.id]
        st.env = env
        return vals, exact

    def unordered(self, v, st):
        """a set whose iteration order changes from one process to the
        next"""
        for a in alts(v):
            c = self.cell(a, st)
            if c is not None and c.kind == 'set':
                for x in list(c.items or ()) + [c.elem]:
                    for y in alts(x) if x is not None else ():
                        if isinstance(y, Qty) or isinstance(y, Num) and \
                                y.dtype in INTS + FLOATS + ("complex128",):
                            continue
                        if not (
                                isinstance(y, Const) and
                                isinstance(y.v, (int, float))):
                            return True
        return False

    def e_ListComp(self, e, st):
        vals, exact = self.comp(e, st, lambda s: self.ev(e.elt, s))
        if self.sources and vals:
            tmp = st.copy()
            if self.unordered(self.ev(e.generators[0].iter, tmp), tmp):
                vals = [add_deps(x, ORDER) for x in vals]
        if exact:
            return self.new_list(st, items=vals)
        return self.new_list(st, elem=union(vals) if vals else None)
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        r = self.e_ListComp(e, st)
        if self.sources:
            c = self.cell(r, st)
            self.setcell(r, st, orderless(c.with_(kind='set')))
        return r

    def e_DictComp(self, e, st):
        def elt(s):
            return Tup((self.ev(e.key, s), self.ev(e.value, s)))
        vals, exact = self.comp(e, st, elt)
        keys, el = {}, None
        uo = E
        if self.sources and vals:
            tmp = st.copy()
            if self.unordered(self.ev(e.generators[0].iter, tmp), tmp):
                uo = ORDER
        for t in vals:
            k, v = t.items
            v = add_deps(v, t.deps | uo)
            if isinstance(k, Const):
                keys[k.v] = union([keys[k.v], v]) if k.v in keys else v
            else:
                el = union([el, v]) if el is not None else v
        return self.new_dict(st, keys, el, not exact or el is not None)

    def e_Slice(self, e, st):
        return self.ev_slice(e, st)

    # -- calls ---------------------------------------------------------------------
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args, star, kw, kwstar = [], None, {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                seq, el, _ = self.models.iterate(self, v, st, a)
                if seq is not None:
                    args += seq
                else:
                    star = el if el is not None else Top()
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                for al in alts(v):
                    c = self.cell(al, st)
                    if c is not None and c.kind == 'dict':
                        for n, x in c.attrs.items():
                            kw.setdefault(n, add_deps(x, al.deps))
                        if c.open:
                            kwstar = add_deps(c.elem, al.deps) \
                                if c.elem is not None else Top(al.deps)
                    elif c is None:
                        kwstar = Top(v.deps)
            else:
                kw[k.arg] = v
        self.frame.line = e.lineno
        return self.call(f, args, kw, st, e, star, kwstar)

    def call(self, f, args, kw, st, node=None, star=None, kwstar=None):
        if isinstance(f, Union):
            outs, sts, exc = [], [], []
            for a in f.alts:
                x = st.copy()
                try:
                    outs.append(self.call(a, args, kw, x, node, star, kwstar))
                    sts.append(x)
                except Diverge as d:
                    exc += d.excs
            if not sts:
                raise Diverge(exc)
            j = sts[0]
            for x in sts[1:]:
                j = j if j.same(x) else join(j, x)
            st.become(j)
            return union(outs)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, None, star, node, kwstar)
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, args, kw, st, f.self_, star, node,
                                    kwstar)
        if isinstance(f, Cls):
            return self.instantiate(f.name, args, kw, st, star, node, kwstar)
        if isinstance(f, Part):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, st, node,
                             star, kwstar)
        if isinstance(f, Ref):
            c = self.cell(f, st)
            if c is not None and c.kind == 'obj' and c.cls:
                m = self.find(c.cls, '__call__')
                if m:
                    return self.call_fn(m[1], args, kw, st, f, star, node,
                                        kwstar)
        return self.models.call_ext(self, f, args, kw, st, node, star, kwstar)

    # -- conditions ----------------------------------------------------------------
    def cond(self, e, st):
        """[(state, truth)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            live = [st]
            for x in e.values:
                nxt = []
                for s in live:
                    for y, b in self.cond(x, s):
                        if b == isand:
                            nxt.append(y)
                        else:
                            out.append((y, b))
                live = merge_states(nxt, 6)
                if not live:
                    break
            out += [(s, isand) for s in live]
            return self.merge_conds(out)
        v = self.ev(e, st)
        t = self.models.truth(self, v, st)
        pcd = self.deps_of(v, st) if not isinstance(v, Const) else v.deps
        self.cdeps |= pcd
        if t is not None:
            st = self.refine(e, st, t)
            if self.misses and st is not None and ASKED <= pcd and \
                    asks(e):
                st.pc |= ASKED
            return [(st, t)] if st is not None else []
        out = []
        for b in (True, False):
            x = self.refine(e, st.copy(), b)
            if x is not None:
                x.pc = x.pc | pcd
                out.append((x, b))
        return out or [(st, True), (st.copy(), False)]

    def merge_conds(self, out):
        res = []
        for b in (True, False):
            res += [(s, b) for s in
                    merge_states([s for s, x in out if x == b], 8)]
        return res

    def refine(self, e, st, truth):
        """state restricted to e being truth; None if impossible"""
        r = self.models.refinement(self, e, st, truth)
        if r is None:
            return st
        target, keep = r
        v = self.lookup_target(target, st)
        if v is None:
            return st
        kept = [a for a in alts(v) if keep(a) is not False]
        if not kept:
            return None
        kept = [keep(a) if keep(a) is not True else a for a in kept]
        nv = union(kept) if len(kept) > 1 else kept[0]
        if nv != v:
            self.store_target(target, nv, st)
        return st

    def lookup_target(self, t, st):
        if isinstance(t, ast.Name):
            v = st.env.get(t.id)
            return None if isinstance(v, tuple) else v
        if isinstance(t, ast.Attribute):
            o = self.lookup_target(t.value, st)
            if isinstance(o, Ref):
                c = self.cell(o, st)
                if c is not None and c.kind == 'obj':
                    return c.attrs.get(t.attr)
        if isinstance(t, ast.Subscript) and \
                isinstance(t.slice, ast.Constant):
            o = self.lookup_target(t.value, st)
            if isinstance(o, Ref):
                c = self.cell(o, st)
                if c is not None and c.kind == 'dict':
                    return c.attrs.get(t.slice.value)
        return None

    def store_target(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            o = self.lookup_target(t.value, st)
            c = self.cell(o, st)
            at = dict(c.attrs)
            at[t.attr if isinstance(t, ast.Attribute) else
               t.slice.value] = v
            self.setcell(o, st, c.with_(attrs=at))


def catches(h, name):
    if h.type is None:
        return True
    names = [ast.unparse(x).split('.')[-1] for x in (
        h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
    if 'Exception' in names or 'BaseException' in names:
        return True
    if name in names:
        return True
    par = {'ModuleNotFoundError': 'ImportError', 'KeyError': 'LookupError',
           'IndexError': 'LookupError', 'FileNotFoundError': 'OSError',
           'ImportPhonopyReaderError': 'ModuleNotFoundError',
           'ImportCError': 'ModuleNotFoundError',
           'DimensionalityError': 'PintTypeError',
           'UndefinedUnitError': 'AttributeError'}
    while name in par:
        name = par[name]
        if name in names:
            return True
    return False


def walk_own(fn):
    """nodes of a function without nested functions"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    for n in ast.walk(t):
        n.lineno = n.end_lineno = 1
        n.col_offset = n.end_col_offset = 0
    return t


def assigned(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def vset(vals):
    if len(vals) == 1:
        return _One(vals[0])
    try:
        r = set(vals)
    except TypeError:
        return {repr(v) for v in vals}
    return _One(next(iter(r))) if len(r) == 1 else r


class _One:
    """a set of one value, compared without hashing it"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _One) and (self.v is o.v or self.v == o.v)


def match_as_ifs(s):
    subj = s.subject
    pre = []
    if not isinstance(subj, (ast.Name, ast.Attribute)):
        nm = ast.Name('$match%d' % s.lineno, ast.Store())
        pre = [ast.Assign([nm], subj)]
        subj = ast.Name(nm.id, ast.Load())

    def cond(p, x):
        """(test or None if it always matches, assignments)"""
        if isinstance(p, ast.MatchValue):
            return ast.Compare(x, [ast.Eq()], [p.value]), []
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(x, [ast.Is()], [ast.Constant(p.value)]), []
        if isinstance(p, ast.MatchOr):
            ts, bs = [], []
            for q in p.patterns:
                t, b = cond(q, x)
                if t is None:
                    return None, b
                ts.append(t)
                bs += b
            return ast.BoolOp(ast.Or(), ts), bs
        if isinstance(p, ast.MatchAs):
            t, b = (None, []) if p.pattern is None else cond(p.pattern, x)
            if p.name:
                b = b + [ast.Assign([ast.Name(p.name, ast.Store())], x)]
            return t, b
        if isinstance(p, ast.MatchClass):
            t = ast.Call(ast.Name('isinstance', ast.Load()), [x, p.cls], [])
            ts, bs = [t], []
            for q in p.patterns:
                u, b = cond(q, x)
                bs += b
                if u is not None:
                    ts.append(u)
            for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                u, b = cond(q, ast.Attribute(x, k, ast.Load()))
                bs += b
                if u is not None:
                    ts.append(u)
            return ts[0] if len(ts) == 1 else ast.BoolOp(ast.And(), ts), bs
        if isinstance(p, ast.MatchSequence):
            ts, bs = [], []
            star = False
            n = len(p.patterns)
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    star = True
                    if q.name:
                        bs.append(ast.Assign(
                            [ast.Name(q.name, ast.Store())], ast.Subscript(
                                x, ast.Slice(ast.Constant(i), None, None),
                                ast.Load())))
                    continue
                u, b = cond(q, ast.Subscript(x, ast.Constant(
                    i - n if star else i), ast.Load()))
                bs += b
                if u is not None:
                    ts.append(u)
            return (ast.BoolOp(ast.And(), ts) if len(ts) > 1 else
                    ts[0] if ts else None), bs
        if isinstance(p, ast.MatchMapping):
            ts, bs = [], []
            for k, q in zip(p.keys, p.patterns):
                ts.append(ast.Compare(k, [ast.In()], [x]))
                u, b = cond(q, ast.Subscript(x, k, ast.Load()))
                bs += b
                if u is not None:
                    ts.append(u)
            return (ast.BoolOp(ast.And(), ts) if len(ts) > 1 else
                    ts[0] if ts else None), bs
        return ast.Call(ast.Name('bool', ast.Load()), [x], []), []
    out = []
    for c in reversed(s.cases):
        t, b = cond(c.pattern, subj)
        body = b + c.body
        if c.guard is not None:
            if t is None:
                # names the guard uses are bound before it
                out = b + [ast.If(c.guard, list(c.body), out)]
                continue
            if b:
                out = [ast.If(t, b + [ast.If(c.guard, list(c.body), out)],
                              out)]
                continue
            t = ast.BoolOp(ast.And(), [t, c.guard])
        out = body if t is None else [ast.If(t, body, out)]
    res = pre + out
    for x in res:
        for n in ast.walk(x):
            if hasattr(n, '_attributes') and not hasattr(n, 'lineno'):
                ast.copy_location(n, s)
    return res
