"""Path-sensitive exploration of the C functions over a finite abstract state.

State per path: abstract value of every scalar/pointer variable, typestate of
every tracked resource (heap block, new reference, GIL state, buffer content),
"an exception is set", "an error happened and has not been reported", and the
truth of pure branch conditions.  Every path of the control-flow graph is
followed to a fixpoint (states are deduplicated), internal callees that touch
tracked resources are inlined, the rest are summarised.
"""
import re
from collections import namedtuple

import cfront
from cfront import AnalysisBroken, strip, show, rel

UNK = ('unk',)
NULL = ('null',)
NN = ('nn',)            # non-null pointer, otherwise unknown
UNINIT = ('uninit',)
NZ = ('nz',)            # non-zero int
POS = ('pos',)          # positive int

NEWREF = {
    'PyObject_GetAttrString', 'PyObject_GetAttr', 'PyImport_ImportModule',
    'PyImport_Import', 'PyObject_CallObject', 'PyObject_Call',
    'PyObject_CallMethod', 'PyObject_CallFunction', 'PyObject_CallNoArgs',
    'Py_BuildValue', 'PyLong_FromLong', 'PyFloat_FromDouble',
    'PyUnicode_FromString', 'PyTuple_New', 'PyList_New', 'PyDict_New',
    'PyTuple_Pack', 'PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_FROM_OTF',
    'PyArray_GETCONTIGUOUS', 'PyModule_Create', 'PySequence_GetItem',
    'PyObject_GetItem', 'PyObject_Repr', 'PyObject_Str', 'PyMapping_GetItemString'}
BORROW_EXC = {'PyTuple_GetItem', 'PyList_GetItem', 'PyImport_AddModule',
              'PyDict_GetItemWithError'}
BORROW_NOEXC = {'PyDict_GetItemString', 'PyDict_GetItem'}
PTR_EXC = {'PyCapsule_GetPointer', 'PyCapsule_Import', 'PyUnicode_AsUTF8'}
PTR_PLAIN = {'PyCapsule_GetName'}
NEG_EXC = {'PyObject_SetAttrString', 'PyDict_SetItemString', 'PyModule_AddObject',
           'PyObject_IsTrue', '_import_array'}
CHECKS = re.compile(r'Py\w+_(Check|CheckExact|IsValid)$|^PyObject_Has|'
                    r'^PyDict_Contains$|^PyErr_Occurred$|'
                    r'^PyErr_ExceptionMatches$|^PyGILState_Check$')
GIL_FREE = re.compile(r'^PyArray_|^PyGILState_|^PyEval_|^PyMem_Raw')
MALLOCS = {'malloc', 'calloc', 'aligned_alloc', 'strdup', 'PyMem_Malloc',
           'PyMem_RawMalloc', 'PyMem_Calloc', 'realloc'}
FREES = {'free', 'PyMem_Free', 'PyMem_RawFree'}
MEMWRITE = {'memset', 'memcpy', 'memmove'}


def is_pyapi(name):
    return name.startswith(('Py', '_Py')) or name in ('import_array',
                                                      '_import_array')


class CFG:
    def __init__(self):
        self.nodes = []     # (kind, payload, [succ...])

    def new(self, kind, payload=None, line=0):
        self.nodes.append([kind, payload, [], line])
        return len(self.nodes) - 1


def build_cfg(func):
    g = CFG()
    labels, gotos = {}, []
    entry = g.new('nop')

    def link(preds, n):
        for p, slot in preds:
            s = g.nodes[p][2]
            while len(s) <= slot:
                s.append(None)
            s[slot] = n

    def stmt(e, preds, brk, cont):
        """returns dangling preds after e"""
        if e is None:
            return preds
        k = e.k
        if k == 'block':
            for c in e.a:
                preds = stmt(c, preds, brk, cont)
            return preds
        if k == 'if':
            n = g.new('branch', e.a[0], e.line)
            link(preds, n)
            t = stmt(e.a[1], [(n, 0)], brk, cont)
            f = stmt(e.a[2], [(n, 1)], brk, cont) if e.a[2] is not None \
                else [(n, 1)]
            return t + f
        if k in ('for', 'while'):
            if k == 'for':
                init, cond, inc, body = e.a
                preds = stmt(init, preds, brk, cont)
            else:
                init, inc = None, None
                cond, body = e.a
            tag = e.extra
            first = g.new('loophead', (id(e), tag, k), e.line)
            link(preds, first)
            n = g.new('branch', cond, e.line)
            link([(first, 0)], n)
            g.nodes[n].append(('loop', id(e), k, tag))
            enter = g.new('iter', (id(e), tag), e.line)
            link([(n, 0)], enter)
            b, c = [], []
            out = stmt(body, [(enter, 0)], b, c)
            if inc is not None:
                m = g.new('expr', inc, e.line)
                link(out + c, m)
                link([(m, 0)], n)
            else:
                link(out + c, n)
            return [(n, 1)] + b
        if k == 'do':
            body, cond = e.a
            head = g.new('nop')
            link(preds, head)
            b, c = [], []
            out = stmt(body, [(head, 0)], b, c)
            n = g.new('branch', cond, e.line)
            link(out + c, n)
            link([(n, 0)], head)
            return [(n, 1)] + b
        if k == 'switch':
            n = g.new('switch', e.a[0], e.line)
            link(preds, n)
            b = []
            st = {'n': n, 'slot': 0, 'default': False}
            out = _switch_body(e.a[1], st, b, cont)
            if not st['default']:
                out = out + [(n, st['slot'])]
            return out + b
        if k == 'return':
            n = g.new('ret', e.a[0] if e.a else None, e.line)
            link(preds, n)
            return []
        if k == 'break':
            brk.extend(preds)
            return []
        if k == 'continue':
            cont.extend(preds)
            return []
        if k == 'goto':
            n = g.new('nop')
            link(preds, n)
            gotos.append((n, e.v))
            return []
        if k == 'label':
            n = g.new('nop')
            link(preds, n)
            labels[e.v] = n
            return stmt(e.a[0], [(n, 0)], brk, cont)
        if k == 'omp':
            n = g.new('omp+', e, e.line)
            link(preds, n)
            body = e.a[0]
            if body is not None and body.k == 'for' and 'For' in e.v:
                body.extra = 'ompfor'
            out = stmt(body, [(n, 0)], brk, cont)
            m = g.new('omp-', e, e.line)
            link(out, m)
            return [(m, 0)]
        if k == 'decl':
            n = g.new('decl', e, e.line)
            link(preds, n)
            return [(n, 0)]
        if k in ('case', 'default'):
            return stmt(e.a[-1], preds, brk, cont)
        if k == 'null':
            return preds
        n = g.new('expr', e.a[0] if k == 'expr' else e, e.line)
        link(preds, n)
        return [(n, 0)]

    def _switch_body(body, st, brk, cont):
        preds = []
        for c in (body.a if body.k == 'block' else [body]):
            while c is not None and c.k in ('case', 'default'):
                if c.k == 'default':
                    st['default'] = True
                preds = preds + [(st['n'], st['slot'])]
                st['slot'] += 1
                c = c.a[-1]
            preds = stmt(c, preds, brk, cont)
        return preds

    out = stmt(func.body, [(entry, 0)], [], [])
    end = g.new('ret', None, func.line)
    g.nodes[end].append('fallthrough')
    link(out, end)
    for n, lab in gotos:
        if lab in labels:
            link([(n, 0)], labels[lab])
    return g


class State:
    __slots__ = ('env', 'res', 'exc', 'fail', 'atoms', 'gil', 'omp', 'notes',
                 'dead')

    def __init__(self):
        self.env = {}
        self.res = {}       # rid -> (kind, status, content)
        self.exc = False
        self.fail = None
        self.atoms = {}     # text -> (bool, frozenset(var keys))
        self.gil = True
        self.omp = ()
        self.notes = frozenset()
        self.dead = False   # the path has crashed (reported)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.res = dict(self.res)
        s.exc = self.exc
        s.fail = self.fail
        s.atoms = dict(self.atoms)
        s.gil = self.gil
        s.omp = self.omp
        s.notes = self.notes
        s.dead = self.dead
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.res.items()),
                self.exc, self.fail, frozenset(self.atoms.items()), self.gil,
                self.omp)


Finding = namedtuple('Finding', 'rule file func line msg')


class Explorer:
    MAX_STATES = 60000

    def __init__(self, prog, axioms=()):
        self.prog = prog
        self.axioms = axioms          # [(('arg',i), ('arg',j))]: i true => j true
        self.cfgs = {}
        self.findings = {}
        self.stats = {'functions': set(), 'states': 0, 'calls': 0,
                      'exits': 0, 'resources': set(), 'failures': set(),
                      'branches': 0, 'freads': set()}
        self.summ = {}
        self.summ_busy = set()
        self._tracked = {}
        self._reads = {}
        self.handed = set()
        self._status = {}
        self.ureads = None
        self.exit_hook = None

    # -- which functions are inlined ----------------------------------------
    def tracked(self, f, seen=None):
        if f in self._tracked:
            return self._tracked[f]
        seen = seen or set()
        if f in seen:
            return False
        seen = seen | {f}
        r = False
        for e in f.body.walk():
            if e.k == 'call':
                c = e.a[0]
                if c.k == 'fn':
                    n = c.v
                    g = self.prog.lookup(n, f.file)
                    if g is not None:
                        r = r or self.tracked(g, seen)
                    elif is_pyapi(n) and not n.startswith('PyArray_'):
                        r = True
                    elif n in FREES and len(e.a) > 1:
                        v, _ = cfront.base_ptr(e.a[1])
                        if v is None or v.scope != 'local':
                            r = True
                else:
                    r = True        # call through a pointer
            if e.k == 'return' and e.a and e.a[0] is not None and \
                    f.rtype.endswith('*'):
                r = True
            if e.k == 'assign':
                l = strip(e.a[0])
                v, _ = cfront.base_ptr(l)
                if v is not None and v.scope == 'param' and \
                        v.type.count('*') >= 2 and l.k != 'var':
                    r = True
                if v is not None and v.scope == 'param' and l.k != 'var' \
                        and strip(e.a[1]).k == 'call' and False:
                    r = True
        if len(seen) == 1 or r:
            self._tracked[f] = r
        return r

    def is_status(self, f, seen=()):
        """int function that can report failure (contains failure sources)."""
        if f in self._status:
            return self._status[f]
        if f in seen:
            return False
        r = False
        if f.rtype in ('int', 'long', 'bool', '_Bool', 'Py_ssize_t'):
            for e in f.body.walk():
                if e.k != 'call':
                    continue
                c = e.a[0]
                if c.k == 'fn':
                    g = self.prog.lookup(c.v, f.file)
                    if g is not None:
                        r = r or self.is_status(g, seen + (f,))
                    elif c.v in NEWREF | BORROW_EXC | BORROW_NOEXC | PTR_EXC \
                            | NEG_EXC or c.v.startswith('PyArg_'):
                        r = True
                else:
                    r = True
        self._status[f] = r
        return r

    def cfg(self, f):
        if f not in self.cfgs:
            self.cfgs[f] = build_cfg(f)
        return self.cfgs[f]

    # -- reporting ----------------------------------------------------------
    def report(self, rule, func, line, msg, subject=''):
        key = (rule, rel(func.file), func.name, subject or msg)
        if key not in self.findings:
            self.findings[key] = Finding(rule, rel(func.file), func.name, line,
                                         msg)

    # -- exploration --------------------------------------------------------
    def run(self, f, st, argvals, stack=()):
        """All (state, retval, line) exits of f."""
        frame = '/'.join(str(x) for x in stack) + '/' + f.name
        ctx = (f, frame, stack)
        for p, v in zip(f.params, argvals):
            st.env[(frame, p.id)] = v
        for p in f.params[len(argvals):]:
            st.env[(frame, p.id)] = ('parm', p.name)
        g = self.cfg(f)
        self.stats['functions'].add(f)
        seen = set()
        work = [(0, st)]
        exits = []
        nseen = 0
        while work:
            n, s = work.pop()
            kx = (n, s.key())
            if kx in seen:
                continue
            seen.add(kx)
            nseen += 1
            if nseen > self.MAX_STATES:
                if self.findings:
                    self.truncated = True
                    break
                raise AnalysisBroken(f'state explosion in {f}')
            self.stats['states'] += 1
            node = g.nodes[n]
            kind, pay, succ, line = node[:4]
            if kind == 'nop':
                outs = [(s, 0)]
            elif kind == 'expr':
                outs = [(x, 0) for x, _ in self.ev(pay, s, ctx)]
            elif kind == 'decl':
                outs = [(x, 0) for x in self.decl(pay, s, ctx)]
            elif kind == 'branch':
                self.stats['branches'] += 1
                loop = node[4] if len(node) > 4 else None
                if pay is None:
                    outs = [(s, 0)]
                else:
                    outs = []
                    fresh = loop and ('fresh', loop[1]) in s.notes
                    if fresh:
                        s = s.copy()
                        s.notes = s.notes - {('fresh', loop[1])}
                    for x, t in self.cond(pay, s, ctx):
                        # counted loops other than the work-sharing one are
                        # taken to run at least once
                        if fresh and not t and loop[2] == 'for' and \
                                loop[3] != 'ompfor' and \
                                self._unknown(pay, s, ctx):
                            continue
                        outs.append((x, 0 if t else 1))
            elif kind == 'loophead':
                s = s.copy()
                s.notes = s.notes | {('fresh', pay[0])}
                outs = [(s, 0)]
            elif kind == 'iter':
                if pay[1] == 'ompfor':
                    s = s.copy()
                    for r, (rk, stt, con) in list(s.res.items()):
                        if rk == 'malloc' and con is not None:
                            s.res[r] = (rk, stt, 'stale')
                outs = [(s, 0)]
            elif kind == 'switch':
                outs = []
                for x, _ in self.ev(pay, s, ctx):
                    for i in range(len(succ)):
                        outs.append((x.copy(), i))
            elif kind == 'omp+':
                s = s.copy()
                s.omp = s.omp + (pay.v,)
                outs = [(s, 0)]
            elif kind == 'omp-':
                s = s.copy()
                s.omp = s.omp[:-1]
                outs = [(s, 0)]
            elif kind == 'ret':
                if pay is None:
                    exits.append((s, None, line))
                else:
                    for x, v in self.ev(pay, s, ctx):
                        if v == UNINIT:
                            v = UNK
                        exits.append((x, v, line))
                continue
            else:
                raise AnalysisBroken(kind)
            for x, slot in outs:
                if x.dead:
                    continue
                if slot < len(succ) and succ[slot] is not None:
                    work.append((succ[slot], x))
        # drop callee frame
        out, dd = [], set()
        for s, v, line in exits:
            if s.dead and not stack:
                continue
            if stack:
                s = s.copy()
                s.env = {k: x for k, x in s.env.items() if k[0] != frame}
                s.notes = frozenset(x for x in s.notes)
                k = (s.key(), v)
                if k in dd:
                    continue
                dd.add(k)
            out.append((s, v, line))
        return out

    def _unknown(self, e, s, ctx):
        """True unless the condition is decided by constants."""
        f = self.probe
        self.probe = True
        try:
            outs = self.cond(e, s.copy(), ctx)
        finally:
            self.probe = f
        return len({t for _, t in outs}) > 1 or True
    probe = False
    truncated = False

    def decl(self, e, s, ctx):
        v = e.v
        key = (ctx[1], v.id)
        if v.static:
            s = s.copy()
            if key not in s.env:
                s.env[key] = UNK
            return [s]
        if v.is_array:
            s = s.copy()
            rid = ('array', ctx[1], v.name)
            s.env[key] = ('res', rid)
            s.res[rid] = ('array', 'live', 'init' if e.a else 'stale')
            outs = [s]
            if e.a:
                outs = [x for x, _ in self.evall(e.a[0].a, s, ctx)]
            return outs
        if not e.a:
            s = s.copy()
            self.setvar(s, key, UNINIT)
            return [s]
        outs = []
        for x, val in self.ev(e.a[0], s, ctx):
            x = x.copy()
            self.setvar(x, key, val)
            outs.append(x)
        return outs

    def setvar(self, s, key, val):
        s.env[key] = val
        dead = [a for a, (_, vs) in s.atoms.items() if key in vs]
        for a in dead:
            del s.atoms[a]
        for k, v in list(s.env.items()):
            if v[0] == 'sym' and v[1] == key and k != key:
                s.env[k] = UNK

    def key(self, v, ctx):
        if v.scope in ('global', 'extern'):
            return ('', v.name)
        if v.static:
            return (ctx[1], v.id)
        return (ctx[1], v.id)

    def get(self, v, s, ctx, line):
        key = self.key(v, ctx)
        val = s.env.get(key)
        if val is None:
            if v.scope in ('global', 'extern'):
                val = NN if v.name.startswith('Py') else UNK
            elif v.is_array:
                val = NN
            else:
                val = UNK
            s.env[key] = val
        if val == UNINIT and key in self.handed:
            return UNINIT
        if val == UNINIT:
            self.report('uninitialised-use', ctx[0], line,
                        f'`{v.name}` is read before it is given a value',
                        v.name)
            s.env[key] = UNK
            return UNK
        return val

    # -- expressions ---------------------------------------------------------
    def evall(self, es, s, ctx):
        outs = [(s, [])]
        for e in es:
            nxt = []
            for x, vs in outs:
                for y, v in self.ev(e, x, ctx):
                    nxt.append((y, vs + [v]))
            outs = nxt
        return outs

    def ev(self, e, s, ctx):
        k = e.k
        if k == 'num':
            return [(s, ('const', e.v))]
        if k == 'null':
            return [(s, NULL)]
        if k == 'str':
            return [(s, ('str', e.v))]
        if k in ('fn', 'sizeof', 'enum'):
            return [(s, NN)]
        if k == 'cast':
            outs = self.ev(e.a[0], s, ctx)
            if e.v.endswith('*'):
                return [(x, NULL if v == ('const', 0) else v) for x, v in outs]
            return outs
        if k == 'var':
            return [(s, self.get(e.v, s, ctx, e.line))]
        if k == 'init':
            return [(x, NN) for x, _ in self.evall(e.a, s, ctx)]
        if k == 'assign':
            return self.assign(e, s, ctx)
        if k == 'un':
            return self.unary(e, s, ctx)
        if k == 'bin':
            if e.v == ',':
                return [(y, v) for x, _ in self.ev(e.a[0], s, ctx)
                        for y, v in self.ev(e.a[1], x, ctx)]
            if e.v in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
                return [(x, ('const', int(t)))
                        for x, t in self.cond(e, s, ctx)]
            outs = []
            for x, (a, b) in self.evall(e.a, s, ctx):
                v = UNK
                for p, q in ((a, b), (b, a)):
                    if p[0] in ('res', 'nn', 'borrow', 'data') and e.v in '+-':
                        v = p
                        break
                v = arith(e.v, a, b) if v == UNK else v
                outs.append((x, v))
            return outs
        if k == 'cond':
            return [(y, v) for x, t in self.cond(e.a[0], s, ctx)
                    for y, v in self.ev(e.a[1] if t else e.a[2], x, ctx)]
        if k == 'idx':
            txt = self.dimtext(e)
            outs = []
            for x, (b, i) in self.evall(e.a, s, ctx):
                self.deref(b, e.a[0], x, ctx, e.line, 'read')
                outs.append((x, ('dim', txt) if txt else UNK))
            return outs
        if k == 'mem':
            return [(x, UNK) for x, _ in self.ev(e.a[0], s, ctx)]
        if k == 'call':
            return self.call(e, s, ctx)
        if k == 'stmtexpr':
            return [(s, UNK)]
        return [(x, UNK) for x, _ in self.evall(e.a, s, ctx)]

    def dimtext(self, e):
        e = strip(e)
        if e.k == 'idx':
            b = strip(e.a[0])
            if b.k == 'call' and b.a[0].k == 'fn' and \
                    b.a[0].v in ('PyArray_DIMS', 'PyArray_SHAPE'):
                return f'dim({show(b.a[1])},{show(e.a[1])})'
        if e.k == 'call' and e.a[0].k == 'fn':
            if e.a[0].v == 'PyArray_DIM':
                return f'dim({show(e.a[1])},{show(e.a[2])})'
            if e.a[0].v in ('PyArray_SIZE', 'PyArray_NDIM'):
                return f'{e.a[0].v}({show(e.a[1])})'
        return None

    def deref(self, val, e, s, ctx, line, how):
        """memory access through a pointer value"""
        if val == NULL:
            self.report('null-use', ctx[0], line,
                        f'`{show(e)}` is NULL on this path but is '
                        f'dereferenced', show(e))
            s.dead = True
        if val[0] == 'res':
            r = s.res.get(val[1])
            if r is None:
                return
            if r[1] == 'freed':
                self.report('use-after-release', ctx[0], line,
                            f'`{show(e)}` is used after it was released',
                            show(e))
            self.stats['freads'].add((ctx[0].name, line))
            if how == 'read' and r[2] == 'stale':
                if r[0] == 'param':
                    if self.ureads is not None:
                        self.ureads.setdefault(val[1], line)
                elif r[0] == 'array':
                    self.report('uninitialised-use', ctx[0], line,
                                f'elements of `{show(e)}` are read before '
                                f'any is written', show(e))
                else:
                    self.report(
                        'stale-buffer' if r[0] == 'malloc' else 'uninit',
                        ctx[0], line,
                        f'the content of buffer `{show(e)}` is read before '
                        f'this iteration initialises it: it holds what the '
                        f'previous q-point on the same thread left there',
                        show(e))
                s.res[val[1]] = (r[0], r[1], 'init')
            elif how == 'write' and r[2] == 'stale':
                s.res[val[1]] = (r[0], r[1], 'init')

    def assign(self, e, s, ctx):
        l = strip(e.a[0])
        outs = []
        for x, val in self.ev(e.a[1], s, ctx):
            if e.v != '=':
                # compound: reads the target too
                for y, old in self.ev(l, x, ctx):
                    y = y.copy()
                    nv = old if l.k == 'var' and old[0] in ('res', 'nn') \
                        else widen(arith(e.v[:-1], old, val))
                    self.store(l, nv, y, ctx, e.line)
                    outs.append((y, nv))
                continue
            r = strip(e.a[1])
            if l.k == 'var' and r.k == 'var' and val == UNK and \
                    r.v.scope != 'global':
                val = ('sym', self.key(r.v, ctx))
            for y in self.lval(l, x, ctx):
                y = y.copy()
                self.store(l, val, y, ctx, e.line)
                outs.append((y, val))
        return outs

    def lval(self, l, s, ctx):
        if l.k == 'var':
            return [s]
        return [x for x, _ in self.evall(
            [a for a in l.a if a is not None], s, ctx)]

    def store(self, l, val, s, ctx, line):
        if l.k == 'var':
            if val == UNINIT:
                val = UNK
            self.setvar(s, self.key(l.v, ctx), val)
            return
        if l.k == 'un' and l.v == '*':
            for x, p in self.ev(l.a[0], s.copy(), ctx):
                if p[0] == 'addr':
                    self.setvar(s, p[1], val)
                elif p[0] == 'parm' and val[0] == 'res':
                    # handed to the caller
                    self.escape(val, s)
                else:
                    self.deref(p, l.a[0], s, ctx, line, 'write')
                return
        if l.k in ('idx', 'mem'):
            base = strip(l.a[0])
            for x, p in self.ev(base, s.copy(), ctx):
                self.deref(p, base, s, ctx, line, 'write')
                if val[0] == 'res':
                    self.escape(val, s)
                return

    def escape(self, val, s):
        r = s.res.get(val[1])
        if r:
            s.res[val[1]] = (r[0], 'escaped', r[2])

    def unary(self, e, s, ctx):
        op = e.v
        if op == '&':
            t = strip(e.a[0])
            if t.k == 'var':
                v = s.env.get(self.key(t.v, ctx))
                if v is not None and v[0] == 'res' and t.v.is_array:
                    return [(s, v)]
                return [(s, ('addr', self.key(t.v, ctx)))]
            if t.k == 'idx':
                return [(x, vs[0] if vs[0][0] in ('res', 'nn') else NN)
                        for x, vs in self.evall(t.a, s, ctx)]
            return [(s, NN)]
        if op == '!':
            return [(x, ('const', int(not t)))
                    for x, t in self.cond(e.a[0], s, ctx)]
        if op == '*':
            outs = []
            for x, p in self.ev(e.a[0], s, ctx):
                if p[0] == 'addr':
                    v = x.env.get(p[1], UNK)
                    outs.append((x, UNK if v == UNINIT else v))
                else:
                    x = x.copy()
                    self.deref(p, e.a[0], x, ctx, e.line, 'read')
                    outs.append((x, UNK))
            return outs
        if op[:4] in ('post', 'pre+', 'pre-'):
            outs = []
            t = strip(e.a[0])
            for x, v in self.ev(t, s, ctx):
                x = x.copy()
                nv = v if v[0] in ('res', 'nn', 'parm') else \
                    widen(arith(op[-1], v, ('const', 1)))
                self.store(t, nv, x, ctx, e.line)
                outs.append((x, v if op.startswith('post') else nv))
            return outs
        if op == '-':
            return [(x, ('const', -v[1]) if v[0] == 'const' and
                     isinstance(v[1], (int, float)) else UNK)
                    for x, v in self.ev(e.a[0], s, ctx)]
        return [(x, UNK) for x, _ in self.evall(e.a, s, ctx)]

    # -- conditions ------------------------------------------------------------
    def truth(self, val):
        k = val[0]
        if k == 'const':
            return bool(val[1])
        if k == 'null':
            return False
        if k in ('nn', 'nz', 'pos', 'addr', 'str', 'borrow', 'data'):
            return True
        return None

    def cond(self, e, s, ctx):
        """[(state, bool)]"""
        e = strip(e)
        if e.k == 'un' and e.v == '!':
            return [(x, not t) for x, t in self.cond(e.a[0], s, ctx)]
        if e.k == 'bin' and e.v == '&&':
            outs = []
            for x, t in self.cond(e.a[0], s, ctx):
                outs += self.cond(e.a[1], x, ctx) if t else [(x, False)]
            return outs
        if e.k == 'bin' and e.v == '||':
            outs = []
            for x, t in self.cond(e.a[0], s, ctx):
                outs += [(x, True)] if t else self.cond(e.a[1], x, ctx)
            return outs
        if e.k == 'bin' and e.v in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(e, s, ctx)
        outs = []
        for x, v in self.ev(e, s, ctx):
            outs += self.split(e, v, x, ctx)
        return outs

    def refine(self, e, val, t, s, ctx):
        """value of a variable is known to be true/false now"""
        s = s.copy()
        e = strip(e)
        if e.k == 'assign':
            e = strip(e.a[0])
        ptr = e.k == 'var' and (e.v.is_pointer)
        if val[0] == 'res' and not t:
            # allocation failed on this path
            r = s.res.get(val[1])
            if r:
                del s.res[val[1]]
            for k, v in list(s.env.items()):
                if v == val:
                    s.env[k] = NULL
            return s
        if e.k == 'var' and val in (UNK,) and ptr:
            s.env[self.key(e.v, ctx)] = NN if t else NULL
        elif e.k == 'var' and val == UNK and not t:
            pass
        return s

    def atom(self, e, val, s, ctx):
        """(text, vars) of a pure condition, or None"""
        if val[0] == 'dim':
            return val[1], frozenset()
        if val[0] == 'arg':
            return f'arg{val[1]}', frozenset()
        if val[0] == 'sym':
            return f'{val[1]}', frozenset([val[1]])
        e = strip(e)
        if e.k == 'var':
            key = self.key(e.v, ctx)
            return f'{key}', frozenset([key])
        return None

    def split(self, e, val, s, ctx):
        t = self.truth(val)
        if t is not None:
            return [(s, t)]
        if val[0] == 'res':
            r = s.res.get(val[1])
            if r and r[0] == 'malloc':
                return [(s, True), (self.refine(e, val, False, s, ctx), False)]
            return [(s, True)]
        a = self.atom(e, val, s, ctx)
        if a is None:
            return [(s, True), (s.copy(), False)]
        return self.fork_atom(a, s, lambda x, t: self.refine(e, val, t, x,
                                                             ctx))

    def fork_atom(self, a, s, refine=None):
        txt, vs = a
        if txt in s.atoms:
            return [(s, s.atoms[txt][0])]
        outs = []
        for t in (True, False):
            x = s.copy()
            x.atoms[txt] = (t, vs)
            if not self.consistent(x):
                continue
            if refine:
                x = refine(x, t)
            outs.append((x, t))
        return outs

    def consistent(self, s):
        for p, q in self.axioms:
            tp, tq = f'arg{p}', f'arg{q}'
            if s.atoms.get(tp, (None,))[0] is True:
                if s.atoms.get(tq, (None,))[0] is False:
                    return False
                if tq not in s.atoms:
                    s.atoms[tq] = (True, frozenset())
        return True

    def compare(self, e, s, ctx):
        outs = []
        op = e.v
        for x, (a, b) in self.evall(e.a, s, ctx):
            ea, eb = strip(e.a[0]), strip(e.a[1])
            o = op
            # constant on the right
            if a[0] in ('const', 'null') and b[0] not in ('const', 'null'):
                a, b, ea, eb = b, a, eb, ea
                o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
            if a[0] == 'const' and b[0] == 'const':
                t = {'==': a[1] == b[1], '!=': a[1] != b[1],
                     '<': a[1] < b[1], '>': a[1] > b[1],
                     '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[o]
                outs.append((x, t))
                continue
            zero = b in (NULL, ('const', 0))
            if zero and o in ('==', '!='):
                for y, t in self.split(ea, a, x, ctx):
                    outs.append((y, t if o == '!=' else not t))
                continue
            if a == POS and b[0] == 'const' and b[1] <= 0:
                outs.append((x, o in ('>', '>=', '!=')))
                continue
            if a == POS and b == ('const', 1) and o in ('>=', '<'):
                outs.append((x, o == '>='))
                continue
            if a[0] == 'dim' and b[0] == 'const':
                # a dimension is never negative
                c = b[1]
                if (o, c) in (('>', 0), ('>=', 1)):
                    outs += self.split(ea, a, x, ctx)
                    continue
                if (o, c) in (('<', 1), ('<=', 0)):
                    outs += [(y, not t) for y, t in
                             self.split(ea, a, x, ctx)]
                    continue
                if (o, c) == ('>=', 0):
                    outs.append((x, True))
                    continue
                if (o, c) == ('<', 0):
                    outs.append((x, False))
                    continue
            ta, tb = self.term(ea, a, x, ctx), self.term(eb, b, x, ctx)
            if ta is None or tb is None:
                outs += [(x, True), (x.copy(), False)]
                continue
            # canonical: only '==' and '<', with negation
            neg = False
            if o == '!=':
                o, neg = '==', True
            elif o == '>':
                ta, tb, o = tb, ta, '<'
            elif o == '>=':
                o, neg = '<', True
            elif o == '<=':
                ta, tb, o, neg = tb, ta, '<', True
            if o == '==' and tb[0] < ta[0]:
                ta, tb = tb, ta
            for y, t in self.fork_atom((f'{ta[0]} {o} {tb[0]}',
                                        ta[1] | tb[1]), x):
                outs.append((y, t != neg))
        return outs

    def term(self, e, val, s, ctx):
        if val[0] == 'const':
            return str(val[1]), frozenset()
        if val[0] in ('dim',):
            return val[1], frozenset()
        if val[0] == 'arg':
            return f'arg{val[1]}', frozenset()
        if val[0] == 'sym':
            return str(val[1]), frozenset([val[1]])
        e = strip(e)
        if e.k == 'var' and val in (UNK, NZ, POS):
            key = self.key(e.v, ctx)
            return str(key), frozenset([key])
        return None

    # -- calls -----------------------------------------------------------------
    def failed(self, s, line, what, ctx, exc):
        s = s.copy()
        self.stats['failures'].add((ctx[0].name, line, what))
        if s.fail is None:
            s.fail = (ctx[0].name, line, what)
        if exc:
            s.exc = True
        return s

    def call(self, e, s, ctx):
        self.stats['calls'] += 1
        if s.dead:
            return [(s, UNK)]
        fn = strip(e.a[0])
        while fn.k == 'un' and fn.v in '*&':
            fn = strip(fn.a[0])
        args = e.a[1:]
        outs = []
        g = self.prog.lookup(fn.v, ctx[0].file) if fn.k == 'fn' else None
        self.handed = set()
        if g is not None:       # reported where the callee reads it, if ever
            for p, a in zip(g.params, args):
                a = strip(a)
                if a.k == 'var' and (self.tracked(g) and len(ctx[2]) < 6 or
                                     not self.reads(g, p)):
                    self.handed.add(self.key(a.v, ctx))
        evaled = self.evall(args, s, ctx)
        self.handed = set()
        for x, vals in evaled:
            if fn.k == 'fn':
                outs += self.call_named(fn.v, e, args, vals, x, ctx)
            else:
                for y, fv in self.ev(fn, x, ctx):
                    outs += self.call_ptr(fn, fv, e, args, vals, y, ctx)
        return outs

    def reads(self, g, p):
        """g reads its parameter p whatever else it is given"""
        k = (g, p.id)
        if k not in self._reads:
            def go(e):
                if e is None:
                    return False
                if e.k == 'var':
                    return e.v.id == p.id
                if e.k in ('if', 'cond', 'switch') or \
                        e.k == 'bin' and e.v in ('&&', '||'):
                    return go(e.a[0])
                return any(go(x) for x in e.a)
            self._reads[k] = go(g.body)
        return self._reads[k]

    def call_ptr(self, fn, fv, e, args, vals, s, ctx):
        if fv == NULL:
            self.report('null-use', ctx[0], e.line,
                        f'call through `{show(fn)}`, which is NULL on this '
                        f'path', show(fn))
            s.dead = True
            return [(s, UNK)]
        outs = []
        s = s.copy()
        # LAPACK convention: scalars are passed by address, the last is info
        for a, v in list(zip(args, vals))[:-1]:
            if v[0] == 'addr':
                cur = s.env.get(v[1], UNK)
                if cur == UNINIT or not (cur[0] == 'const' and False):
                    self.setvar(s, v[1], UNK)
            elif v[0] == 'res':
                self.deref(v, a, s, ctx, e.line, 'write')
        if vals and vals[-1][0] == 'addr':
            ok = s.copy()
            self.setvar(ok, vals[-1][1], ('const', 0))
            bad = self.failed(s, e.line, f'{show(fn)} reports failure', ctx,
                              False)
            self.setvar(bad, vals[-1][1], NZ)
            return [(ok, UNK), (bad, UNK)]
        return [(s, UNK)]

    def alloc(self, s, kind, ctx, line, name, content=None):
        rid = (kind, ctx[2] + (line,), ctx[0].name, name)
        old = s.res.get(rid)
        if old and old[1] == 'live':
            self.report('leak', ctx[0], line,
                        f'{name} is called again while the {kind} it returned '
                        f'before is still held', name)
        s.res[rid] = (kind, 'live', content)
        self.stats['resources'].add((kind, ctx[0].name, line))
        return ('res', rid)

    def release(self, val, arg, s, ctx, line, what, kinds, nullok):
        if val == NULL:
            if not nullok:
                self.report('null-use', ctx[0], line,
                            f'`{show(arg)}` is NULL on this path but is '
                            f'passed to {what}', show(arg))
                s.dead = True
            return
        if val[0] == 'borrow':
            self.report('borrowed-release', ctx[0], line,
                        f'{what} of `{show(arg)}`, a borrowed reference',
                        show(arg))
            return
        if val[0] != 'res':
            return
        r = s.res.get(val[1])
        if r is None:
            return
        if r[1] == 'freed':
            self.report('double-release', ctx[0], line,
                        f'`{show(arg)}` is released twice', show(arg))
        if kinds and r[0] not in kinds and r[0] != 'param':
            self.report('mismatched-release', ctx[0], line,
                        f'{what} of `{show(arg)}`, which is a {r[0]}',
                        show(arg))
        n = r[1]
        if isinstance(n, int) and n > 1:
            s.res[val[1]] = (r[0], n - 1 if n > 2 else 'live', r[2])
        else:
            s.res[val[1]] = (r[0], 'freed', r[2])

    def call_named(self, name, e, args, vals, s, ctx):
        f = self.prog.lookup(name, ctx[0].file)
        line = e.line
        if f is not None:
            return self.call_internal(f, e, args, vals, s, ctx)
        s = s.copy()
        if is_pyapi(name):
            if not s.gil and not GIL_FREE.match(name):
                self.report('gil', ctx[0], line,
                            f'{name} is called while the GIL is released',
                            name)
            if any(o.startswith('Parallel') for o in s.omp) and \
                    not name.startswith('PyArray_'):
                self.report('api-in-parallel', ctx[0], line,
                            f'Python API {name} is called inside an OpenMP '
                            f'parallel region', name)
        if name.startswith('PyArg_Parse'):
            return self.pyarg(name, e, args, vals, s, ctx)
        if name in NEWREF:
            for a, v in zip(args, vals):
                self.useptr(a, v, s, ctx, line, name)
            ok = s.copy()
            v = self.alloc(ok, 'reference', ctx, line, name)
            bad = self.failed(s, line, f'{name} fails', ctx, True)
            return [(ok, v), (bad, NULL)]
        if name in BORROW_EXC or name in BORROW_NOEXC:
            for a, v in zip(args, vals):
                self.useptr(a, v, s, ctx, line, name)
            bad = self.failed(s, line, f'{name} finds nothing', ctx,
                              name in BORROW_EXC)
            return [(s.copy(), ('borrow',)), (bad, NULL)]
        if name in PTR_EXC:
            for a, v in zip(args[:1], vals):
                self.useptr(a, v, s, ctx, line, name)
            bad = self.failed(s, line, f'{name} fails', ctx, True)
            return [(s.copy(), NN), (bad, NULL)]
        if name in NEG_EXC:
            bad = self.failed(s, line, f'{name} fails', ctx, True)
            return [(s.copy(), ('const', 0)), (bad, ('const', -1))]
        if name in ('PyErr_Format', 'PyErr_SetString', 'PyErr_SetObject',
                    'PyErr_SetNone', 'PyErr_NoMemory'):
            s.exc = True
            return [(s, NULL)]
        if name == 'PyErr_Clear':
            s.exc = False
            s.fail = None
            return [(s, UNK)]
        if name == 'PyErr_Occurred':
            return [(s, NN if s.exc else NULL)]
        if name in ('Py_DECREF', 'Py_XDECREF'):
            self.release(vals[0], args[0], s, ctx, line, name,
                         ('reference',), name == 'Py_XDECREF')
            return [(s, UNK)]
        if name in ('Py_INCREF', 'Py_XINCREF', 'Py_NewRef', 'Py_XNewRef'):
            v = vals[0]
            if v[0] == 'res':
                r = s.res.get(v[1])
                if r and r[1] != 'freed':
                    n = r[1] if isinstance(r[1], int) else 1
                    s.res[v[1]] = (r[0], n + 1, r[2])
            elif v[0] in ('borrow', 'parm', 'unk', 'nn') and \
                    strip(args[0]).k == 'var' and \
                    not strip(args[0]).v.name.startswith('Py'):
                nv = self.alloc(s, 'reference', ctx, line, name)
                if 'NewRef' not in name:
                    self.setvar(s, self.key(strip(args[0]).v, ctx), nv)
                v = nv
            return [(s, v)]
        if name == 'PyGILState_Ensure':
            v = self.alloc(s, 'GIL state', ctx, line, name)
            return [(s, v)]
        if name == 'PyGILState_Release':
            self.release(vals[0], args[0], s, ctx, line, name,
                         ('GIL state',), False)
            return [(s, UNK)]
        if name == 'PyEval_SaveThread':
            s.gil = False
            return [(s, self.alloc(s, 'thread state', ctx, line, name))]
        if name == 'PyEval_RestoreThread':
            s.gil = True
            self.release(vals[0], args[0], s, ctx, line, name,
                         ('thread state',), False)
            return [(s, UNK)]
        if name in MALLOCS:
            v = self.alloc(s, 'malloc', ctx, line, name,
                           'init' if name == 'calloc' else 'stale')
            return [(s, v)]
        if name in FREES:
            self.release(vals[0], args[0], s, ctx, line, name,
                         ('malloc',), True)
            return [(s, UNK)]
        if name in MEMWRITE:
            self.useptr(args[0], vals[0], s, ctx, line, name)
            self.deref(vals[0], args[0], s, ctx, line, 'write')
            if name != 'memset':
                self.deref(vals[1], args[1], s, ctx, line, 'read')
            return [(s, vals[0])]
        if name in ('PyFloat_Check', 'PyLong_Check', 'PyDict_Check',
                    'PyArray_Check', 'PyObject_HasAttrString') \
                or CHECKS.search(name):
            for a, v in zip(args, vals):
                self.useptr(a, v, s, ctx, line, name)
            return [(s, UNK)]
        if name.startswith('PyArray_'):
            for a, v in zip(args[:1], vals):
                self.useptr(a, v, s, ctx, line, name)
            txt = self.dimtext(e)
            if txt:
                return [(s, ('dim', txt))]
            return [(s, NN if e.type.endswith('*') else UNK)]
        # unknown library function
        for a, v in zip(args, vals):
            if v[0] == 'addr':
                self.setvar(s, v[1], UNK)
            elif is_pyapi(name):
                self.useptr(a, v, s, ctx, line, name)
        return [(s, NN if e.type.endswith('*') else UNK)]

    def useptr(self, a, v, s, ctx, line, name):
        if not (strip(a).type or '').endswith('*') and v[0] != 'res':
            return
        if v == NULL and name not in ('PyCapsule_IsValid',):
            self.report('null-use', ctx[0], line,
                        f'`{show(a)}` is NULL on this path but is passed to '
                        f'{name}', show(a))
            s.dead = True
        if v[0] == 'res':
            r = s.res.get(v[1])
            if r and r[1] == 'freed':
                self.report('use-after-release', ctx[0], line,
                            f'`{show(a)}` is passed to {name} after it was '
                            f'released', show(a))

    def pyarg(self, name, e, args, vals, s, ctx):
        i = 2 if name.endswith('Tuple') else 4
        fmt = vals[1][1] if vals[1][0] == 'str' else ''
        bad = self.failed(s, e.line, f'{name} fails', ctx, True)
        ok = s.copy()
        units = parse_fmt(fmt)
        pos = 0
        va = args[i - 0:] if name.endswith('Tuple') else args[4:]
        va = args[2:] if name == 'PyArg_ParseTuple' else args[4:]
        vv = vals[2:] if name == 'PyArg_ParseTuple' else vals[4:]
        j = 0
        for u in units or []:
            if u in ('O!', 'O&'):
                j += 1
            if j < len(vv) and vv[j][0] == 'addr':
                if u[0] == 'O':
                    self.setvar(ok, vv[j][1], ('borrow',))
                elif u in ('i', 'p', 'l', 'n'):
                    self.setvar(ok, vv[j][1], ('arg', pos))
                else:
                    self.setvar(ok, vv[j][1], UNK)
            j += 1
            pos += 1
        return [(ok, ('const', 1)), (bad, ('const', 0))]

    def call_internal(self, f, e, args, vals, s, ctx):
        if self.tracked(f) and len(ctx[2]) < 6:
            had = s.fail
            outs = []
            for x, v, _ in self.run(f, s.copy(), vals, ctx[2] + (e.line,)):
                v = v if v is not None else UNK
                if self.is_status(f) and (v in (NZ, POS) or (v[0] == 'const' and
                                                         v[1] != 0)) \
                        and x.fail is None:
                    x = self.failed(x, e.line, f'{f.name} reports failure',
                                    ctx, False)
                outs.append((x, v))
            return outs
        sm = self.summary(f)
        s = s.copy()
        for i, (a, v) in enumerate(zip(args, vals)):
            if v[0] == 'addr':
                if i in sm['mod']:
                    self.setvar(s, v[1], UNK)
                continue
            if v == NULL and i in sm['mustuse']:
                self.report('null-use', ctx[0], e.line,
                            f'`{show(a)}` is NULL on this path but '
                            f'{f.name} dereferences it', show(a))
            if v[0] == 'res':
                r = s.res.get(v[1])
                if r and r[1] == 'freed':
                    self.report('use-after-release', ctx[0], e.line,
                                f'`{show(a)}` is passed to {f.name} after it '
                                f'was released', show(a))
                if i in sm['uread']:
                    self.deref(v, a, s, ctx, e.line, 'read')
                elif i in sm['mod']:
                    self.deref(v, a, s, ctx, e.line, 'write')
        return [(s, UNK)]

    def summary(self, f):
        """effect of an untracked function on its pointer parameters"""
        if f in self.summ:
            return self.summ[f]
        if f in self.summ_busy:
            return {'mod': set(range(len(f.params))), 'uread': set(),
                    'mustuse': set()}
        self.summ_busy.add(f)
        mod, mustuse = set(), set()
        idx = {p.id: i for i, p in enumerate(f.params)}
        for e in f.body.walk():
            if e.k == 'assign' or (e.k == 'un' and e.v.endswith(('++', '--'))):
                l = strip(e.a[0])
                if l.k != 'var':
                    v, _ = cfront.base_ptr(l)
                    if v is not None and v.id in idx:
                        mod.add(idx[v.id])
            if e.k == 'call' and e.a[0].k == 'fn':
                n = e.a[0].v
                if n in MEMWRITE:
                    v, _ = cfront.base_ptr(e.a[1])
                    if v is not None and v.id in idx:
                        mod.add(idx[v.id])
                g = self.prog.lookup(n, f.file)
                if g is not None:
                    gs = self.summary(g)
                    for i, a in enumerate(e.a[1:]):
                        v, _ = cfront.base_ptr(a)
                        if v is not None and v.id in idx and i in gs['mod']:
                            mod.add(idx[v.id])
            elif e.k == 'call':
                for a in e.a[1:]:
                    v, _ = cfront.base_ptr(a)
                    if v is not None and v.id in idx and \
                            (v.is_pointer or v.is_array):
                        mod.add(idx[v.id])
        st = State()
        argv = []
        for i, p in enumerate(f.params):
            if p.is_pointer or p.is_array:
                rid = ('param', f.name, i)
                st.res[rid] = ('param', 'live', 'stale')
                argv.append(('res', rid))
            else:
                argv.append(UNK)
        save, self.ureads = self.ureads, {}
        exits = self.run(f, st, argv)
        ur = {r[2] for r in self.ureads if r[0] == 'param' and r[1] == f.name}
        self.ureads = save
        self.check_exits(f, exits)
        self.summ[f] = {'mod': mod, 'uread': ur, 'mustuse': mustuse}
        self.summ_busy.discard(f)
        return self.summ[f]

    # -- exits -------------------------------------------------------------------
    def check_exits(self, f, exits, entry=False):
        for s, v, line in exits:
            self.stats['exits'] += 1
            if v is not None and v[0] == 'res':
                s = s.copy()
                self.escape(v, s)
            gl = {x for k, x in s.env.items() if k[0] == ''}
            for rid, (kind, status, _) in s.res.items():
                if kind in ('param', 'array'):
                    continue
                if (status == 'live' or isinstance(status, int)) and \
                        ('res', rid) not in gl:
                    fn = self.prog.funcs.get(rid[2])
                    self.report(
                        'leak', fn or f, rid[1][-1] if rid[1] else line,
                        f'the {kind} obtained from {rid[3]} at line '
                        f'{rid[1][-1]} (call path {"/".join(map(str, rid[1]))}'
                        f') is still held when {f.name} exits at line {line}',
                        f'{f.name}:{rid[2]}:{rid[3]}:{_slot(rid)}')
            if not s.gil:
                self.report('gil', f, line,
                            f'{f.name} returns with the GIL released', 'exit')
            if entry:
                null = v == NULL
                if null and not s.exc:
                    self.report('error-lost', f, line,
                                f'{f.name} returns NULL at line {line} '
                                f'without an exception set', f'noexc{_why(s)}')
                if not null and s.fail is not None:
                    self.report(
                        'error-lost', f, line,
                        f'{s.fail[2]} (in {s.fail[0]}, line {s.fail[1]}) but '
                        f'{f.name} still returns normally at line {line}',
                        f'{s.fail[0]}:{s.fail[2]}')
            elif self.is_status(f):
                if s.fail is not None and v == ('const', 0):
                    self.report(
                        'error-lost', f, line,
                        f'{s.fail[2]} (line {s.fail[1]}) but {f.name} returns '
                        f'0 (success) at line {line}', f'{s.fail[2]}')


def arith(op, a, b):
    """integer result of `a op b`"""
    if a[0] == 'const' and b[0] == 'const' and \
            type(a[1]) in (int, bool) and type(b[1]) in (int, bool) and \
            op in ('+', '-', '*', '|', '&', '^'):
        x, y = int(a[1]), int(b[1])
        r = {'+': x + y, '-': x - y, '*': x*y, '|': x | y, '&': x & y,
             '^': x ^ y}[op]
        return ('const', r) if abs(r) <= 4 else POS if r > 0 else UNK
    for x, y in ((a, b), (b, a)):
        if op in ('|', '+') and x in (('const', 0), ('const', False)) and \
                y[0] in ('const', 'nz', 'pos'):
            return y
        if op == '|' and (x in (NZ, POS) or x[0] == 'const' and x[1]):
            return NZ
        # counters of failures stay positive
        if op == '+' and x == POS and (
                y == POS or y[0] == 'const' and y[1] >= 0):
            return POS
    return UNK


def widen(v):
    return POS if v[0] == 'const' and v[1] > 0 else \
        UNK if v[0] == 'const' and v[1] < 0 else v


def _slot(rid):
    return len(rid[1])


def _why(s):
    return f':{s.fail[0]}:{s.fail[2]}' if s.fail else ''


def parse_fmt(fmt):
    units, i = [], 0
    fmt = re.split(r'[:;]', fmt)[0]
    while i < len(fmt):
        c = fmt[i]
        if c in '|$() ':
            i += 1
            continue
        u = c
        if i + 1 < len(fmt) and fmt[i + 1] in '!&#*':
            u += fmt[i + 1]
            i += 1
        units.append(u)
        i += 1
    return units


def entry_points(prog):
    """functions installed in method tables, and module init functions"""
    names = set()
    for v, init in prog.globals:
        if init is None or 'PyMethodDef' not in v.type:
            continue
        for e in init.walk():
            if e.k == 'fn':
                names.add(e.v)
    return [f for f in prog.by_file.values() if f.name in names]


def axioms_from_python():
    return []


def explore(axioms=()):
    prog = cfront.load()
    ex = Explorer(prog, axioms)
    entries = entry_points(prog)
    if not entries:
        raise AnalysisBroken('no Python entry point found in the C sources')
    for f in entries:
        st = State()
        exits = ex.run(f, st, [('borrow',)] * len(f.params))
        ex.check_exits(f, exits, entry=True)
    for f in list(prog.by_file.values()):
        if f in ex.stats['functions'] or f in ex.summ:
            continue
        if f.name.startswith(('PyInit', 'init_')):
            continue
        if ex.tracked(f):
            exits = ex.run(f, State(), [('parm', p.name) if
                                        (p.is_pointer) else UNK
                                        for p in f.params])
            ex.check_exits(f, exits)
        else:
            ex.summary(f)
    return ex, entries


if __name__ == '__main__':
    import time
    t = time.time()
    ex, en = explore([(11, 10)])
    for k, f in ex.findings.items():
        print(f)
    print({k: (len(v) if isinstance(v, set) else v)
           for k, v in ex.stats.items()}, time.time() - t)
    print({f.name: s for f, s in ex.summ.items()})
