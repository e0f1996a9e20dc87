"""Symbolic index bounds for the compiled extension.

Every subscript, memset and pointer argument in the functions reachable from
the Python entry point is turned into a polynomial in the array dimensions and
the enclosing loop variables; it must lie in [0, size) of the array it
addresses for every value of the dimensions, and what one work-sharing
iteration writes must stay inside that iteration's slice.
"""
import itertools
from fractions import Fraction

import cfront
from cfront import strip, show, rel, AnalysisBroken
from cpaths import parse_fmt, entry_points


class P(dict):
    """polynomial: {monomial (sorted tuple of symbols): coefficient}"""

    @staticmethod
    def c(n):
        return P({(): Fraction(n)}) if n else P()

    @staticmethod
    def s(name):
        return P({(name,): Fraction(1)})

    def __add__(a, b):
        r = P(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + c
            if r[m] == 0:
                del r[m]
        return r

    def __neg__(a):
        return P({m: -c for m, c in a.items()})

    def __sub__(a, b):
        return a + (-b)

    def __mul__(a, b):
        r = P()
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + c1*c2
                if r[m] == 0:
                    del r[m]
        return r

    def syms(self):
        return {x for m in self for x in m}

    def const(self):
        if not self:
            return 0
        if set(self) == {()}:
            c = self[()]
            return int(c) if c.denominator == 1 else c
        return None

    def subst(self, name, poly):
        r = P()
        for m, c in self.items():
            k = m.count(name)
            t = P({tuple(x for x in m if x != name): c})
            for _ in range(k):
                t = t*poly
            r = r + t
        return r

    def split(self, name):
        """self = a*name + b (linear), or None"""
        a, b = P(), P()
        for m, c in self.items():
            k = m.count(name)
            if k == 0:
                b[m] = c
            elif k == 1:
                l = list(m)
                l.remove(name)
                a[tuple(l)] = c
            else:
                return None
        return a, b

    def eval(self, env):
        t = Fraction(0)
        for m, c in self.items():
            v = c
            for x in m:
                v = v*env[x]
            t += v
        return t

    def __str__(self):
        if not self:
            return '0'
        out = []
        for m, c in sorted(self.items(), key=lambda x: (-len(x[0]), x[0])):
            t = '*'.join(m)
            cs = str(c)
            out.append(cs if not t else (t if c == 1 else f'{cs}*{t}'))
        return ' + '.join(out).replace('+ -', '- ')

    def __hash__(self):
        return hash(frozenset(self.items()))


N, NC, NQ, NS, NSC, M, ND, NG = (P.s(x) for x in (
    'n_atoms', 'n_cells', 'n_qpts', 'n_split', 'n_sc', 'n_images',
    'n_dipole_cells', 'n_gvecs'))
c = P.c
half = P({(): Fraction(1, 2)})
NE = half*N*(N + c(1))

# Layout of what the Python caller passes, by position in the argument tuple:
# (number of C elements, dims as read through PyArray_DIMS, content bound,
#  group): content bound is (lo, hi) for integer tables used as an index,
# group names an optional array that may have length zero.
ARGS = {
    1: (c(9), [c(3), c(3)], None, None),                    # cell vectors
    2: (c(9), [c(3), c(3)], None, None),                    # recip vectors
    3: (c(3)*NQ, [NQ, c(3)], None, None),                   # q-points
    4: (NS, [NS], (c(0), NQ - c(1)), None),                 # split indices
    5: (c(3)*NS, [NS, c(3)], None, None),                   # q directions
    6: (c(9)*NC*N*N, [NC, c(3)*N, c(3)*N], None, None),     # force constants
    7: (c(3)*NSC, [NSC, c(3)], None, None),                 # sc origins
    8: (c(18)*N*N, None, None, 'asr'),                      # ASR correction
    9: (c(9)*N*N, [c(3)*N, c(3)*N], None, None),            # mass weighting
    12: (c(3)*N*NQ, [NQ, c(3)*N], None, None),              # frequencies
    13: (c(18)*N*N*(NQ + c(1)), None, None, 'eigenvectors'),
    14: (c(18)*N*NQ, None, None, 'gradients'),
    15: (c(3)*NC*N*N*M, None, None, 'gradients'),           # all origins cart
}
NAMED = {
    '_n_sc_images': (NC*N*N, [NC, N, N], (c(0), M), None),
    '_sc_image_i': (NC*N*N*M, [NC, N, N, M], (c(0), NSC - c(1)), None),
    'cell_origins': (c(3)*NC, [NC, c(3)], None, None),
    '_born': (c(9)*N, [N, c(3), c(3)], None, None),
    '_dielectric': (c(9), [c(3), c(3)], None, None),
    'H_ab': (c(9)*ND*NE, [ND, NE, c(3), c(3)], None, None),
    'cells': (c(3)*ND, [ND, c(3)], None, None),
    'gvec_phases': (c(2)*NG*N, [NG, N], None, None),
    'gvecs_cart': (c(3)*NG, [NG, c(3)], None, None),
    'dipole_q0': (c(18)*N, [N, c(3), c(3)], None, None),
    'atom_r': (c(3)*N, [N, c(3)], None, None),
}
SCALARS = {'n_atoms': N}
SIZES = {'double': 8, 'int': 4, 'float': 4, 'char': 1, 'long': 8,
         'npy_intp': 8, 'Py_ssize_t': 8, 'size_t': 8}


class Arr:
    def __init__(self, name, size, dims=None, content=None, group=None,
                 kind='shared', elem=None):
        self.name, self.size, self.dims = name, size, dims
        self.content, self.group, self.kind = content, group, kind
        self.elem = elem
        self.cells = {}
        self.cleared = None     # elements zeroed from the start
        self.beyond = []        # reads past the zeroed part
        self.filled = False     # plain stores past the zeroed part


class Ptr:
    def __init__(self, arr, off, ok=False):
        self.arr, self.off = arr, off
        self.ok = ok        # made where the optional array is present

    def __eq__(a, b):
        return isinstance(b, Ptr) and a.arr is b.arr and a.off == b.off

    def __hash__(self):
        return id(self.arr)


class _Undef:
    """declared, no value yet"""


UNDEF = _Undef()


class PyObj:
    """PyObject variable holding the named thing"""
    def __init__(self, key):
        self.key = key

    def __eq__(a, b):
        return isinstance(b, PyObj) and a.key == b.key

    def __hash__(self):
        return hash(self.key)


class Pos:
    """truth of 'optional group is present'"""
    def __init__(self, group, neg=False):
        self.group, self.neg = group, neg


class Bounds:
    def __init__(self):
        self.prog = cfront.load()
        self.findings = {}
        self.proved = 0
        self.undecided = []
        self.partial = []
        self.accesses = set()
        self.slices = 0
        self.slice_ok = 0
        self.arrays = set()
        self.fresh = itertools.count()
        self.ranges = {}       # loop symbol -> (lo poly, hi poly inclusive)
        self.groups = set()
        self.ompvar = None
        self.calls = 0

    def report(self, rule, f, line, msg, subj):
        self.findings.setdefault((rule, rel(f.file), f.name, subj),
                                 (rule, rel(f.file), f.name, line, msg))

    # -- proof -------------------------------------------------------------
    def extreme(self, p, want):
        """max ('hi') / min ('lo') of p over the loop symbols; each step
        needs the sign of a coefficient, else None"""
        order = sorted((s for s in p.syms() if s in self.ranges),
                       key=lambda s: -self.ranges[s][2])
        while order:
            s = order[0]
            # forward difference over the loop's range
            d = p.subst(s, P.s(s) + c(1)) - p
            lo, hi, n = self.ranges[s]
            self.ranges[s] = (lo, hi - c(1), n)
            up, down = self.nonneg(d), False
            if not up:
                down = self.nonneg(-d)
            self.ranges[s] = (lo, hi, n)
            if up:
                t = self.ranges[s][1] if want == 'hi' else self.ranges[s][0]
            elif down:
                t = self.ranges[s][0] if want == 'hi' else self.ranges[s][1]
            else:
                return None
            p = p.subst(s, t)
            order = sorted((x for x in p.syms() if x in self.ranges),
                           key=lambda s: -self.ranges[s][2])
        return p

    def nonneg(self, p):
        """provably >= 0 for all dimensions >= 1 (after minimising loops)"""
        if any(s in self.ranges for s in p.syms()):
            p = self.extreme(p, 'lo')
            if p is None:
                return False
        for s in p.syms():
            p = p.subst(s, P.s(s) + c(1))
        return all(v >= 0 for v in p.values())

    def counterexample(self, p, negative):
        """dimension values and loop corner making p negative"""
        dims = sorted(self.alldims(p))
        for vals in itertools.product((1, 2, 3, 5), repeat=min(len(dims), 5)):
            env = dict(zip(dims, vals))
            if len(dims) > len(vals):
                return None
            w = self.corner(p, env)
            if w is not None:
                return {k: v for k, v in w.items()}
        return None

    def alldims(self, p):
        out, todo, seen = set(), list(p.syms()), set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if s in self.ranges:
                todo += list(self.ranges[s][0].syms() |
                             self.ranges[s][1].syms())
            else:
                out.add(s)
        return out

    def corner(self, p, env):
        loops, todo = set(), list(p.syms())
        while todo:
            s = todo.pop()
            if s in self.ranges and s not in loops:
                loops.add(s)
                todo += list(self.ranges[s][0].syms() |
                             self.ranges[s][1].syms())
        order = sorted(loops, key=lambda s: self.ranges[s][2])

        def go(i, env):
            if i == len(order):
                return env if p.eval(env) < 0 else None
            s = order[i]
            lo, hi = self.ranges[s][0].eval(env), self.ranges[s][1].eval(env)
            if hi < lo:
                return None
            lin = p.split(s) is not None
            for v in ({lo, hi} if lin else range(int(lo), int(hi) + 1)):
                r = go(i + 1, {**env, s: v})
                if r is not None:
                    return r
            return None
        return go(0, env)

    def check(self, f, line, ptr, idx, text, write=False, extent=None):
        """idx (or idx..idx+extent-1) inside the array of ptr"""
        arr = ptr.arr
        if arr is None or arr.size is None or idx is None:
            if arr is not None:
                self.undecided.append((rel(f.file), f.name, line, text))
            return
        self.arrays.add(arr.name)
        site = (f.name, line, text, arr.name)
        last = idx if extent is None else idx + extent - c(1)
        if arr.group and arr.group not in self.groups and \
                arr.kind == 'shared' and not ptr.ok:
            self.report('optional-array', f, line,
                        f'`{text}` touches {arr.name}, which may have length '
                        f'zero, without being guarded by a test of it', text)
        for q, what in ((idx, 'below the start'),
                        (arr.size - c(1) - last, 'past the end')):
            self.accesses.add(site)
            if self.nonneg(q):
                self.proved += 1
                continue
            w = self.counterexample(q, True)
            if w is not None:
                ws = ', '.join(f'{k.split("#")[0]}={int(v)}'
                               for k, v in sorted(w.items()))
                self.report('out-of-bounds', f, line,
                            f'`{text}` = {arr.name}[{last}] is {what} of '
                            f'{arr.name} (size {arr.size}) for {ws}',
                            f'{text}:{what}')
            else:
                self.undecided.append((rel(f.file), f.name, line, text))
        if arr.kind == 'private' and arr.cleared is not None:
            q = arr.cleared - c(1) - last
            if not self.nonneg(q):
                if write == 'plain':
                    arr.filled = True
                elif write is False and not arr.filled:
                    w = self.counterexample(q, True)
                    if w is not None:
                        arr.beyond.append((f, line, text, last))
                        self.partial.append(arr)
        if write and self.ompvar and arr.kind == 'shared':
            self.slices += 1
            sp = idx.split(self.ompvar)
            spl = last.split(self.ompvar)
            if sp is None or spl is None:
                return
            a, lo = sp
            hi = spl[1]
            if not a:
                return          # the data-sharing analysis reports this
            ok = True
            for q in (lo, a - c(1) - hi):
                if self.nonneg(q):
                    continue
                w = self.counterexample(q, True)
                if w is not None:
                    ok = False
                    ws = ', '.join(f'{k.split("#")[0]}={int(v)}'
                                   for k, v in sorted(w.items()))
                    self.report(
                        'slice-overlap', f, line,
                        f'`{text}`: iteration q owns elements [q*({a}), '
                        f'(q+1)*({a})) of {arr.name} but writes element '
                        f'q*({a}) + {hi}, which belongs to another '
                        f'iteration for {ws}', text)
            self.slice_ok += ok

    # -- entry ----------------------------------------------------------------
    def run(self):
        ents = entry_points(self.prog)
        if not ents:
            raise AnalysisBroken('no entry point in the C sources')
        for f in ents:
            self.block(f, f.body, {}, [])
        for arr in self.partial:
            f, line, text, last = arr.beyond[0]
            self.report('stale-part', f, line,
                        f'`{text}` reads element {last} of the per-thread '
                        f'buffer {arr.name} (size {arr.size}), but each '
                        f'iteration only zeroes its first {arr.cleared} '
                        f'elements: the rest is left from another q-point',
                        text)
        return self

    # -- statements -------------------------------------------------------------
    def assigned(self, e):
        out = {}
        for x in e.walk():
            if x.k == 'assign':
                l = strip(x.a[0])
                if l.k == 'var':
                    out.setdefault(l.v.id, []).append((x, l.v))
            elif x.k == 'un' and x.v[-2:] in ('++', '--'):
                l = strip(x.a[0])
                if l.k == 'var':
                    out.setdefault(l.v.id, []).append((x, l.v))
            elif x.k == 'un' and x.v == '&':
                l = strip(x.a[0])
                if l.k == 'var' and not l.v.is_array:
                    out.setdefault(l.v.id, []).append((x, l.v))
        return out

    def block(self, f, e, env, path):
        """returns False when control does not continue"""
        if e is None:
            return True
        k = e.k
        if k == 'block':
            e = self.desugar(e)
            for n, x in enumerate(e.a):
                if x is not None and x.k == 'if' and n + 1 < len(e.a):
                    # correlated alternatives: follow each branch through
                    # the rest of this block
                    alts = self.fork(f, x, env, path)
                    if alts is not None:
                        rest = cfront.E('block', None, e.a[n + 1:], e.line)
                        live = []
                        for e2, grp in alts:
                            save, self.groups = self.groups, grp
                            if self.block(f, rest, e2, path):
                                live.append(e2)
                            self.groups = save
                        if not live:
                            return False
                        env.update(live[0])
                        for e2 in live[1:]:
                            for k2 in set(env) | set(e2):
                                env[k2] = self.join(env.get(k2), e2.get(k2))
                        return True
                    continue
                if not self.block(f, x, env, path):
                    return False
            return True
        if k == 'decl':
            v = e.v
            if v.is_array:
                dims = [int(d) for d in _dims(v.type)]
                sz = 1
                for d in dims:
                    sz *= d
                a = Arr(v.name, c(sz) if dims else None, kind='local')
                if e.a and e.a[0].k == 'init':
                    for i, x in enumerate(e.a[0].a):
                        a.cells[i] = self.ev(f, x, env)
                env[v.id] = Ptr(a, c(0))
            else:
                env[v.id] = self.ev(f, e.a[0], env) if e.a else UNDEF
            return True
        if k == 'expr':
            self.ev(f, e.a[0], env)
            return True
        if k == 'omp':
            return self.block(f, e.a[0], env, path) if not (
                'For' in e.v and e.a[0].k == 'for') else \
                self.loop(f, e.a[0], env, path, True)
        if k == 'if':
            return self.branch(f, e, env, path)
        if k == 'for':
            return self.loop(f, e, env, path)
        if k in ('while', 'do', 'switch'):
            for vid in self.assigned(e):
                env[vid] = None
            for x in e.a:
                if x is not None and x.k in ('block', 'if', 'expr', 'for'):
                    self.block(f, x, env, path)
                elif x is not None and k != 'switch':
                    self.ev(f, x, env)
            for vid in self.assigned(e):
                env[vid] = None
            return True
        if k == 'label':
            return self.block(f, e.a[0], env, path)
        if k == 'return':
            if e.a and e.a[0] is not None:
                env['ret'] = self.ev(f, e.a[0], env)
            return False
        if k in ('goto', 'break', 'continue'):
            return False
        return True

    def desugar(self, e):
        """`x = c ? a : b;` as the if statement it stands for"""
        E = cfront.E
        out, todo = [], []
        for x in e.a:           # a declaration statement is a block of them
            todo += x.a if x is not None and x.k == 'block' and x.a and all(
                y is not None and y.k == 'decl' for y in x.a) else [x]
        for x in todo:
            if x is not None and x.k == 'decl' and not x.v.is_array and \
                    x.a and x.a[0] is not None:
                t = strip(x.a[0])
                if t.k == 'cond' and not flag(t):
                    out.append(E('decl', x.v, [], x.line))
                    l = E('var', x.v, [], x.line)
                    x = E('expr', None, [E('assign', '=', [l, t], x.line)],
                          x.line)
            if x is not None and x.k == 'expr':
                a = strip(x.a[0])
                if a.k == 'assign' and strip(a.a[0]).k == 'var':
                    t = strip(a.a[1])
                    if t.k == 'cond' and not flag(t):
                        x = E('if', None, [t.a[0]] + [
                            E('expr', None, [E('assign', a.v, [a.a[0], y],
                                               x.line)], x.line)
                            for y in t.a[1:]], x.line)
            out.append(x)
        return E(e.k, e.v, out, e.line)

    def guards(self, f, e, env, truth):
        """optional groups known present when e has this truth value"""
        e = strip(e)
        if e.k == 'un' and e.v == '!':
            return self.guards(f, e.a[0], env, not truth)
        if e.k == 'bin' and ((e.v == '&&' and truth) or
                             (e.v == '||' and not truth)):
            return self.guards(f, e.a[0], env, truth) | \
                self.guards(f, e.a[1], env, truth)
        if e.k == 'bin' and e.v in ('>', '!=', '>=', '==', '<', '<='):
            a, b = self.ev(f, e.a[0], env), self.ev(f, e.a[1], env)
            if isinstance(b, Pos):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(e.v, e.v)
            else:
                op = e.v
            if isinstance(a, Pos) and isinstance(b, P) and \
                    b.const() in (0, 1):
                z = b.const()
                if (op, z) in (('>', 0), ('!=', 0), ('>=', 1)):
                    pos = truth
                elif (op, z) in (('==', 0), ('<=', 0), ('<', 1)):
                    pos = not truth
                else:
                    return set()
                return {a.group} if pos != a.neg else set()
            return set()
        v = self.ev(f, e, env)
        if isinstance(v, Pos):
            return {v.group} if truth != v.neg else set()
        return set()

    def fork(self, f, e, env, path):
        """[(env, groups)] when the branches must be kept apart; otherwise
        executes the branch into env and returns None"""
        r = self.branch(f, e, env, path, True)
        if isinstance(r, list):
            return r
        return None if r else []

    def branch(self, f, e, env, path, fork=False):
        cond, yes, no = e.a
        self.ev(f, cond, env)
        # walker: `if (is_gamma(...)) { p += k; }` keeps both alternatives
        e1, e2 = dict(env), dict(env)
        save = set(self.groups)
        self.groups = save | self.guards(f, cond, env, True)
        c1 = self.block(f, yes, e1, path)
        self.mark(e1)
        self.groups = save | self.guards(f, cond, env, False)
        c2 = self.block(f, no, e2, path) if no is not None else True
        self.mark(e2)
        self.groups = save
        if c1 and not c2:
            self.groups = save | self.guards(f, cond, env, True)
            env.update(e1)
        elif c2 and not c1:
            self.groups = save | self.guards(f, cond, env, False)
            env.update(e2)
        elif c1 and c2:
            if fork and any(isinstance(self.join(e1.get(k), e2.get(k)), list)
                            and not isinstance(env.get(k), list)
                            for k in set(e1) | set(e2)):
                return [(e1, save | self.guards(f, cond, env, True)),
                        (e2, save | self.guards(f, cond, env, False))]
            for k in set(e1) | set(e2):
                env[k] = self.join(e1.get(k), e2.get(k))
        return c1 or c2

    def mark(self, env):
        for k, v in env.items():
            if isinstance(v, Ptr) and v.arr is not None and \
                    v.arr.group in self.groups and v.arr.group:
                env[k] = Ptr(v.arr, v.off, True)

    def join(self, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a is b or (type(a) is type(b) and not isinstance(a, (Pos, list))
                      and a == b):
            return a
        alts = []
        for x in (a, b):
            alts += x if isinstance(x, list) else [x]
        alts = [x for x in alts if x is not None]
        if alts and len(alts) <= 4:
            if (a is None) != (b is None) and isinstance(alts[0], P):
                return None
            u = []
            for x in alts:
                if not any(type(x) is type(y) and x == y for y in u):
                    u.append(x)
            return u if len(u) > 1 else u[0]
        return None

    def loop(self, f, e, env, path, omp=False):
        init, cond, inc, body = e.a
        if init is not None:
            self.block(f, init, env, path)
        var, before, after = None, [], []
        conj = self.conjuncts(cond)
        for ci, cj in enumerate(conj):
            var = self.loopvar(cj, inc)
            if var is not None:
                before, after = conj[:ci], conj[ci + 1:]
                break
        if cond is not None and var is None:
            self.ev(f, cond, env)
        touched = self.assigned(body)
        if var is None:
            for vid in touched:
                env[vid] = None
            for x in (inc,):
                if x is not None:
                    for vid in self.assigned(x):
                        env[vid] = None
            self.block(f, body, env, path)
            for vid in touched:
                env[vid] = None
            return True
        vid, hi_e, incl = var
        lo = env.get(vid)
        hi = self.ev(f, hi_e, env)
        if isinstance(lo, P) and (isinstance(hi, P) or
                                  isinstance(hi, list)):
            his = hi if isinstance(hi, list) else [hi]
            sub = (c(0) if incl else c(1))
            # alternatives for the bound: use an upper one if provable
            h = his[0]
            for x in his[1:]:
                if self.nonneg(x - h):
                    h = x
            if before:      # also evaluated once the bound is reached
                nm = f'{self.name(e, vid)}#{next(self.fresh)}'
                self.ranges[nm] = (lo, h - sub + c(1), len(self.ranges))
                env[vid] = P.s(nm)
                for x in before:
                    self.ev(f, x, env)
            name = f'{self.name(e, vid)}#{next(self.fresh)}'
            self.ranges[name] = (lo, h - sub, len(self.ranges))
            env[vid] = P.s(name)
            for x in after:
                self.ev(f, x, env)
            trip = h - sub - lo + c(1)
        else:
            env[vid] = None
            name, trip = None, None
        # pointer walkers: only ever ++ by one per execution
        walkers = {}
        for tid, sites in touched.items():
            if tid == vid:
                continue
            cur = env.get(tid)
            if isinstance(cur, Ptr) and all(
                    s.k == 'un' and s.v in ('post++', 'pre++')
                    for s, _ in sites):
                per = self.count(f, body, tid, env)
                walkers[tid] = (cur, per)
            elif isinstance(cur, P) and all(
                    s.k == 'un' and s.v[-2:] in ('++',) for s, _ in sites):
                env[tid] = None
            else:
                env[tid] = None
        saved = dict(env)
        for tid, (cur, per) in walkers.items():
            if per is None or name is None or before or after:
                env[tid] = None
                continue
            # steps before iteration v: sum over previous iterations
            steps = self.sum(per, name, self.ranges[name][0],
                             P.s(name) - c(1))
            env[tid] = Ptr(cur.arr, cur.off + steps, cur.ok) if steps is not None \
                else None
        old = self.ompvar
        if omp:
            self.ompvar = name
        self.block(f, body, env, path)
        self.ompvar = old
        for tid in touched:
            env[tid] = None
        for tid, (cur, per) in walkers.items():
            if per is not None and name is not None and \
                    not (before or after):
                steps = self.sum(per, name, self.ranges[name][0],
                                 self.ranges[name][1])
                if steps is not None:
                    env[tid] = Ptr(cur.arr, cur.off + steps, cur.ok)
        env[vid] = None
        return True

    def name(self, e, vid):
        for x in e.walk():
            if x.k == 'var' and x.v.id == vid:
                return x.v.name
            if x.k == 'decl' and x.v.id == vid:
                return x.v.name
        return 'i'

    def count(self, f, body, tid, env):
        """how many times the walker is incremented in one run of body, as a
        polynomial (may mention this loop's symbol and outer ones)"""
        def go(e, env):
            if e is None:
                return P()
            if e.k == 'for':
                init, cond, inc, b = e.a
                var = self.loopvar(cond, inc)
                if not any(True for x in e.walk() if x.k == 'un' and
                           x.v.endswith('++') and strip(x.a[0]).k == 'var'
                           and strip(x.a[0]).v.id == tid):
                    return P()
                if var is None:
                    return None
                env2 = dict(env)
                lo = None
                if init is not None:
                    for x in init.walk():
                        if x.k == 'assign':
                            lo = self.pure(f, x.a[1], env2)
                        elif x.k == 'decl' and x.a:
                            lo = self.pure(f, x.a[0], env2)
                hi = self.pure(f, var[1], env2)
                if not isinstance(lo, P) or not isinstance(hi, P):
                    return None
                hi = hi if var[2] else hi - c(1)
                nm = f'w#{next(self.fresh)}'
                self.ranges[nm] = (lo, hi, len(self.ranges))
                env2[var[0]] = P.s(nm)
                per = go(b, env2)
                if per is None:
                    return None
                return self.sum(per, nm, lo, hi)
            if e.k == 'if':
                if any(x.k == 'un' and strip(x.a[0]).k == 'var' and
                       strip(x.a[0]).v.id == tid for x in e.walk()
                       if x.k == 'un' and x.v.endswith('++')):
                    return None
                return P()
            if e.k == 'un' and e.v.endswith('++') and \
                    strip(e.a[0]).k == 'var' and strip(e.a[0]).v.id == tid:
                return c(1)
            t = P()
            for x in e.a:
                if x is not None:
                    y = go(x, env)
                    if y is None:
                        return None
                    t = t + y
            return t
        return go(body, env)

    def sum(self, per, name, lo, hi):
        """sum of per over name = lo..hi (degree <= 2)"""
        out = P()
        n = hi - lo + c(1)
        groups = {}
        for m, k in per.items():
            d = m.count(name)
            rest = tuple(x for x in m if x != name)
            groups.setdefault(d, P())
            groups[d] = groups[d] + P({rest: k})
        for d, coef in groups.items():
            if d == 0:
                out = out + coef*n
            elif d == 1:
                out = out + coef*(half*n*(lo + hi))
            elif d == 2:
                def sq(x):      # sum_{0..x} i^2
                    return P({(): Fraction(1, 6)})*x*(x + c(1))*(
                        c(2)*x + c(1))
                out = out + coef*(sq(hi) - sq(lo - c(1)))
            else:
                return None
        return out

    def conjuncts(self, e):
        if e is None:
            return []
        t = strip(e)
        if t.k == 'bin' and t.v == '&&':
            return self.conjuncts(t.a[0]) + self.conjuncts(t.a[1])
        return [t]

    def loopvar(self, cond, inc):
        """(var id, bound expr, inclusive) of `v < b; v++`"""
        if cond is None or inc is None:
            return None
        cond, inc = strip(cond), strip(inc)
        if cond.k != 'bin' or cond.v not in ('<', '<=', '>', '>='):
            return None
        l, r, op = strip(cond.a[0]), strip(cond.a[1]), cond.v
        if op in ('>', '>='):
            l, r, op = r, l, {'>': '<', '>=': '<='}[op]
        if l.k != 'var':
            return None
        ok = inc.k == 'un' and inc.v in ('post++', 'pre++') and \
            strip(inc.a[0]).k == 'var' and strip(inc.a[0]).v.id == l.v.id
        ok = ok or (inc.k == 'assign' and inc.v == '+=' and
                    strip(inc.a[0]).k == 'var' and
                    strip(inc.a[0]).v.id == l.v.id and
                    strip(inc.a[1]).k == 'num' and strip(inc.a[1]).v == 1)
        return (l.v.id, r, op == '<=') if ok else None

    def pure(self, f, e, env):
        save = (self.findings, self.proved, self.undecided, self.accesses,
                self.slices, self.slice_ok)
        self.findings, self.undecided, self.accesses = {}, [], set()
        v = self.ev(f, e, dict(env))
        (self.findings, self.proved, self.undecided, self.accesses,
         self.slices, self.slice_ok) = save
        return v

    # -- expressions --------------------------------------------------------------
    def ev(self, f, e, env):
        if e is None:
            return None
        k = e.k
        if k == 'num':
            return c(e.v) if isinstance(e.v, int) else None
        if k == 'cast':
            v = self.ev(f, e.a[0], env)
            if isinstance(v, Ptr) and v.arr.elem == 'bytes' and \
                    e.v.endswith('*'):
                sz = SIZES.get(e.v.rstrip('* ').replace('const ', ''))
                if sz:
                    return Ptr(Arr(v.arr.name, _div(v.arr.size, sz),
                                   kind='private'), c(0))
            return v
        if k == 'var':
            v = env.get(e.v.id)
            return None if v is UNDEF else v
        if k == 'sizeof':
            s = SIZES.get((e.v or '').replace('const ', ''))
            return c(s) if s else None
        if k == 'un':
            return self.unary(f, e, env)
        if k == 'bin':
            a, b = self.ev(f, e.a[0], env), self.ev(f, e.a[1], env)
            return self.arith(e, a, b)
        if k == 'assign':
            return self.assign(f, e, env)
        if k == 'cond':
            a, b = (self.ev(f, x, env) for x in e.a[1:])
            g = self.guards(f, e.a[0], env, True)
            self.ev(f, e.a[0], env)
            if len(g) == 1 and isinstance(a, P) and isinstance(b, P) and \
                    a.const() == 1 and b.const() == 0:
                return Pos(next(iter(g)))
            g = self.guards(f, e.a[0], env, False)
            if len(g) == 1 and isinstance(a, P) and isinstance(b, P) and \
                    a.const() == 0 and b.const() == 1:
                return Pos(next(iter(g)))
            return self.join(a, b)
        if k == 'idx':
            return self.load(f, e, env)
        if k == 'call':
            return self.call(f, e, env)
        for x in e.a:
            if x is not None:
                self.ev(f, x, env)
        return None

    def arith(self, e, a, b):
        op = e.v
        la = a if isinstance(a, list) else [a]
        lb = b if isinstance(b, list) else [b]
        if len(la) > 1 or len(lb) > 1:
            out = []
            for x in la:
                for y in lb:
                    r = self.arith(e, x, y)
                    if r is None:
                        return None
                    if not any(type(r) is type(z) and r == z for z in out):
                        out.append(r)
            return out if len(out) > 1 else out[0]
        if isinstance(a, P) and isinstance(b, P):
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a*b
            return None
        if isinstance(a, Ptr) and op in '+-':
            return Ptr(a.arr, a.off + (b if op == '+' else -b), a.ok) \
                if isinstance(b, P) and a.off is not None else \
                Ptr(a.arr, None, a.ok)
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.arr, b.off + a, b.ok) if isinstance(a, P) and \
                b.off is not None else Ptr(b.arr, None, b.ok)
        if op in ('>', '!=', '<', '==', '>=', '<='):
            x, y, o = a, b, op
            if isinstance(y, Pos):
                x, y = y, x
                o = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(o, o)
            if isinstance(x, Pos) and isinstance(y, P) and \
                    y.const() in (0, 1):
                z = y.const()
                if (o, z) in (('>', 0), ('!=', 0), ('>=', 1)):
                    return Pos(x.group, x.neg)
                if (o, z) in (('==', 0), ('<=', 0), ('<', 1)):
                    return Pos(x.group, not x.neg)
        return None

    def unary(self, f, e, env):
        op = e.v
        t = strip(e.a[0])
        if op == '*':
            for p in self.alts(self.ev(f, t, env)):
                if isinstance(p, Ptr) and p.off is not None:
                    self.check(f, e.line, p, p.off, show(e))
            return None
        if op == '&':
            if t.k == 'idx':
                v = self.ev(f, t.a[0], env)
                i = self.ev(f, t.a[1], env)
                if isinstance(v, Ptr) and isinstance(i, P) and \
                        v.off is not None:
                    return Ptr(v.arr, v.off + i, v.ok)
                return None
            return None
        if op in ('post++', 'pre++', 'post--', 'pre--'):
            d = c(1) if op.endswith('++') else c(-1)
            if t.k == 'var':
                v = env.get(t.v.id)
                if isinstance(v, P):
                    env[t.v.id] = v + d
                elif isinstance(v, Ptr) and v.off is not None:
                    env[t.v.id] = Ptr(v.arr, v.off + d, v.ok)
                elif isinstance(v, list):
                    env[t.v.id] = None if not all(
                        isinstance(x, P) for x in v) else [x + d for x in v]
                return v
            self.ev(f, t, env)
            return None
        v = self.ev(f, t, env)
        if op == '-' and isinstance(v, P):
            return -v
        if op == '!' and isinstance(v, Pos):
            return Pos(v.group, not v.neg)
        return None

    def alts(self, v):
        return v if isinstance(v, list) else [v]

    def load(self, f, e, env, write=False):
        b = self.ev(f, e.a[0], env)
        i = self.ev(f, e.a[1], env)
        if isinstance(b, tuple) and b[0] == 'dims':
            n = i.const() if isinstance(i, P) else None
            arr = b[1]
            if arr is None:
                return None
            if arr.group and n == 0:
                return Pos(arr.group)
            if arr.dims and isinstance(n, int) and 0 <= n < len(arr.dims):
                return arr.dims[n]
            if arr.dims and isinstance(n, int):
                self.report('out-of-bounds', f, e.line,
                            f'dimension {n} of {arr.name} does not exist '
                            f'(it has {len(arr.dims)})', show(e))
            return None
        res = None
        for p in self.alts(b):
            if not isinstance(p, Ptr):
                continue
            for ii in self.alts(i):
                off = p.off + ii if p.off is not None and \
                    isinstance(ii, P) else None
                self.check(f, e.line, p, off, show(e), write)
                if p.arr.content and not write:
                    lo, hi = p.arr.content
                    nm = f'{p.arr.name}[..]#{next(self.fresh)}'
                    self.ranges[nm] = (lo, hi, len(self.ranges))
                    res = P.s(nm)
                elif p.arr.cells and off is not None and \
                        off.const() in p.arr.cells:
                    res = p.arr.cells[off.const()]
        return res

    def assign(self, f, e, env):
        l = strip(e.a[0])
        v = self.ev(f, e.a[1], env)
        if l.k == 'var':
            if e.v == '=':
                env[l.v.id] = v
            else:
                old = env.get(l.v.id)
                fake = cfront.E('bin', e.v[:-1], e.a)
                env[l.v.id] = self.arith(fake, old, v)
            return v
        if l.k == 'idx':
            if e.v != '=':
                self.load(f, l, env)
            b = self.ev(f, l.a[0], env)
            self.load(f, l, env, 'plain' if e.v == '=' else True)
            i = self.ev(f, l.a[1], env)
            if isinstance(b, Ptr) and b.arr.kind == 'local':
                k = i.const() if isinstance(i, P) else None
                if isinstance(v, P) and k is not None and e.v == '=':
                    b.arr.cells[k] = v
                else:
                    b.arr.cells = {}
            return v
        if l.k == 'un' and l.v == '*':
            for p in self.alts(self.ev(f, l.a[0], env)):
                if isinstance(p, Ptr) and p.off is not None:
                    self.check(f, e.line, p, p.off, show(l), True)
            return v
        return v

    # -- calls ---------------------------------------------------------------------
    def call(self, f, e, env):
        fn = strip(e.a[0])
        while fn.k == 'un':
            fn = strip(fn.a[0])
        args = e.a[1:]
        if fn.k != 'fn':
            vals = [self.ev(f, a, env) for a in args]
            self.lapack(f, e, args, vals, env)
            return None
        name = fn.v
        if name == 'PyArg_ParseTuple':
            units = parse_fmt(strip(args[1]).v if strip(args[1]).k == 'str'
                              else '')
            j = 2
            for pos, u in enumerate(units):
                if u in ('O!', 'O&'):
                    j += 1
                if j < len(args):
                    t = strip(args[j])
                    if t.k == 'un' and t.v == '&' and strip(t.a[0]).k == 'var':
                        env[strip(t.a[0]).v.id] = PyObj(('arg', pos))
                j += 1
            return None
        g = self.prog.lookup(name, f.file)
        strs = [strip(a).v for a in args if strip(a).k == 'str']
        outs = [strip(strip(a).a[0]).v for a in args
                if strip(a).k == 'un' and strip(a).v == '&' and
                strip(strip(a).a[0]).k == 'var']
        if g is not None and strs and len(outs) == 1:
            # attribute / key reader helper
            key = strs[0]
            env[outs[0].id] = SCALARS[key] if key in SCALARS else \
                PyObj(('name', key))
            return None
        if name in ('PyObject_GetAttrString', 'PyDict_GetItemString'):
            return PyObj(('name', strs[0])) if strs else None
        if name in ('PyArray_DATA', 'PyArray_BYTES', 'PyArray_DIMS',
                    'PyArray_SHAPE', 'PyArray_DIM'):
            o = self.ev(f, args[0], env)
            arr = self.lookup(o)
            if name == 'PyArray_DIM':
                fake = cfront.E('idx', None, [cfront.E('other'), args[1]],
                                e.line)
                n = self.ev(f, args[1], env)
                n = n.const() if isinstance(n, P) else None
                if arr is not None and arr.group and n == 0:
                    return Pos(arr.group)
                if arr is not None and arr.dims and isinstance(n, int) and \
                        n < len(arr.dims):
                    return arr.dims[n]
                return None
            if name in ('PyArray_DIMS', 'PyArray_SHAPE'):
                return ('dims', arr)
            return Ptr(arr, c(0)) if arr is not None else None
        vals = [self.ev(f, a, env) for a in args]
        if name in ('malloc', 'calloc'):
            n = vals[0] if name == 'malloc' else (
                vals[0]*vals[1] if all(isinstance(v, P) for v in vals)
                else None)
            if isinstance(n, P):
                return Ptr(Arr(f'{name}@{f.name}', n, elem='bytes',
                               kind='private'), c(0))
            return None
        if name in ('memset', 'memcpy', 'memmove'):
            esz = self.esize(args[0])
            n = vals[-1]
            if isinstance(n, P) and esz:
                ext = _div(n, esz)
                for i in ([0] if name == 'memset' else [0, 1]):
                    for p in self.alts(vals[i]):
                        if isinstance(p, Ptr) and p.off is not None:
                            self.check(f, e.line, p, p.off, show(e),
                                       'plain' if i == 0 else False, ext)
                            if name == 'memset' and self.ompvar and \
                                    p.arr.kind == 'private' and not p.off:
                                p.arr.cleared = ext
            return None
        if g is not None:
            return self.inline(f, e, g, args, vals)
        for a in args:
            t = strip(a)
            if t.k == 'un' and t.v == '&' and strip(t.a[0]).k == 'var' and \
                    not strip(t.a[0]).v.is_array:
                env[strip(t.a[0]).v.id] = None
        return None

    def lapack(self, f, e, args, vals, env):
        """zheevd(jobz, uplo, n, a, lda, w, ...)"""
        def pointee(a):
            t = strip(a)
            if t.k == 'un' and t.v == '&' and strip(t.a[0]).k == 'var':
                return env.get(strip(t.a[0]).v.id)
            return None
        if len(args) == 13:
            n, lda = pointee(args[2]), pointee(args[4])
            if isinstance(n, P) and isinstance(lda, P):
                for p in self.alts(vals[3]):
                    if isinstance(p, Ptr) and p.off is not None:
                        self.check(f, e.line, p, p.off, show(args[3]),
                                   True, c(2)*n*lda)
                for p in self.alts(vals[5]):
                    if isinstance(p, Ptr) and p.off is not None:
                        self.check(f, e.line, p, p.off, show(args[5]),
                                   True, n)
        for a in args:
            t = strip(a)
            if t.k == 'un' and t.v == '&' and strip(t.a[0]).k == 'var':
                v = strip(t.a[0]).v
                if v.name not in ('n',) and not v.is_array and \
                        len(args) == 13 and args.index(a) not in (0, 1, 2, 4):
                    env[v.id] = None

    depth = 0

    def inline(self, f, e, g, args, vals):
        self.calls += 1
        if self.depth > 6:
            return None
        outs = []
        lists = [self.alts(v) for v in vals]
        combos = list(itertools.islice(itertools.product(*lists), 8))
        for combo in combos:
            env = {}
            for p, v in zip(g.params, combo):
                if p.is_array and not isinstance(v, Ptr):
                    v = None
                env[p.id] = v
            self.depth += 1
            self.block(g, g.body, env, [])
            self.depth -= 1
            outs.append(env.get('ret'))
        return outs[0] if len(outs) == 1 else None

    def esize(self, e):
        e = strip(e)
        t = e.type or ''
        if e.k == 'var':
            t = e.v.type
        elif e.k == 'bin':
            return self.esize(e.a[0])
        t = t.split('[')[0].replace('const ', '').rstrip('* ')
        return SIZES.get(t)

    def lookup(self, o):
        if not isinstance(o, PyObj):
            return None
        kind, key = o.key
        ent = ARGS.get(key) if kind == 'arg' else NAMED.get(key)
        if ent is None:
            return None
        size, dims, content, group = ent
        nm = f'argument {key}' if kind == 'arg' else key
        ck = (kind, key)
        if ck not in self._arrs:
            self._arrs[ck] = Arr(nm, size, dims, content, group)
        return self._arrs[ck]

    @property
    def _arrs(self):
        return self.__dict__.setdefault('_arrmap', {})


def flag(t):
    """c ? 1 : 0 of a comparison: a truth value, not a choice"""
    a, b = (strip(x) for x in t.a[1:])
    return a.k == b.k == 'num' and {a.v, b.v} == {0, 1} and \
        strip(t.a[0]).k == 'bin'


def _dims(t):
    import re
    return re.findall(r'\[(\d+)\]', t)


def _div(p, n):
    return P({m: v/n for m, v in p.items()})


if __name__ == '__main__':
    import time
    t = time.time()
    b = Bounds().run()
    for x in b.findings.values():
        print('Finding', x)
    print(len(b.accesses), b.proved, 'undecided', len(set(b.undecided)),
          b.slices, b.slice_ok, b.arrays, time.time() - t)
    for u in sorted(set(b.undecided)):
        print(u)
