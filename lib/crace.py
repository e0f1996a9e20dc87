"""OpenMP data-sharing analysis: inside every parallel region, which storage
is written, and is it private to the thread / iteration or synchronised?"""
import cfront
from cfront import strip, show, rel, base_ptr
from cpaths import is_pyapi, MEMWRITE

PROTECT = ('Atomic', 'Critical', 'Single', 'Master', 'Masked', 'Ordered')
NONREENTRANT = {'strtok', 'rand', 'srand', 'setlocale', 'localtime', 'gmtime',
                'asctime', 'ctime', 'setenv', 'putenv', 'random', 'drand48'}
THREADID = {'omp_get_thread_num'}


class Race:
    def __init__(self, prog, ex):
        self.prog = prog
        self.ex = ex
        self.findings = {}
        self.regions = 0
        self.inside = set()
        self.writes = 0
        self.calls = 0
        self.reach = set()
        self.sites = []
        self._mod = {}

    def report(self, rule, f, line, msg, subj):
        self.findings.setdefault(
            (rule, rel(f.file), f.name, subj),
            (rule, rel(f.file), f.name, line, msg))

    # parameters a function stores through, transitively
    def mod(self, f, busy=()):
        if f in self._mod:
            return self._mod[f]
        if f in busy:
            return set()
        out = set()
        idx = {p.id: i for i, p in enumerate(f.params)}
        # locals that alias a parameter
        alias = dict(idx)
        for _ in range(3):
            for e in f.body.walk():
                rhs = None
                if e.k == 'decl' and e.a:
                    v, rhs = e.v, e.a[0]
                elif e.k == 'assign' and strip(e.a[0]).k == 'var':
                    v, rhs = strip(e.a[0]).v, e.a[1]
                if rhs is not None and v.is_pointer:
                    b, _ = base_ptr(rhs)
                    if b is not None and b.id in alias:
                        alias[v.id] = alias[b.id]
        for e in f.body.walk():
            if e.k == 'assign' or (e.k == 'un' and e.v[-2:] in ('++', '--')):
                l = strip(e.a[0])
                if l.k != 'var':
                    v, _ = base_ptr(l)
                    if v is not None and v.id in alias:
                        out.add(alias[v.id])
            elif e.k == 'call':
                fn = strip(e.a[0])
                args = e.a[1:]
                if fn.k == 'fn':
                    g = self.prog.lookup(fn.v, f.file)
                    if g is not None:
                        m = self.mod(g, busy + (f,))
                    elif fn.v in MEMWRITE:
                        m = {0}
                    else:
                        m = set()
                else:
                    m = set(range(len(args)))
                for i in m:
                    if i < len(args):
                        v, _ = base_ptr(args[i])
                        if v is not None and v.id in alias and \
                                (v.is_pointer or v.is_array):
                            out.add(alias[v.id])
        self._mod[f] = out
        return out

    def run(self):
        for f in self.prog.by_file.values():
            for e in list(f.body.walk()):
                if e.k == 'omp' and (e.v.startswith('Parallel')):
                    self.region(f, e)
        return self

    def region(self, f, top, inside=None):
        """inside = (g, parameters that differ between iterations, parameters
        that point to shared memory): the body of g, called from the region"""
        private = set()
        local = set()
        loopvars = set()
        defs = {}
        steps = set()       # shared parameters advanced to the own slice

        def clause_vars(o):
            cl = o.extra[0]
            for c in ('private', 'firstprivate', 'lastprivate', 'reduction',
                      'linear', 'threadprivate'):
                for txt in cl.get(c, []):
                    txt = txt.split(':')[-1]
                    for w in txt.replace(' ', '').split(','):
                        private.add(w)

        def collect(e):
            if e.k == 'omp':
                clause_vars(e)
                if 'For' in e.v and e.a[0] is not None and e.a[0].k == 'for':
                    init = e.a[0].a[0]
                    if init is not None:
                        for x in init.walk():
                            if x.k == 'assign' and strip(x.a[0]).k == 'var':
                                loopvars.add(strip(x.a[0]).v.id)
                                break
                            if x.k == 'decl':
                                loopvars.add(x.v.id)
                                break
            if e.k == 'decl':
                local.add(e.v.id)
                if e.a:
                    defs.setdefault(e.v.id, []).append(e.a[0])
            if e.k == 'assign' and strip(e.a[0]).k == 'var':
                defs.setdefault(strip(e.a[0]).v.id, []).append(e.a[1])
            for c in e.a:
                if c is not None:
                    collect(c)
        if inside is None:
            self.regions += 1
            body = top.a[0]
            collect(top)
        else:
            g, differ, shared, _ = inside
            body = g.body
            for n, v in enumerate(g.params):
                if n in differ:
                    loopvars.add(v.id)
                if n not in shared:
                    local.add(v.id)
            collect(body)

        def is_private(v):
            if inside is not None and v.scope == 'param':
                return True         # passed by value
            return (v.id in local and not v.static) or v.id in loopvars or \
                (v.name in private and v.scope != 'global')

        # taint: does an expression depend on the work-sharing index?
        def per_iter(e, seen=()):
            e = strip(e)
            if e is None:
                return False
            if e.k == 'var':
                if e.v.id in loopvars:
                    return True
                if is_private(e.v) and e.v.id not in seen:
                    ds = defs.get(e.v.id, [])
                    return bool(ds) and any(per_iter(d, seen + (e.v.id,))
                                            for d in ds)
                return False
            if e.k == 'call':
                if e.a[0].k == 'fn' and e.a[0].v in THREADID:
                    return True
                return False
            if e.k == 'bin' and e.v in '%/&>>':
                return False
            return any(per_iter(c, seen) for c in e.a if c is not None)

        if inside is not None:
            for n in inside[2]:
                v = inside[0].params[n]
                if any(per_iter(d) for d in defs.get(v.id, [])):
                    steps.add(v.id)

        # where does a pointer expression point?
        def target(e, seen=()):
            """'private' / 'slice' / ('shared', var)"""
            v, offs = base_ptr(e)
            if v is None:
                ee = strip(e)
                if ee.k == 'call':
                    return 'private'
                if ee.k == 'cond':
                    for x in ee.a[1:]:
                        t = target(x, seen)
                        if t not in ('private', 'slice'):
                            return t
                return 'private'
            if any(per_iter(o) for _, o in offs):
                return 'slice'
            if v.id in steps:
                return 'slice'
            if inside is not None and v.scope in ('global', 'extern'):
                return 'private'    # see reachable()
            if v.is_array and not (inside is not None and
                                   v.scope == 'param'):
                return 'private' if is_private(v) else ('shared', v)
            if v.id in local or v.name in private:
                if v.id in seen:
                    return 'private'
                for d in defs.get(v.id, []):
                    ds = strip(d)
                    if ds.k in ('null', 'num'):
                        continue
                    t = target(d, seen + (v.id,))
                    if t not in ('private', 'slice'):
                        return t
                return 'private'
            if not (v.is_pointer or v.is_array):
                # &scalar
                return 'private' if is_private(v) else ('shared', v)
            return ('shared', v)

        atomically = {}

        def walk(e, prot, lhs=False):
            if e is None:
                return
            if e.k == 'omp':
                p = e.v if e.v.startswith(PROTECT) else prot
                for c in e.a:
                    walk(c, p)
                return
            if e.k == 'assign' or (e.k == 'un' and e.v[-2:] in ('++', '--')):
                l = strip(e.a[0])
                self.writes += 1
                if l.k == 'var':
                    if inside is not None:
                        pass
                    elif not is_private(l.v):
                        if prot:
                            atomically.setdefault(l.v.id, l.v)
                            self.sites.append(f'{rel(f.file)}:{e.line} write '
                                              f'of shared {l.v.name} under '
                                              f'omp {prot.lower()}')
                        else:
                            self.report(
                                'race', f, e.line,
                                f'`{l.v.name}` is shared by all threads of '
                                f'the parallel region at line {top.line} but '
                                f'is assigned without synchronisation '
                                f'(declared at line {l.v.line}, not private)',
                                l.v.name)
                else:
                    t = target(l)
                    if isinstance(t, tuple) and not prot:
                        self.report(
                            'race', f, e.line,
                            f'store through `{show(l)}` goes to memory of '
                            f'`{t[1].name}` that every thread shares: the '
                            f'address does not depend on the work-sharing '
                            f'loop variable', show(l))
            if e.k == 'call':
                self.call(f, e, prot, target, per_iter, top)
            for i, c in enumerate(e.a):
                if c is not None:
                    walk(c, prot)
        walk(body, inside[3] if inside is not None else None)
        if inside is not None:
            return

        # unsynchronised reads of storage that is written atomically
        def reads(e, prot, store=False):
            if e is None:
                return
            if e.k == 'omp':
                p = e.v if e.v.startswith(PROTECT) else prot
                for c in e.a:
                    reads(c, p)
                return
            if e.k == 'var' and e.v.id in atomically and not prot and \
                    not store:
                self.report('race', f, e.line,
                            f'`{e.v.name}` is written by other threads but '
                            f'read here without synchronisation',
                            'read ' + e.v.name)
            for i, c in enumerate(e.a):
                reads(c, prot, e.k == 'assign' and e.v == '=' and i == 0)
        if atomically:
            reads(top.a[0], None)

    def call(self, f, e, prot, target, per_iter, top):
        self.calls += 1
        fn = strip(e.a[0])
        args = e.a[1:]
        while fn.k == 'un':
            fn = strip(fn.a[0])
        if fn.k == 'fn':
            g = self.prog.lookup(fn.v, f.file)
            if g is not None:
                m = self.mod(g)
                self.reachable(g, top, f, e.line, prot)
            elif fn.v in MEMWRITE:
                m = {0}
            elif is_pyapi(fn.v) and not fn.v.startswith('PyArray_'):
                self.report('api-in-parallel', f, e.line,
                            f'Python API {fn.v} is called inside a parallel '
                            f'region', fn.v)
                m = set()
            elif fn.v in NONREENTRANT:
                self.report('race', f, e.line,
                            f'{fn.v} is not thread safe', fn.v)
                m = set()
            else:
                m = set()
        else:
            m = set(range(len(args)))
        given = set()
        for i in sorted(m):
            if i >= len(args):
                continue
            a = strip(args[i])
            v, _ = base_ptr(a)
            if v is None or not (v.is_pointer or v.is_array or a.k == 'un'):
                continue
            t = target(a)
            self.sites.append(f'{rel(f.file)}:{e.line} {show(fn)} writes '
                              f'argument {i + 1} `{show(a)}`: '
                              f'{t if isinstance(t, str) else "shared"}')
            if isinstance(t, tuple) and fn.k == 'fn' and \
                    self.prog.lookup(fn.v, f.file) is not None:
                given.add(i)        # decided where it writes
            elif isinstance(t, tuple) and not prot:
                self.report('race', f, e.line,
                            f'{show(fn)} writes through argument {i + 1} '
                            f'`{show(a)}`, memory of `{t[1].name}` that '
                            f'every thread shares',
                            f'{show(fn)}:{show(a)}')

        if given:
            g = self.prog.lookup(fn.v, f.file)
            inside = (g, frozenset(i for i, a in enumerate(args)
                                   if per_iter(a)), frozenset(given), prot)
            if inside not in self.inside:
                self.inside.add(inside)
                self.region(g, top, inside)

    def reachable(self, g, top, f, line, prot):
        if g in self.reach:
            return
        self.reach.add(g)

        def walk(e, prot):
            if e is None:
                return
            if e.k == 'omp':
                prot = e.v if e.v.startswith(PROTECT) else prot
            if e.k == 'assign' or (e.k == 'un' and e.v[-2:] in ('++', '--')):
                v, _ = base_ptr(strip(e.a[0]))
                if v is not None and not prot and \
                        (v.scope in ('global', 'extern') or v.static):
                    self.report('race', g, e.line,
                                f'`{v.name}` is shared by all threads and is '
                                f'assigned in {g.name}, which runs inside the '
                                f'parallel region at {rel(f.file)}:{top.line}',
                                v.name)
                self.writes += 1
            if e.k == 'call':
                fn = strip(e.a[0])
                if fn.k == 'fn':
                    h = self.prog.lookup(fn.v, g.file)
                    if h is not None:
                        self.reachable(h, top, f, line, prot)
                    elif is_pyapi(fn.v) and not fn.v.startswith('PyArray_'):
                        self.report('api-in-parallel', g, e.line,
                                    f'Python API {fn.v} is called inside a '
                                    f'parallel region', fn.v)
                    elif fn.v in NONREENTRANT:
                        self.report('race', g, e.line,
                                    f'{fn.v} is not thread safe', fn.v)
            for c in e.a:
                walk(c, prot)
        walk(g.body, prot)


if __name__ == '__main__':
    p = cfront.load()
    r = Race(p, None).run()
    for x in r.findings.values():
        print(x)
    print(r.regions, r.writes, r.calls, [g.name for g in r.reach])
    print('\n'.join(r.sites))
