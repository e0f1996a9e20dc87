"""P16, P18: what each result depends on."""
import functools
import json
import multiprocessing
import os
import re
import time

from av import Const, Top, Meth, Ext, Ref, Tup, alts, E
from core import Result
from driver import Driver

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def flat(deps):
    """parameter and attribute names in a set of dependences"""
    out = set()
    for d in deps:
        while isinstance(d, tuple):
            d = d[1]
        if isinstance(d, str):
            out.add(d)
    return out


def components(it, v, s, out, pre='', objs=None):
    """provenance of each part of v; objs collects that of each object v may
    be, separately"""
    for a in alts(v):
        if isinstance(a, Tup):
            for i, b in enumerate(a.items):
                components(it, b, s, out, f'{pre}[{i}]', objs)
            continue
        c = it.cell(a, s)
        if c is not None and c.kind in ('obj', 'dict'):
            mine = {}
            for k, x in c.attrs.items():
                mine.setdefault(f'{pre}.{k}', set()).update(
                    flat(it.deps_of(x, s)))
            if c.elem is not None:
                mine.setdefault(f'{pre}.*', set()).update(
                    flat(it.deps_of(c.elem, s)))
            if a.deps and isinstance(a, Ref):
                for k in c.attrs:
                    mine[f'{pre}.{k}'].update(flat(a.deps))
            for k, x in mine.items():
                out.setdefault(k, set()).update(x)
            if objs is not None and c.kind == 'obj':
                objs.append(mine)
        elif c is not None and c.kind == 'list' and not pre and \
                any(k is not None and k.kind == 'obj' for x in
                    list(c.items or ()) + [c.elem] if x is not None
                    for k in [it.cell(y, s) for y in alts(x)]):
            for x in list(c.items or ()) + [c.elem]:
                if x is not None:
                    components(it, x, s, out, f'{pre}[]', objs)
        else:
            out.setdefault(pre, set()).update(flat(it.deps_of(a, s)))


def work(tasks):
    t0 = time.time()
    t1 = [t0]
    results = []
    sink = set()

    def on_ext(it, f, args, kw, st, node):
        if isinstance(f, Meth) and isinstance(f.obj, Top) and \
                f.obj.typ not in ('str', 'list', 'dict') or \
                isinstance(f, Ext) and f.name.split('.')[0] in (
                    'json', 'matplotlib', 'seekpath') or \
                isinstance(f, Ext) and f.name in (
                    'builtins.open', 'numpy.savetxt'):
            for a in list(args) + list(kw.values()) + [f]:
                sink.update(flat(it.deps_of(a, st)))
    passed = {}

    def on_call(it, info, env, given, st, node):
        """options of the caller that a call does, or does not, hand on"""
        fr = it.frame
        fn = fr.fn if fr is not None else None
        if node is None or fn is None or not hasattr(
                getattr(fn, 'node', None), 'args'):
            return
        own = set(fn.param_names())
        kwarg = fn.node.args.kwarg
        site = (it.path(fn.mod), fn.qual, info.qual,
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        for p, v in env.items():
            if p not in own or p in ('self', 'cls'):
                continue
            mine = st.env.get(p)
            ok = p in given or bool(v.deps) or (
                isinstance(v, Const) and isinstance(mine, Const) and
                type(v.v) is type(mine.v) and v.v == mine.v)
            k = site + (p,)
            passed[k] = passed.get(k, False) or ok
        if kwarg:
            k = site + ('**' + kwarg.arg,)
            ok = any(kwarg.arg in flat(it.deps_of(v, st))
                     for v in env.values())
            passed[k] = passed.get(k, False) or ok
    d = Driver({'ext': on_ext, 'call': on_call}, mark_dicts=True)
    d.it.implicit = True
    run0 = d.run

    def run_(*a, **k):
        sink.clear()
        d.it.raise_deps = E
        return run0(*a, **k)
    d.run = run_

    def on(drv, name, key, info, kind, r, self_, st):
        fix = None if drv.fix is None else f'{drv.fix[0]}={drv.fix[1]}'
        rec = dict(name=name, kind=kind, fix=fix,
                   path=drv.it.path(info.mod), line=info.node.lineno,
                   params=[p for p in info.param_names()
                           if p not in ('self', 'cls')],
                   vararg=[x.arg for x in (info.node.args.vararg,
                                           info.node.args.kwarg) if x],
                   diverges=r is None)
        if r is not None:
            s, v = r
            it = drv.it
            rec['total'] = flat(it.deps_of(v, s))
            comps = {}
            rec['objs'] = []
            components(it, v, s, comps, objs=rec['objs'])
            rec['comps'] = comps
            rec['after'] = set()
            rec['self'] = {}
            if self_ is not None:
                rec['after'] = flat(it.deps_of(self_, s))
                components(it, self_, s, rec['self'])
        rec['sink'] = set(sink)
        rec['raise'] = flat(drv.it.raise_deps)
        rec['time'] = time.time() - t1[0]
        t1[0] = time.time()
        results.append(rec)
    d.run_all(on=on, tasks=tasks)
    return results, d.broken, list(d.done), passed


PASSED = {}     # (path, caller, callee, line, column, option): handed on


@functools.lru_cache(None)
def run():
    """records of every entry point and variant, in order"""
    d = Driver()
    tasks = d.all_choices()
    jobs = max(1, min(8, os.cpu_count() or 1))
    parts = [[] for _ in range(jobs*12)]
    for i, t in enumerate(sorted(tasks, key=lambda t: t[0])):
        parts[i % len(parts)].append(t)
    parts = [p for p in parts if p]
    if jobs > 1:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(jobs) as pool:
            outs = pool.map(work, parts, chunksize=1)
    else:
        outs = [work(p) for p in parts]
    recs, broken, done = [], [], []
    PASSED.clear()
    for r, b, n, fwd in outs:
        for k, ok in fwd.items():
            PASSED[k] = PASSED.get(k, False) or ok
        recs += r
        broken += b
        done += n
    order = {n: i for i, (n, _) in enumerate(tasks)}
    recs.sort(key=lambda r: (order[r['name']], r['fix'] is not None))
    return recs, broken, done


def plain(x):
    return '.'.join(p.lstrip('_') for p in re.sub(r'\[.*', '', x).split('.'))


def public(r):
    """{component: inputs} of a record, without leading underscores"""
    comps = dict(r['comps'])
    if set(comps) <= {''} and not comps.get('') and r['self']:
        comps = {'self' + k: v for k, v in r['self'].items()}
    out = {}
    for k, v in comps.items():
        out.setdefault('.'.join(p.lstrip('_') for p in k.split('.')),
                       set()).update(plain(x) for x in v)
    if r['sink']:
        out['effects'] = {plain(x) for x in r['sink']}
    return out


def every(r, comp, src):
    """each object the result may be has the component, from the input"""
    mine = [{plain(x) for x in v} for o in r['objs'] for k, v in o.items()
            if '.'.join(p.lstrip('_') for p in k.split('.')) == comp]
    return bool(mine) and all(reaches(src, v) for v in mine)


def reaches(p, deps):
    return any(x == p or x.startswith(p + '.') or x.startswith(p + '[')
               for x in deps)


VALIDATION_ONLY = {     # parameters that only choose or guard an error
    '.broaden': {'method'},
    '.convert_fc_phases': {'cell_origins_tol'},
    '.assert_regular_bins': {'message', 'rtol', 'atol', 'bin_ax'},
}
CONTEXT = {'crystal', 'qpts', 'weights', 'x_tick_labels', 'metadata',
           'temperature', 'atom_r', 'atom_type', 'atom_mass', 'cell_vectors',
           'sc_matrix', 'cell_origins', 'grid'}


def context(comp, src):
    """the component is carried over from the source, not computed"""
    last = comp.split('.')[-1]
    if '__init__' in comp or comp in ('', 'effects'):
        return False
    return last in CONTEXT or last == src.split('.')[-1]


def _spec():
    with open(os.path.join(HERE, 'spec', 'flows.json')) as f:
        return json.load(f)


def _base(res, recs, broken, done):
    from checks_py import INTERP_ASSUMES
    res.assumptions += INTERP_ASSUMES
    res.assumptions.append(
        'Dependence is may-dependence through data and control flow: a value '
        'is taken to depend on everything its computation reads.')
    if len(broken) > max(10, len(done)//2):
        raise RuntimeError(f'interpreter fails on {len(broken)} entries, '
                           f'e.g. {broken[0]}')
    if broken:
        print('not interpreted:', broken)
    res.coverage['entries_and_variants'] = len(recs)
    res.coverage['entries_not_interpreted'] = broken[:20]


def _bases(recs):
    """base record per entry, variants per entry"""
    by = {}
    for r in recs:
        if r['kind'] not in ('get', 'set') and not r['diverges']:
            by.setdefault(r['name'], {})[r['fix']] = r
    return by


def arguments():
    """Every public entry point is interpreted with each argument and each
    attribute of each object argument as an origin, once in general and once
    for each value of each option that has finitely many, and the set of
    origins each component of the result (or of the object changed, or of
    what is written or drawn) is computed from is collected, through data and
    control flow.  Reported: a parameter no result, effect or error depends
    on; a component that, in general or for some option value, is no longer
    computed from an input listed for it in spec/flows.json; a call between
    functions of the package that leaves an option at its default, on every
    path, although the caller has an option of that name."""
    recs, broken, done = run()
    res = Result()
    _base(res, recs, broken, done)
    for name, vs in _bases(recs).items():
        r = vs.get(None)
        if r is None or r['total'] is None:
            continue
        al = r['total'] | r['after'] | r['sink'] | set().union(
            *r['self'].values()) if r['self'] else (
            r['total'] | r['after'] | r['sink'])
        for p in r['params']:
            res.count('parameters')
            if reaches(p, al):
                continue
            ok = [x for k, x in VALIDATION_ONLY.items() if name.endswith(k)]
            if reaches(p, r['raise']) and any(p in x for x in ok):
                continue
            res.add('unused', r['path'], r['line'],
                    f'{name}: nothing it returns, changes, writes or draws '
                    f'depends on its parameter {p!r}', f'{name}|{p}')
    _flows(res, recs, lambda c, s: not context(c, s))
    _forwarded(res)
    return res


KEPT_BACK = {   # options a caller has, and need not hand on
    # the structure factor the average is taken of was made with it
    ('StructureFactor.calculate_1d_average', 'temperature'),
}


def _forwarded(res):
    kws = {}
    for (path, f, g, line, col, p), ok in sorted(PASSED.items()):
        if p.startswith('**'):
            kws.setdefault((path, f, g, p), {})[line, col] = ok
            continue
        res.count('options handed on')
        if not ok and (g, p) not in KEPT_BACK:
            res.add('default', path, line, f'{f} calls {g} without handing '
                    f'on its own {p!r}: the default is used', f'{f}|{g}|{p}')
    for (path, f, g, p), sites in kws.items():
        if any(sites.values()) and not all(sites.values()):
            line = min(k[0] for k, ok in sites.items() if not ok)
            res.add('default', path, line, f'{f} calls {g} without handing '
                    f'on {p}, which another call of it gets',
                    f'{f}|{g}|{p}')
        res.count('keyword options handed on', len(sites))


def carried():
    """As P16, for the parts of a result that are carried over from the data
    it is made from: crystal, q-points, weights, tick labels, metadata,
    temperature, and the axes or values of a copied, split, selected, summed
    or converted object."""
    recs, broken, done = run()
    res = Result()
    _base(res, recs, broken, done)
    _flows(res, recs, context)
    return res


def _flows(res, recs, wanted):
    spec = _spec()
    by = _bases(recs)
    # names of attributes seen on anything: a renamed one is not judged
    seen = set()
    for vs in by.values():
        for r in vs.values():
            for x in r['total'] | r['after'] | r['sink']:
                seen.add(plain(x).split('.')[-1])
            for c in list(r['self'].values()) + list(r['comps'].values()):
                seen.update(plain(x).split('.')[-1] for x in c)
    for name, comps in spec.items():
        vs = by.get(name)
        if not vs or None not in vs:
            res.notes.append(f'{name}: not interpreted')
            continue
        base = vs[None]
        own = set(base['params']) | set(base['vararg']) | {'self'}
        got = {f: public(r) for f, r in vs.items()}
        tot = {f: {plain(x) for x in r['total'] | r['after'] | r['sink']}
               for f, r in vs.items()}
        for comp, need in comps.items():
            for src, exc in need.items():
                if not wanted(name + '::' + comp if '__init__' in name
                              else comp, src):
                    continue
                root = src.split('.')[0]
                if root not in own or '.' in src and \
                        src.split('.')[-1] not in seen:
                    res.notes.append(f'{name}: {src} does not exist')
                    continue
                lost = []
                for f, g in got.items():
                    if f is not None and (f in exc or f.split('=')[0] == root
                                          or f.split('=')[0] in exc):
                        continue
                    res.count('requirements')
                    if comp in g:
                        deps = g[comp]
                    elif comp and comp.startswith('.') or comp.startswith('['):
                        # another shape of result: anything in it
                        if f is not None and comp in got[None]:
                            continue
                        deps = tot[f] | set().union(*g.values())
                    else:
                        deps = tot[f] | set().union(*g.values())
                    if not reaches(src, deps) and not any(
                            src.startswith(d + '.') for d in deps):
                        lost.append(f)
                    elif f is None and 'each object' in exc and \
                            comp in g and not every(base, comp, src):
                        lost.append('one of the objects it may return')
                if lost:
                    when = '' if None in lost else \
                        ' in the case of ' + ' or '.join(sorted(lost))
                    what = {'': 'its result',
                            'effects': 'what it writes or draws'}.get(
                        comp, comp.lstrip('.') + (
                            ' of its result' if comp[0] in '.[' else ''))
                    res.add('carried' if wanted is context else 'flow',
                            base['path'], base['line'],
                            f'{name}: {what} is not computed from '
                            f'{src}{when}', f'{name}|{comp}|{src}')


if __name__ == '__main__':
    t = time.time()
    recs, broken, done = run()
    print(len(recs), len(done), broken, time.time() - t)
    json.dump([{k: sorted(v) if isinstance(v, set) else
                {a: sorted(b) for a, b in v.items()}
                if isinstance(v, dict) else v for k, v in r.items()}
               for r in recs], open('/tmp/w/deps.json', 'w'))
    for r in recs:
        if r['fix'] is not None:
            continue
        if r['diverges']:
            print('DIVERGES', r['name'])
            continue
        al = r['total'] | r['after'] | r['sink']
        dead = [p for p in r['params'] if not reaches(p, al)]
        if dead:
            print(r['name'], [p for p in dead if not reaches(p, r['raise'])],
                  'raise', [p for p in dead if reaches(p, r['raise'])])
