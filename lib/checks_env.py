"""P20: results depend on the inputs alone."""
import ast
import multiprocessing
import os

from av import alts, Const, Ext, Meth, Str, Top, orderless
from checks_deps import components, flat
from core import Result
from driver import Driver
from interp import State

WHAT = {'?random': 'random numbers', '?clock': 'the time',
        '?host': 'the environment of the process',
        '?cpus': 'the number of processors',
        '?order': 'the order of a set', '?hash': 'object identities or hashes'}


def new_driver(hooks=None):
    d = Driver(hooks or {})
    d.it.sources = True
    d.it.implicit = True
    return d


def choices(d):
    """(entry, fixed arguments, random numbers asked for)"""
    out = []
    for name, key, f, info, kind in d.entries():
        runs = [None]
        if kind not in ('get', 'set'):
            kw = d.params(State(), info,
                          0 if kind in ('func', 'static') else 1)
            if 'jitter' in kw:
                runs = [[('jitter', False)]]
            for p, v in kw.items():
                os_ = [o for a in alts(v) if isinstance(a, Str)
                       for o in a.opts or ()]
                if any('random' in o for o in os_):
                    runs = [(r or []) + [(p, o)] for r in runs
                            for o in os_ if 'random' not in o]
        asked = 'random' in name.split('.')[-1]
        out += [(name, r if r is None else tuple(r), asked) for r in runs]
    return out


def work(tasks):
    sink = set()

    def on_ext(it, f, args, kw, st, node):
        if isinstance(f, Meth) and isinstance(f.obj, Top) and \
                f.obj.typ not in ('str', 'list', 'dict') or \
                isinstance(f, Ext) and (
                    f.name.split('.')[0] in ('json', 'matplotlib') or
                    f.name in ('builtins.open', 'numpy.savetxt')):
            for a in list(args) + list(kw.values()):
                sink.update(flat(it.deps_of(a, st)) & set(WHAT))
    d = new_driver({'ext': on_ext})
    asked = {(n, f): a for n, f, a in tasks}
    out = []
    run0 = d.run

    def run_(*a, **k):
        sink.clear()
        d.it.source_sites.clear()
        return run0(*a, **k)
    d.run = run_

    def on(drv, name, key, info, kind, r, self_, st):
        it = drv.it
        rec = dict(name=name, fix=drv.fix, asked=asked[name, drv.fix],
                   path=it.path(info.mod), line=info.node.lineno, hits={})
        hits = rec['hits']
        if r is not None:
            s, v = r
            comps = {}
            ret = info.node.returns
            if ret is None or 'OrderedDict' not in ast.unparse(ret):
                # equal dictionaries may differ in their order
                for a in alts(v):
                    c = it.cell(a, s)
                    if c is not None and c.kind == 'dict':
                        it.setcell(a, s, orderless(c))
            components(it, v, s, comps)
            comps[''] = comps.get('', set()) | flat(it.deps_of(v, s))
            if self_ is not None:
                own = {}
                components(it, self_, s, own)
                comps.update({f'self{k}': x for k, x in own.items()})
            for k, x in comps.items():
                for t in x & set(WHAT):
                    hits.setdefault(t, []).append(k)
        for t in sink:
            hits.setdefault(t, []).append('what is drawn or written')
        rec['sites'] = {t: sorted((p, l, n) for (p, l), n in x.items())
                        for t, x in it.source_sites.items()}
        out.append(rec)
    d.run_all(on=on, tasks=[t[:2] for t in tasks])
    return out, d.broken


def reproducible():
    """Every public function and method is interpreted with values that come
    from outside its inputs marked: random numbers, the clock, environment
    variables and other properties of the process, file listings, identities
    and hashes, and sequences made by iterating over a set of strings or
    objects.  The marks follow data and control flow through all calls.  No
    part of a result, and nothing drawn or written, may carry one.  Random
    numbers are allowed where they are asked for: random_sphere, and jitter
    or a sampling scheme whose name says so (entry points with these options
    are interpreted with jitter off, for every other scheme).  The number of
    threads handed to the extension may come from the environment (that it
    does not decide about results is P06)."""
    res = Result()
    d = new_driver()
    tasks = choices(d)
    jobs = max(1, min(8, os.cpu_count() or 1))
    parts = [[] for _ in range(jobs*6)]
    for i, t in enumerate(tasks):
        parts[i % len(parts)].append(t)
    parts = [p for p in parts if p]
    if jobs > 1:
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            outs = pool.map(work, parts, chunksize=1)
    else:
        outs = [work(p) for p in parts]
    seen = set()
    for recs, broken in outs:
        for e, m in broken:
            res.notes.append(f'not interpreted: {e}: {m}')
        for r in recs:
            res.count('interpretations')
            for t, xs in r['sites'].items():
                for x in xs:
                    res.sample(f'{x[0]}:{x[1]}: {x[2]}')
            for t, where in sorted(r['hits'].items()):
                if t == '?random' and r['asked']:
                    res.count('random numbers asked for')
                    continue
                if (r['name'], t) in seen:
                    continue
                seen.add((r['name'], t))
                sites = r['sites'].get(t, [])
                p, l = (sites[0][0], sites[0][1]) if sites else (
                    r['path'], r['line'])
                via = ', '.join(f'{x[2]} at {x[0]}:{x[1]}' for x in sites[:3])
                fix = '' if r['fix'] is None else ' with ' + ', '.join(
                    f'{a}={b!r}' for a, b in r['fix'])
                res.add(t[1:], p, l,
                        f'{r["name"]}{fix}: {WHAT[t]} decide about '
                        f'{", ".join(w or "the result" for w in where[:3])}'
                        + (f' ({via})' if via else ''), f'{r["name"]}|{t}')
    return res
