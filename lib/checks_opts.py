"""P15: options with a fixed set of values."""
import ast
import multiprocessing
import os
import re

from av import (alts, Const, Str, NONE)
from checks_deps import components, flat
from core import Result
from driver import Driver

ONE_OF = re.compile(r'\b[Oo]ne of\s*\{([^}]*)\}')


def documented(info):
    """options that a docstring lists: {parameter: values}"""
    doc = ast.get_docstring(info.node) or ''
    out = {}
    names = set(info.param_names())
    cur = None
    for line in doc.split('\n'):
        m = re.match(r'([A-Za-z_]\w*)( *:.*)?$', line)
        if m:
            cur = m.group(1) if m.group(1) in names else None
        if cur:
            out[cur] = out.get(cur, '') + ' ' + line.strip()
    res = {}
    for p, text in out.items():
        m = ONE_OF.search(text)
        if m:
            vs = re.findall(r"'([^']*)'", m.group(1))
            if vs:
                res[p] = vs
    return res


def options(d):
    """[(entry, parameter, values)]"""
    out = {}
    from interp import State
    for name, key, f, info, kind in d.entries():
        if kind not in ('func', 'class', 'static', '', None):
            continue
        vals = dict(documented(info))
        try:
            kw = d.params(State(), info, 0 if kind in ('func', 'static')
                          else 1)
        except Exception:
            continue
        for p, v in kw.items():
            for a in alts(v):
                if isinstance(a, Str) and a.opts:
                    vals[p] = list(a.opts)
        for p, vs in vals.items():
            out[name, p] = sorted(vs)
    return [(n, p, vs) for (n, p), vs in sorted(out.items())]


def wrong(vs):
    bad = ['no such value', '']
    for v in vs:
        bad += [v + 'x', v[:-1], v[:1]]
    return [b for b in dict.fromkeys(bad) if b not in vs]


def work(tasks):
    d = Driver(mark_dicts=True)
    d.it.implicit = True
    out = []

    def on(drv, name, key, info, kind, r, self_, st):
        p, v = drv.fix
        rec = dict(name=name, p=p, v=v, diverges=r is None, hit=[],
                   path=drv.it.path(info.mod), line=info.node.lineno,
                   last=getattr(drv.it, 'last_raise', ''))
        if r is not None:
            s, val = r
            comps = {}
            components(drv.it, val, s, comps)
            deps = flat(drv.it.deps_of(val, s))
            rec['hit'] = sorted(k or 'result' for k, x in comps.items()
                                if p in x) or (['result'] if p in deps else []) or (
                ['the path to it'] if '?option' in s.pc else [])
        out.append(rec)
    d.fix_deps = True
    for other in (False, True):
        d.it.misses = other
        d.run_all(on=on, tasks=[t[:2] for t in tasks if t[2] == other])
    return out, d.broken


def validated():
    """Every public function or method with an option that has a fixed set of
    values (Literal[...] types, or 'one of {...}' in its documentation) is
    interpreted once with each documented value and with values that are not
    documented (an arbitrary string, an empty one, documented ones with a
    letter more or less).  A documented value must have a path that returns.
    With another value, each path that consults the option must end in an
    exception: a returned result that depends on the option is reported."""
    res = Result()
    d = Driver()
    opts = options(d)
    tasks = []
    good = {}
    for n, p, vs in opts:
        good[n, p] = vs
        tasks += [(n, (p, v), False) for v in vs]
        tasks += [(n, (p, v), True) for v in wrong(vs)]
    jobs = max(1, min(8, os.cpu_count() or 1))
    parts = [[] for _ in range(jobs*6)]
    for i, t in enumerate(sorted(tasks)):
        parts[i % len(parts)].append(t)
    parts = [p for p in parts if p]
    if jobs > 1:
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            outs = pool.map(work, parts, chunksize=1)
    else:
        outs = [work(p) for p in parts]
    seen = {}
    for recs, broken in outs:
        for e, m in broken:
            res.notes.append(f'not interpreted: {e}: {m}')
        for r in recs:
            n, p, v = r['name'], r['p'], r['v']
            if v in good[n, p]:
                res.count('documented values')
                if r['diverges']:
                    res.add('refused', r['path'], r['line'],
                            f'{n}: the documented value {p}={v!r} always '
                            f'raises ({r["last"]})', f'{n}|{p}|{v}')
            else:
                res.count('other values')
                if not r['diverges'] and r['hit']:
                    seen.setdefault((n, p), []).append(r)
    for (n, p), rs in sorted(seen.items()):
        r = rs[0]
        res.add('accepted', r['path'], r['line'],
                f'{n}: {p}={", ".join(repr(x["v"]) for x in rs[:3])} is not '
                f'a documented value ({", ".join(good[n, p])}), but a result '
                f'is returned that depends on it ({", ".join(r["hit"][:3])})',
                f'{n}|{p}')
    for n, p, vs in opts:
        res.sample(f'{n}: {p} in {vs}')
    res.count('options', len(opts))
    return res
