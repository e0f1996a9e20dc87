"""P11, P12: who may write to, or keep, whose memory."""
import functools

from av import Const, Top, Num, Qty, Ref, Tup, alts
from checks_units import walk_values
from core import Result
from driver import Driver


@functools.lru_cache(None)
def run():
    writes = []
    results = []

    def on_write(it, rts, st, node, what, **k):
        fr = it.frame
        if fr is None or fr.fn is None:
            return
        writes.append(dict(
            roots=rts, what=what, line=getattr(node, 'lineno', fr.line),
            path=it.path(fr.mod), qual=fr.qual, entry=it.entry,
            stack=it.stackstr(), **k))
    d = Driver({'write': on_write}, mark_dicts=True)

    def on(drv, name, key, info, kind, r, self_, st):
        results.append((name, key, info, kind, r, self_))
    d.run_all(on=on)
    return d, writes, results


def returns_nothing(r):
    """the entry exists for its side effect"""
    return r is not None and all(
        isinstance(a, Const) and a.v is None for a in alts(r[1]))


def ctor_names(it, key):
    m = it.find(key, '__init__')
    return set(it.fninfo(m[1]).param_names()) if m else set()


def relaid(w, root):
    """the attribute is replaced by its own values in another layout"""
    v = w.get('value')
    if not isinstance(v, Num):
        return False
    p = f"{root}.{w['attr']}"
    return all((d[1] if isinstance(d, tuple) else d) == p for d in v.deps)


def classof(d, w):
    return w.get('cls')


def caller_memory(prop='P11'):
    """Every public entry point of the package (methods, properties,
    constructors, functions) is interpreted abstractly from its source with
    symbolic arguments, each array, dict, list and object of which is a named
    memory region; views, slices, reshapes, attribute reads and containers
    carry the regions they may refer to, copies do not.  Every store (item,
    slice or attribute assignment, augmented assignment, out=, in-place
    method, pop/update/append/sort, in-place unit conversion) into a value
    that may refer to an argument's region is a violation unless it is the
    purpose of the entry: setters, in-place operators and methods without a result
    may give their own object other attributes (but not write into arrays, which
    the caller may also hold).  A computation may store on an object only attributes
    derived from the constructor's (caches), or the same values in another
    memory layout."""
    d, writes, results = run()
    it = d.it
    res = Result()
    from checks_py import base
    base(res, d)
    void = {n for n, key, info, kind, r, s in results
            if key is not None and kind != 'class' and returns_nothing(r)
            and s is not None}
    allowed = {'purpose': 0, 'cache': 0, 'layout': 0}
    for w in writes:
        for root in sorted(w['roots']):
            top = root.split('.')[0]
            a = w.get('attr')
            if top == 'self' and a is not None and (
                    w['entry'].endswith(('=', '.__imul__'))
                    or w['entry'] in void):
                allowed['purpose'] += 1
                continue
            if a is not None:
                own = ctor_names(it, w['cls']) if w.get('cls') else set()
                if a.startswith('_') and a[1:] not in own and w.get('cls') \
                        and not it.find(w['cls'], a[1:], 'props'):
                    allowed['cache'] += 1
                    continue
                if relaid(w, root):
                    allowed['layout'] += 1
                    continue
            res.add('write', w['path'], w['line'],
                    f"{w['qual']}: {w['what']} changes the caller's "
                    f"{root} (reached from {w['entry']}: {w['stack']})",
                    f"{w['qual']}|{w['what']}|{root}")
    res.count('entry points interpreted', len(d.done))
    res.count('stores that may reach an argument', len(writes))
    for k, n in allowed.items():
        res.count(f'allowed: {k}', n)
    return res


REFERENCED = ('crystal', 'qpts', 'weights')


def shared(it, v, st):
    """(path, root) of mutable memory in v that belongs to an argument"""
    for path, a in walk_values(it, v, st):
        rts = ()
        if isinstance(a, Num) and a.arr is not False:
            rts = a.roots
        elif isinstance(a, Qty) and a.num.arr is not False:
            rts = a.num.roots
        elif isinstance(a, Ref):
            c = it.cell(a, st)
            rts = c.ext if c is not None else ()
        elif isinstance(a, Top) and a.typ != 'str' and '[]' not in path:
            rts = a.roots
        for x in rts:
            yield path, x


def independent_results(prop='P12'):
    """The same interpretation as P11.  For every method that derives an
    object, collection or dictionary from an existing object, everything
    reachable from the result is compared with the memory regions of the
    object and of the other arguments: a mutable array, list or dictionary
    that the result and an argument have in common is a violation.  A result
    may refer to the crystal, the q-points and the weights it was calculated
    for, and a constructor to the arrays it is given."""
    d, writes, results = run()
    it = d.it
    res = Result()
    from checks_py import base
    base(res, d)
    for name, key, info, kind, r, self_ in results:
        if r is None or kind in ('get', 'set', 'class'):
            continue
        meth = name.split('.')[-1]
        if meth.startswith('get_') or meth in ('__init__', '__imul__'):
            continue
        st, v = r
        n = 0
        for path, x in shared(it, v, st):
            parts = path.replace('[', '.').replace('/', '.').split('.')
            if any(p in REFERENCED for p in parts) or \
                    parts[-1] == 'species':
                continue
            n += 1
            res.add('shared', it.path(info.mod), info.node.lineno,
                    f'{name}: result{path} shares memory with {x}',
                    f'{name}|{path}|{x}')
        res.count('results examined')
    return res


if __name__ == '__main__':
    for f in (caller_memory, independent_results):
        r = f()
        print(r.rules)
        for x in r.findings:
            print(x)
