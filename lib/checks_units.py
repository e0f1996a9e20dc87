"""P01, P02: unit algebra over the whole package."""
import ast
import functools

import models as M
from core import Result
from driver import Driver
from av import (Const, Top, Str, UnitV, Num, Qty, Tup, Ref, Union, alts,
                consistent)
from units import ONE, parse

KELVIN = parse('K')[0]


def walk_values(it, v, st, path='', seen=None, depth=0):
    """(path, value) for everything reachable from v"""
    seen = seen if seen is not None else set()
    for a in alts(v):
        yield path, a
        if depth > 6:
            continue
        if isinstance(a, Tup):
            for i, x in enumerate(a.items):
                yield from walk_values(it, x, st, f'{path}[{i}]', seen,
                                       depth + 1)
        elif isinstance(a, Ref):
            if a.addr in seen:
                continue
            seen.add(a.addr)
            c = it.cell(a, st)
            if c is None:
                continue
            for k, x in c.attrs.items():
                sep = '.' if c.kind == 'obj' else '/'
                yield from walk_values(it, x, st, f'{path}{sep}{k}', seen,
                                       depth + 1)
            for x in (c.items or ()):
                yield from walk_values(it, x, st, path + '[]', seen,
                                       depth + 1)
            if c.elem is not None:
                yield from walk_values(it, c.elem, st, path + '[]', seen,
                                       depth + 1)


def qty_ok(it, q):
    c = consistent(q)
    if c is False:
        if M.unify(it, q.label, q.num.tag):
            return True
    return c


def unused_choice(n, u):
    """the caller's choice of unit that labels n, if n does not depend on
    it (so that n cannot be in that unit for every choice)"""
    if n.lit or 'zeros' in n.flags and n.tag is not None:
        return None
    for k, _ in u.atoms:
        p = k[1:]
        if k.startswith('$') and p.endswith('_unit') and '.' not in p and \
                not any(p in (d if isinstance(d, str) else str(d))
                        for d in n.deps):
            return p
    return None


class Units:
    def __init__(self):
        self.stats = {'ok': 0, 'unknown': 0, 'bad': 0}
        self.samples = []
        self.unknown = []
        self.entries = 0
        self.pairs = 0
        self.stored = 0
        self.getters = 0

    def value(self, d, v, st, what, node=None, where=None, label='label',
              mixed=True):
        """every quantity inside v is in the unit it says"""
        it = d.it
        for path, a in walk_values(it, v, st):
            if isinstance(a, Qty):
                ok = qty_ok(it, a)
                if ok is False:
                    # several alternatives, one of them fine: undecided
                    self.stats['bad'] += 1
                    it.event(label, f'{what}{path}: number in '
                             f'{M.subst(a.num.tag, it.unitvars)} labelled '
                             f'{M.subst(a.label, it.unitvars)}', node,
                             key=f'{what}{path}')
                elif ok is None:
                    self.stats['unknown'] += 1
                    self.unknown.append(f'{what}{path}')
                else:
                    self.stats['ok'] += 1
                    self.samples.append(f'{what}{path}: {a.label}')
            elif isinstance(a, Ref):
                c = it.cell(a, st)
                if c is not None and c.kind == 'dict':
                    self.dict_pairs(d, c, st, f'{what}{path}', node)

    def dict_pairs(self, d, c, st, what, node):
        """{'x': numbers, 'x_unit': text} must agree"""
        it = d.it
        for k, v in c.attrs.items():
            if not isinstance(k, str) or k + '_unit' not in c.attrs:
                continue
            us = [M.str_unit(u) for u in alts(c.attrs[k + '_unit'])]
            us = [u[0] for u in us if u is not None]
            if len(us) != 1:
                self.stats['unknown'] += 1
                continue
            u = us[0]
            for n in alts(v):
                if isinstance(n, (Ref, Tup)):
                    n = M.split(it, n, st)[1]
                if isinstance(n, Const):
                    continue
                if isinstance(n, Qty):
                    n = n.num
                if not isinstance(n, Num):
                    self.stats['unknown'] += 1
                    self.unknown.append(f'{what}/{k}')
                    continue
                p = unused_choice(n, u)
                if p:
                    self.stats['bad'] += 1
                    it.event('label', f"{what}: '{k}_unit' is what the "
                             f"caller asks for ({p}) but entry '{k}' does "
                             f"not depend on it", node, key=f'{what}/{k}')
                    continue
                if n.tag is None:
                    self.stats['unknown'] += 1
                    self.unknown.append(f'{what}/{k}')
                    continue
                if n.lit or n.tag == u or M.unify(it, n.tag, u):
                    self.stats['ok'] += 1
                    self.pairs += 1
                else:
                    self.stats['bad'] += 1
                    it.event('label', f"{what}: entry '{k}' holds numbers in"
                             f" {M.subst(n.tag, it.unitvars)} but "
                             f"'{k}_unit' says {M.subst(u, it.unitvars)}",
                             node, key=f'{what}/{k}')


@functools.lru_cache(None)
def run():
    u = Units()
    state = {}

    def on_construct(it, key, info, env, given, st, node):
        d = state['d']
        cn = it.classes[key].name
        for p, v in env.items():
            if p in ('self', 'cls'):
                continue
            for path, a in walk_values(it, v, st, depth=5):
                if isinstance(a, Qty) and qty_ok(it, a) is False:
                    it.event('label', f'{cn}({p}=...): number in '
                             f'{M.subst(a.num.tag, it.unitvars)} labelled '
                             f'{M.subst(a.label, it.unitvars)}', node,
                             key=f'{cn}({p})')

    def on_return(it, info, rets, env):
        d = state['d']
        if info.name.startswith('<'):
            return
        for s, v in rets:
            for a in alts(v):
                c = it.cell(a, s)
                if c is not None and c.kind == 'dict':
                    u.dict_pairs(d, c, s, info.qual, info.node)

    def on_setattr(it, o, c, name, v, st, node):
        """what a method stores must be in the unit the constructor uses"""
        d = state['d']
        if c.cls not in d.proto or c.cls in d.making:
            return
        pst, pref = d.proto[c.cls]
        pv = pst.heap[pref.addr].attrs.get(name)
        if isinstance(pv, Union):
            pv = next((x for x in pv.alts if isinstance(x, (Num, Qty))), None)
        for a in alts(v):
            if isinstance(a, Qty) and isinstance(pv, Num):
                a = a.num
            if not isinstance(a, Num) or not isinstance(pv, Num) or \
                    a.tag is None or pv.tag is None or a.lit:
                continue
            if pv.tag.atoms and 'self' not in c.ext:
                continue
            if a.tag == pv.tag or M.unify(it, a.tag, pv.tag):
                u.stored += 1
            else:
                it.event('label', f'{it.classes[c.cls].name}.{name} holds '
                         f'numbers in {pv.tag} but is given numbers in '
                         f'{a.tag}', node, key=f'{name} stored')

    def on_call(it, info, env, given, st, node):
        for p, v in env.items():
            if p in ('self', 'cls'):
                continue
            for a in alts(v):
                if isinstance(a, Qty) and qty_ok(it, a) is False:
                    it.event('label', f'{info.qual}({p}=...): number in '
                             f'{M.subst(a.num.tag, it.unitvars)} labelled '
                             f'{M.subst(a.label, it.unitvars)}', node,
                             key=f'{info.qual}({p})')

    temps, zeros = set(), []

    def on_convert(it, q, target, rest, st, node):
        # caller's units that are temperature units (K, degC, ...)
        for t in alts(target) if target is not None else ():
            r = M.str_unit(t)
            if r is not None and r[0] is not None and not r[0].atoms and \
                    r[0] == KELVIN and q.label is not None and \
                    q.label.atoms:
                temps.add(q.label)

    def on_qzero(it, label, node):
        if label is not None and label.atoms:
            fr = it.frame
            zeros.append((label, dict(
                kind='literal', where=f'{it.path(fr.mod)}:{fr.qual}',
                line=getattr(node, 'lineno', fr.line), entry=it.entry,
                stack=it.stackstr(), key=M.src(node),
                msg=f'{M.src(node)}: arithmetic or comparison on a quantity '
                f'in {label}, which may be an offset unit such as degC')))

    d = Driver({'call': on_call, 'convert': on_convert, 'qzero': on_qzero, 'construct': on_construct, 'return': on_return,
                'setattr': on_setattr})
    state['d'] = d

    def on(drv, name, key, info, kind, r, self_, st):
        u.entries += 1
        if r is None:
            return
        from interp import Frame
        it = drv.it
        it.frame = Frame(info, info.mod, info.qual, None, None)
        it.frame.line = info.node.lineno
        st2, v = r
        u.value(drv, v, st2, 'result' if kind != 'get' else 'value')
        if kind == 'get':
            attr = name.split('.')[-1]
            c = it.cell(self_, st2)
            us = [M.str_unit(x) for x in alts(
                c.attrs.get(attr + '_unit', Const(None)))] if c else []
            us = [x[0] for x in us if x is not None]
            for a in alts(v):
                if len(us) == 1 and isinstance(a, Qty) and \
                        a.label is not None:
                    u.getters += 1
                    if a.label != us[0]:
                        it.event('getter', f'{name} is in {a.label}, not in '
                                 f'{attr}_unit ({us[0]})', info.node,
                                 key=name)
        it.frame = None
    d.run_all(on=on)
    for label, ev in zeros:
        if label in temps and not any(
                e['where'] == ev['where'] and e['key'] == ev['key']
                for e in d.it.events):
            d.it.events.append(ev)
    return d, u


if __name__ == '__main__':
    d, u = run()
    for e in d.it.events:
        print(e['kind'], e['where'], e['line'], e['msg'], '|', e['entry'],
              e['stack'])
    print(u.stats, u.entries, u.pairs, u.stored, u.getters, d.broken)
    print(sorted(set(u.unknown)))
