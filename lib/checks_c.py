"""Properties of the compiled extension."""
from functools import lru_cache

import cfront
import cpaths
import crace
import cbounds
import ffi as ffi_mod
from cfront import AnalysisBroken, rel
from core import Result


@lru_cache(None)
def _explore():
    return cpaths.explore(tuple(ffi_mod.bool_implications()))


def _stats(res, ex, entries):
    res.coverage.update({
        'c_files': [rel(f) for f in ex.prog.files],
        'functions_explored': sorted(f.name for f in ex.stats['functions']),
        'entry_points': [f.name for f in entries],
        'abstract_states': ex.stats['states'],
        'call_evaluations': ex.stats['calls'],
        'exits_checked': ex.stats['exits'],
    })
    res.assumptions.append(
        'CPython/NumPy/LAPACK calls behave as documented (new vs borrowed '
        'references, NULL/-1 on failure); counted loops run at least once '
        'except the work-sharing loop; Python guarantees of the form '
        '`argument i true => argument j true`: '
        + str(ffi_mod.bool_implications()))
    if len(ex.stats['functions']) < 5:
        raise AnalysisBroken('fewer than 5 C functions were explored')


RES_RULES = {'leak', 'double-release', 'use-after-release',
             'mismatched-release', 'borrowed-release', 'uninitialised-use',
             'null-use', 'gil', 'uninit'}


def resources():
    """Path-sensitive typestate analysis of every C function from the Python
    entry point: each heap block, new reference, GIL/thread state acquired on
    a path is released exactly once before every exit of that path, nothing
    released/uninitialised/NULL is used, no borrowed reference is released and
    no Python API is called without the GIL."""
    res = Result()
    ex, entries = _explore()
    for f in ex.findings.values():
        if f.rule in RES_RULES:
            res.add(f.rule, f'{f.file}:{f.func}', f.line, f.msg,
                    f.msg if f.rule != 'leak' else f.msg.split(' at line')[0])
    for r in sorted(ex.stats['resources'], key=str):
        res.sample(f'{r[0]} acquired in {r[1]} line {r[2]}')
    res.count('acquisition sites', len(ex.stats['resources']))
    res.count('function exits', ex.stats['exits'])
    res.count('memory-access sites', len(ex.stats['freads']))
    _stats(res, ex, entries)
    return res


def errors():
    """On every path from the Python entry point on which a call that can fail
    did fail (argument parsing, attribute/key lookup, import, conversion,
    LAPACK info), the entry point returns NULL, and it returns NULL only with
    an exception set."""
    res = Result()
    ex, entries = _explore()
    for f in ex.findings.values():
        if f.rule == 'error-lost':
            res.add(f.rule, f'{f.file}:{f.func}', f.line, f.msg,
                    f.msg.split(' (in ')[0].split(' at line')[0])
    for r in sorted(ex.stats['failures'], key=str):
        res.sample(f'{r[2]} in {r[0]} line {r[1]}')
    if not ex.stats['failures']:
        raise AnalysisBroken('no failing call was found')
    res.count('failure sources', len(ex.stats['failures']))
    res.count('function exits', ex.stats['exits'])
    _stats(res, ex, entries)
    return res


def threads():
    """Data-sharing analysis of every OpenMP parallel region: all storage
    written inside is private to the thread, inside the slice owned by the
    work-sharing iteration, or written under an atomic/critical construct; no
    global/static is written, no Python API called, and every per-thread
    scratch buffer is re-initialised before it is read in an iteration."""
    res = Result()
    ex, entries = _explore()
    race = crace.Race(cfront.load(), ex).run()
    for rule, file, func, line, msg in race.findings.values():
        res.add(rule, f'{file}:{func}', line, msg, msg.split(' (declared')[0])
    for f in ex.findings.values():
        if f.rule in ('stale-buffer', 'api-in-parallel'):
            res.add(f.rule, f'{f.file}:{f.func}', f.line, f.msg, f.msg)
    b = _bounds()
    for rule, file, func, line, msg in b.findings.values():
        if rule in ('slice-overlap', 'stale-part'):
            res.add(rule, f'{file}:{func}', line, msg, msg)
    for s in race.sites:
        res.sample(s)
    if not race.regions:
        res.notes.append('no parallel region: nothing can depend on the '
                         'number of threads')
    res.count('parallel regions', race.regions)
    res.count('writes classified', race.writes)
    res.count('calls in regions', race.calls)
    res.count('slice containment proofs', b.slice_ok)
    res.coverage['functions_reachable_from_regions'] = sorted(
        g.name for g in race.reach)
    _stats(res, ex, entries)
    return res


@lru_cache(None)
def _bounds():
    return cbounds.Bounds().run()


def bounds():
    """Symbolic bounds: every subscript, memset and pointer argument reachable
    from the Python entry point is a polynomial in array dimensions and loop
    variables; it is proved to lie inside the addressed array for all
    dimensions >= 1, arrays that may be empty are only touched under a test of
    their length."""
    res = Result()
    b = _bounds()
    for rule, file, func, line, msg in b.findings.values():
        if rule not in ('slice-overlap', 'stale-part'):
            res.add(rule, f'{file}:{func}', line, msg, msg)
    for a in sorted(b.accesses, key=str):
        res.sample(f'{a[0]}:{a[1]} {a[2]} in {a[3]}')
    res.count('access sites', len(b.accesses))
    res.count('inequalities proved', b.proved)
    res.coverage['arrays'] = sorted(b.arrays)
    res.coverage['undecided_sites'] = sorted(
        ':'.join(map(str, u)) for u in set(b.undecided))
    res.assumptions += [
        'arrays have the layout in cbounds.ARGS / cbounds.NAMED (the shapes '
        'the Python caller allocates or the constructors enforce)',
        'image indices are < the number of supercell origins, image counts '
        '<= the last dimension of the image table',
        'sites listed as undecided are not claimed']
    if len(b.accesses) < 60:
        raise AnalysisBroken(f'only {len(b.accesses)} memory accesses were '
                             f'resolved (about 220 expected)')
    return res
