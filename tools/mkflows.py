#!/usr/bin/env python3
"""Writes spec/flows.json: which inputs each part of each result has to be
computed from.  The candidates are what the analysis finds on the tree it is
run on; DROP lists what was removed from them on review because the
dependence is an artefact of the analysis or of how the code is written, not
something a user relies on.  Run by hand, never by a check."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)
import checks_deps                                              # noqa: E402

DROP = [    # entry, component, source
    (r'.*', r'.*', r'(.*\.)?(n_threads|use_c|reduce_qpts|n_atoms|n_qpts|'
     r'n_branches)|return_mode_gradients|.*_unit|@.*'),
    (r'.*', r'(.*\.)?n_\w+|.*_unit|.*\.\*', r'.*'),
    (r'.*calculate_structure_factor', r'.*structure_factors',
     r'dw\.(crystal.*|temperature)'),
    (r'.*calculate_structure_factor', r'.*temperature',
     r'dw\.(crystal.*|debye_waller)'),
    (r'Spectrum\dDCollection\.(?!select|group_by)\w+', r'.*\.[yz]_data',
     r'(self|spectra)\.(metadata|x_tick_labels)'),
    (r'Spectrum\dDCollection\.group_by', r'.*\.[yz]_data',
     r'self\.x_tick_labels'),
    (r'Spectrum1DCollection\.(?!broaden)\w+', r'.*\.y_data',
     r'(self|spectra)\.x_data'),
    (r'Spectrum2DCollection\..*', r'.*\.z_data',
     r'(self|spectra)\.[xy]_data'),
    (r'(ForceConstants|BrilleInterpolator)\.calculate.*', r'.*',
     r'self\.crystal\.atom_type'),
    (r'(ForceConstants)\.calculate.*', r'.*crystal.*', r'$^'),
    (r'ForceConstants\.calculate.*', r'.*(qpts|weights)',
     r'dipole|splitting|self\..*'),
    (r'ForceConstants\.calculate.*', r'.*\.weights', r'qpts'),
    (r'BrilleInterpolator\.calculate.*', r'.*\.weights', r'qpts'),
    (r'.*sample_sphere_dos', r'.*', r'fc\.crystal\.atom_type'),
    (r'.*sample_sphere_pdos', r'.*\.x_data', r'fc\.crystal\.atom_type'),
    (r'.*sample_sphere_pdos', r'.*\.metadata', r'cross_sections'),
    (r'.*calculate_pdos', r'.*\.metadata', r'cross_sections'),
    (r'.*sample_sphere_structure_factor', r'.*',
     r'dw\.(crystal.*|temperature)'),
    (r'.*sample_sphere_structure_factor', r'.*\.x_data',
     r'dw\..*|temperature|fc.crystal.atom_type'),
    (r'Spectrum2D\.broaden', r'(?!.*z_data).*', r'[xy]_width'),
    (r'Spectrum2D\.broaden', r'', r'.*'),
    (r'Spectrum2D\.broaden', r'.*x_tick_labels', r'(?!self\.x_tick).*'),
    (r'Spectrum2D\.broaden', r'.*metadata', r'(?!self\.metadata).*'),
    (r'Spectrum2D\.broaden', r'.*z_data', r'self\.(metadata|x_tick.*)'),
    (r'.*(dos_map|sqw_map|get_dispersion)', r'.*x_tick_labels',
     r'self\.crystal\.atom.*'),
    (r'.*get_qpoint_labels', r'.*', r'$^'),
    (r'euphonic\.plot\..*', r'(?!effects).*', r'.*'),
    (r'.*calculate_debye_waller', r'.*', r'self\.qpts'),
    (r'.*', r'.*x_tick_labels', r'item|other'),
    (r'.*get_bin_\w+', r'.*', r'self\.(metadata|x_tick_labels|z_data)'),
    (r'Spectrum1D(Collection)?\.get_bin_\w+', r'.*', r'self\.y_data'),
    (r'Crystal\.__init__', r'self.atom_type', r'atom_r'),
    (r'.*\.__init__', r'self.weights', r'qpts'),
    (r'.*\.from_(json_file|dict|castep|phonopy)', r'effects', r'.*'),
    (r'(?!.*(to_text_file|to_json_file|\.plot\.|from_force_con)).*',
     r'effects', r'.*'),
    (r'.*\.(to_dict|from_dict|to_json_file|from_json_file)', r'.*', r'.*'),
    (r'Spectrum1DCollection\.broaden', r'(?!.*y_data).*', r'x_width'),
    (r'.*\.assert_regular_bins', r'.*', r'.*'),
    (r'.*\.__getitem__', r'.*\.x_data', r'item'),
    (r'Spectrum2D.*\.__getitem__', r'.*\.y_data', r'item'),
    (r'.*\.reorder_frequencies', r'self\.(crystal|qpts|weights)', r'.*'),
    (r'.*to_text_file', r'self.*', r'.*'),
    (r'Spectrum1D(Collection)?\.\w+_x_data', r'.*', r'.*'),
]


def dropped(e, c, s):
    return any(re.fullmatch(a, e) and re.fullmatch(b, c) and
               re.fullmatch(d, s) for a, b, d in DROP)


def main():
    recs, broken, done = checks_deps.run()
    assert not broken, broken
    by = {}
    for r in recs:
        if r['kind'] in ('get', 'set') or r['diverges']:
            continue
        by.setdefault(r['name'], {})[r['fix']] = r
    spec = {}
    for name, vs in by.items():
        base = vs.get(None)
        if base is None:
            continue
        own = set(base['params']) | set(base['vararg']) | {'self'}
        got = {f: checks_deps.public(r) for f, r in vs.items()}
        ent = {}
        for comp, srcs in got[None].items():
            need = {}
            for s in sorted(srcs):
                if s.split('.')[0] not in own or dropped(name, comp, s):
                    continue
                p = s.split('.')[0]
                exc = [f for f, g in got.items() if f is not None
                       and f.split('=')[0] != p and not (
                           comp in g and s in g[comp])]
                need[s] = exc
                if checks_deps.context(comp, s) and checks_deps.every(
                        base, comp, s):
                    exc.append('each object')
            if need:
                ent[comp] = need
                for s in need:      # always, or never, matters
                    need[s] = sorted(need[s])
        if ent:
            spec[name] = ent
    with open(os.path.join(HERE, 'spec', 'flows.json'), 'w') as f:
        json.dump(spec, f, indent=1)
        f.write('\n')
    print(len(spec), 'entries', sum(len(c) for c in spec.values()),
          'components', sum(len(s) for c in spec.values()
                            for s in c.values()), 'requirements')


if __name__ == '__main__':
    main()
