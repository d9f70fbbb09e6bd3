"""The inlist of the run scripts: its elements and where the programs expect them."""
import string

_GYRE = dict(rot_pct='rotation.rot_percent', base_dir='GYRE_selection.gyre_dir_path',
             alternative_directory_path='GYRE_selection.alternative.directory_path',
             alternative_file_name='GYRE_selection.alternative.file_name',
             verbose='verbosity-debug.verbose', debug='verbosity-debug.debug')
_POLY = dict(rot_pct='rotation.rot_percent', base_dir='POLY_selection.mode_path',
             alternative_directory_path='POLY_selection.alternative.directory_path',
             alternative_file_name='POLY_selection.alternative.file_name',
             verbose='verbosity-debug.verbose', debug='verbosity-debug.debug')
_MODES = ('parent', 'daughter_1', 'daughter_2')
_L = [f'mode_info.{m}.l' for m in _MODES]
_M = [f'mode_info.{m}.m' for m in _MODES]

SOLVE = (
    dict(base_dir='saving.solve.base_dir', save_dir='saving.solve.save_dir',
         extra_specifier='saving.solve.extra_specifier', initial_save_format='saving.solve.save_format'),
    _GYRE,
    dict(**{f'{m}_n': f'mode_info.coupling.{m}.n' for m in _MODES}, mode_l=_L, mode_m=_M),
    dict(view_kernels='plotting.profile.show_kernels', view_term_by_term='plotting.profile.show_term_by_term'),
    dict(driven_n_low='mode_info.parent.n.low', driven_n_high='mode_info.parent.n.high',
         damped_n_low1='mode_info.daughter_1.n.low', damped_n_high1='mode_info.daughter_1.n.high',
         damped_n_low2='mode_info.daughter_2.n.low', damped_n_high2='mode_info.daughter_2.n.high',
         mode_l=_L, mode_m=_M),
    dict(adiabatic='coupling_coefficient.adiabatic', use_complex='coupling_coefficient.use_complex',
         use_symbolic_profiles='coupling_coefficient.symbolic_profiles',
         use_brunt_def='coupling_coefficient.brunt_def_profiles',
         use_rotating_formalism='rotation.rotating_formalism',
         terms_cc_conj=('tuple', 'coupling_coefficient.terms_cc_conj'),
         polytrope_comp='coupling_coefficient.compute_for_polytrope',
         analytic_polytrope='coupling_coefficient.analytic_polytrope'),
    dict(use_parallel='computation.parallel_mode_coupling', compute_grid='computation.compute_grid_models',
         compute_profile='computation.compute_coefficient_profile', progress_bars='computation.display_progress'),
    _POLY,
    dict(polytrope_mass='POLY_model.mass', polytrope_radius='POLY_model.radius'),
    dict(numerical_integration_method='computation.integration_method',
         use_cheby_integration='computation.angular.use_cheby',
         cheby_order_multiplier='computation.angular.cheby_mul',
         cheby_blow_up_protection='computation.angular.blow_up_protect',
         cheby_blow_up_factor='computation.angular.blow_up_fac'),
    'GYRE_selection.specifier.adiabatic', 'GYRE_selection.specifier.nonadiabatic',
    'POLY_selection.specifier.modes', 'verbosity-debug.get_debug_info')

_SAVE = dict(save_base_dir='saving.plot.base_dir', save_dir='saving.plot.save_dir',
             extra_specifier_save='saving.plot.extra_specifier', save_formats='saving.plot.save_formats',
             sharpness_save_name='saving.plot.sharpness.save_name',
             sharpness_subdir='saving.plot.sharpness.save_subdir',
             overview_save_name='saving.plot.overview.save_name',
             overview_subdir='saving.plot.overview.save_subdir')
_FIG = dict(plot_overview='plotting.plot.overview', verbose='verbosity-debug.verbose',
            plot_coefficient_profile='plotting.plot.coefficient_profile',
            plot_resonance_sharpness='plotting.plot.resonance_sharpness', fig_size='plotting.figure.size',
            fig_dpi='plotting.figure.dpi', ax_label_size='plotting.labels.ax_label.size',
            tick_label_size='plotting.labels.tick_label.size', tick_size='plotting.ticks.size',
            rad_nr='plotting.misc.rad_nr', show_plots='plotting.plot.show',
            cmap='plotting.colors.matplotlib_color_map', tick_label_pad='plotting.labels.tick_label.pad')
_LOAD = dict(**{k: f'plotting.load.{k}' for k in
                ('base_file_names', 'specification_names', 'masses', 'Xcs', 'triple_pairs', 'meridional_degrees',
                 'azimuthal_orders', 'file_suffix', 'nr_files', 'output_dir', 'base_dir')},
             use_standard_format=('not', 'plotting.load.use_custom_name'))
PLOT = (_SAVE, _GYRE, _FIG, _LOAD)
ANALYZE = (*PLOT, dict(numbers_categories='analysis.numbers_categories', q_Q1_condition='analysis.q_Q1_condition',
                       isolated_mode_properties='analysis.isolated_mode_properties',
                       isolated_stab_val_estimators='analysis.isolated_stability_validity_estimators',
                       isolated_triad_observables='analysis.isolated_triad_observables'))


def _paths(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for v in x.values():
            yield from _paths(v)
    elif isinstance(x, tuple) and x[0] in ('not', 'tuple'):
        yield x[1]
    else:
        for v in x:
            yield from _paths(v)


def _get(t, path):
    for k in path.split('.'):
        t = t[k]
    return t


def dotted(t, x):
    """The value an entry of the tables stands for, in the nested dictionary t ({} is a missing value)."""
    if isinstance(x, list):
        return [dotted(t, v) for v in x]
    if isinstance(x, tuple):
        v = _get(t, x[1])
        return not v if x[0] == 'not' else tuple(v)
    v = _get(t, x)
    return None if v == {} else v


def put(t, path, value):
    *head, last = path.split('.')
    for k in head:
        t = t.setdefault(k, {})
    t[last] = value


def get(t, path):
    return _get(t, path)


def template():
    """All elements with values of the kind they have in the inlist of the repository."""
    t = {}
    for p in _paths([SOLVE, ANALYZE]):
        put(t, p, '')
    for p in _paths([SOLVE[6], SOLVE[3], ANALYZE[4], ('not', 'plotting.load.use_custom_name')]):
        put(t, p, False)
    for p in ('verbosity-debug.verbose', 'verbosity-debug.debug', 'verbosity-debug.get_debug_info',
              'plotting.plot.overview', 'plotting.plot.coefficient_profile', 'plotting.plot.resonance_sharpness',
              'plotting.plot.show', 'computation.angular.use_cheby', 'computation.angular.blow_up_protect',
              *(v for v in SOLVE[5].values() if isinstance(v, str))):
        put(t, p, False)
    for p in _paths([SOLVE[2], SOLVE[4]]):
        put(t, p, 1)
    for p in ('rotation.rot_percent', 'plotting.figure.dpi', 'plotting.labels.ax_label.size',
              'plotting.labels.tick_label.size', 'plotting.ticks.size', 'plotting.misc.rad_nr',
              'plotting.labels.tick_label.pad', 'plotting.load.nr_files', 'computation.angular.cheby_mul'):
        put(t, p, 1)
    for p in ('POLY_model.mass', 'POLY_model.radius', 'computation.angular.blow_up_fac'):
        put(t, p, 1.0)
    put(t, 'coupling_coefficient.terms_cc_conj', [True, False, False])
    for p in ('saving.plot.save_formats', 'plotting.figure.size', *_LOAD.values()):
        if isinstance(p, str) and get(t, p) == '' and not p.endswith('_dir'):
            put(t, p, [])
    for p in ('GYRE_selection', 'POLY_selection'):
        put(t, p + '.alternative.directory_path', {})
        put(t, p + '.alternative.file_name', {})
    return t


def sentinels(t, rng):
    """Replaces every value by one that occurs only once (booleans: at random)."""
    used = set()

    def new(v):
        if isinstance(v, dict):
            if not v:
                return {} if rng.random() < .5 else new('')
            return {k: new(x) for k, x in v.items()}
        if isinstance(v, bool):
            return bool(rng.random() < .5)
        while True:
            if isinstance(v, int):
                r = int(rng.integers(-10**6, 10**6))
            elif isinstance(v, float):
                r = float(rng.normal())
            else:
                r = ''.join(rng.choice(list(string.ascii_lowercase + '/._'), 9))
            if r not in used:
                used.add(r)
                break
        if isinstance(v, list):
            if v and isinstance(v[0], bool):
                return [bool(b) for b in rng.random(3) < .5]
            return [[r, int(rng.integers(9))], r, 1.5] if rng.random() < .5 else [r]
        return r
    return new(t)


def _text(v):
    if v == {}:
        return '{}'
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, list):
        return '[' + ', '.join(map(_text, v)) + ']'
    return repr(v)


def render(t, rng=None):
    """TOML text of the nested dictionary: one table per section, dotted keys in random order."""
    out = []

    def flat(d, pre):
        for k, v in d.items():
            if isinstance(v, dict) and v:
                yield from flat(v, pre + k + '.')
            else:
                yield f'{pre}{k} = {_text(v)}'
    for sec, d in t.items():
        out.append(f'# the section on {sec}\n[{sec}]')
        lines = list(flat(d, ''))
        if rng is not None:
            rng.shuffle(lines)
        out += lines
    return '\n'.join(out) + '\n'
