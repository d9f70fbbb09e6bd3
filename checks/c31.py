"""C31: complete analysis and plotting runs (inlist and result files in, printed sections or figures out)."""
import contextlib
import hashlib
import io
import os
import re
import runpy
import shutil
import sys
import tempfile

import h5py
import matplotlib
matplotlib.use('Agg')
import numpy as np  # noqa: E402

from vh import build  # noqa: E402
from vh import pipeline as pipe  # noqa: E402
from vh.masks import reference  # noqa: E402
from vh.report import Check  # noqa: E402
from vh.results import PATHS, analysed, make_models  # noqa: E402

ck = Check('C31', 'one case = one complete run of an analysis or plotting script on generated result files; '
                  'every printed number is compared with the numbers in the files')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv',
             'histogram_maker'])
import matplotlib.pyplot as plt  # noqa: E402

rng = ck.rng()
TMP = tempfile.mkdtemp(prefix='c31_')
SWITCH = dict(numbers='numbers_categories', q='q_Q1_condition', modes='isolated_mode_properties',
              validity='isolated_stability_validity_estimators', observables='isolated_triad_observables')
NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|\.\d+|nan|inf)(?!\w)')


# ---- what has to be printed: (words of the label, model or None, numbers)
def expected(want, on):
    out = []
    rows = []
    for d in want:
        w = analysed(d)
        st, ae, iso = reference(dict(d, **{k: w[k] for k in ('thresh_surf_ppm', 'linear_omega_diff_to_min_omega')}))
        rows.append((d, w, st, ae, iso))
    n_all = sum(len(r[2]) for r in rows)
    if 'numbers' in on:
        for i, (d, w, st, ae, iso) in enumerate(rows):
            c = d['checks']
            for words, v in (('Total', len(c)), ('_g_box_dot_ok', c[:, 3].sum()), ('Quartic', c[:, 4].sum()),
                             ('hyperbolic', c[:, 5].sum()), ('AE validity', ae.sum()), ('isolation', iso.sum()),
                             ('fulfilling the stability conditions', st.sum()),
                             ('fulfilling the validity conditions', (ae & iso).sum()),
                             ('stability and validity', (st & ae & iso).sum())):
                out.append((words, i, [v]))
    if 'q' in on:
        tot = {}
        per = []
        for i, (d, w, st, ae, iso) in enumerate(rows):
            r = w['surf_ratio_daughter_parent_OG_SHAPE']
            both = np.array([bool(a > 1) and bool(b > 1) for a, b in r])
            big = np.array([bool(a > b) for a, b in zip(w['q'], w['p_quality_factors'])])
            out.append(('q > Q1', i, [big.sum()]))
            x = both & big
            for k, m in (('q', big), ('both', both), ('x', x), ('y', both & ~big), ('st', st & x), ('nst', x & ~st),
                         ('ae', ae & x), ('nae', x & ~ae), ('iso', iso & x), ('niso', x & ~iso),
                         ('val', ae & iso & x), ('nval', x & ~(ae & iso)), ('sv', st & ae & iso & x),
                         ('nsv', x & ~(st & ae & iso)), ('rae', ae & both), ('rnae', both & ~ae)):
                tot[k] = tot.get(k, 0) + int(m.sum())
            per.append((d, w, r, x, both & ~big))
            ck.observe('triads with both ratios above unity, q > Q1', int(x.sum()))
            ck.observe('triads with both ratios above unity, q <= Q1', int((both & ~big).sum()))
        names = ('triads for which q > Q1', 'triads for which both .* unity \\(', 'triads for which both .* q > Q1',
                 'triads for which both .* q <= Q1', ' stable triads', ' unstable triads', ' AE-valid triads .* q > Q1',
                 ' AE-invalid triads .* q > Q1', ' isolated triads', ' non-isolated triads', ' valid triads',
                 ' invalid triads', ' stable and valid triads', ' instable and/or invalid triads',
                 ' AE-valid triads .* unity \\(', ' AE-invalid triads .* unity \\(')
        for nm, v in zip(names, tot.values()):
            out.append((nm, None, [n_all, v]))
        for which, head in ((3, 'that satisfy q > Q1'), (4, 'that do not satisfy q > Q1')):
            out.append((head, None, []))
            for i, p in enumerate(per):
                d, w, r, m = p[0], p[1], p[2], p[which]
                out.append(('triads of this type', i, [int(m.sum())] if m.any() else []))
                if m.any():
                    out += [('^q', None, w['q'][m]), ('^Q1', None, w['p_quality_factors'][m]),
                            ('ratio', None, r[m]), ('Radial', None, d['rad_ord'][m])]
    for sec in ('modes', 'validity', 'observables'):
        for i, (d, w, st, ae, iso) in enumerate(rows):
            if sec not in on:
                break
            m = st & ae & iso
            ck.observe('isolated triads printed', int(m.sum()))
            out.append(('Radial orders of isolated', i, d['rad_ord'][m]))
            if sec == 'modes':
                p = w['corot_mode_omegas_p_cpd'][m], *w['corot_mode_omegas_d_cpd'][m].T
                g = d['driv_damp_rates'][m].T * 86400
                with np.errstate(all='ignore'):
                    spin = [max((x for x in s if x == x), default=np.nan) for s in w['spin_parameters'][m]]
                out += [('Delta Omega', i, w['linear_omega_diff_cpd'][m]),
                        ('Gamma_sum .*10-3', i, w['gamma_sum_cpd'][m] * 1e3), ('Corot omegas', i, np.concatenate(p)),
                        ('Gammas .*10-5', i, g.ravel() * 1e5), ('spin', i, spin)]
            elif sec == 'validity':
                out += [('AE param', i, np.abs(w['linear_omega_diff_to_min_omega'][m])),
                        (r'\|q\|', i, np.abs(w['q'][m])), (r'\|q1\|', i, np.abs(w['q1'][m])),
                        ('Theta_2', i, w['theta2'][m]), ('Theta_3', i, w['theta3'][m]),
                        ('eta1', i, np.abs(d['kappa_norm'][m]))]
            else:
                out += [('frequency shifts .*ppt', i,
                         [1e3 * max(abs(x)) for x in w['nonlinear frequency shift/omega inert'][m]]),
                        ('phases', i, w['nonlinear phase'][m]),
                        ('luminosity', i, w['surf_ratio_daughter_parent_OG_SHAPE'][m].T)]
    return out


def items(txt):
    """Printed items: a line that starts with a letter or a bar, with the lines of numbers after it."""
    out = []
    for line in txt.splitlines():
        if re.match(r'[A-Za-z|]', line) and not re.match(r'(nan|inf)\b', line):
            out.append(line)
        elif line.strip() and out:
            out[-1] += '\n' + line
    return [x for x in out if not x.startswith(('Their properties', 'The following parent radial orders'))]


def numbers(item):
    m = re.search(r'(?s)(?:: |\bis |\bhas )(.*)$', item)
    if m is None:
        return ''
    v = m.group(1)
    k = re.search(r'all (\d+) models', item[:m.start()])
    return (k.group(1) + ' ' if k else '') + v


def judge(txt, want, on, wit):
    got, exp = items(txt), expected(want, on)
    if not ck.expect(len(got) == len(exp), 'sections', f'{len(got)} items printed instead of {len(exp)}',
                     dict(wit, on=sorted(on), labels=[g.split(chr(10))[0][:90] for g in got][:60])):
        return
    for g, (words, model, vals) in zip(got, exp):
        head = g.split('\n')[0]
        ok = re.search(words, head) is not None
        if model is not None:
            ok = ok and re.search(rf'(?i)\bmodel{model + 1}\b', head) is not None
        if not ck.expect(ok, 'order', 'another item is printed in this place',
                         dict(wit, printed=head[:200], expected=words, model=model)):
            return
        s = numbers(g)
        if '...' in s:
            continue
        v = np.ravel(np.asarray(vals, float))
        toks = NUM.findall(s)
        bad = len(toks) != len(v)
        if not bad:
            for t, x in zip(toks, v):
                y = float(t)
                e = int(t.split('e')[1]) if 'e' in t else 0
                if not (y == x or (y != y and x != x) or abs(y - x) <= 6e-9 * 10. ** e + 1e-8 * abs(x)):
                    bad = True
        ck.expect(not bad, 'numbers', 'printed numbers are not those of the triads',
                  dict(wit, item=g[:600], expected=v[:40]))
        ck.observe('printed numbers', len(v))


def digest(root):
    out = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return out


def script(T, which, name):
    """Runs the run script, returns what it prints."""
    src = os.path.join(build.REPO, 'run_scripts', which)
    dst = os.path.join(T.repo, 'run_scripts', which)
    shutil.copy(src, dst)
    keep = sys.argv
    sys.argv = [dst, *([name, 'toml', 'inlists'] if name else [])]
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
            runpy.run_path(dst, run_name='__main__')
    finally:
        sys.argv = keep
    return buf.getvalue()


def tree(root, load, opts):
    T = pipe.Tree(root)
    for k, v in load.items():
        if k == 'use_standard_format':
            T.set('plotting.load.use_custom_name', not v)
        else:
            T.set(f'plotting.load.{k}', v)
    for k, v in opts.items():
        T.set(k, v)
    return T


def damage(d):
    """Damages one result file; what was done to it."""
    p = os.path.join(d, str(rng.choice(sorted(os.listdir(d)))))
    how = str(rng.choice(['removed', 'truncated', 'garbage', 'dataset', 'dataset', 'attribute']))
    if how == 'removed':
        os.remove(p)
    elif how == 'truncated':
        with open(p, 'r+b') as f:
            f.truncate(int(rng.integers(0, os.path.getsize(p))))
    elif how == 'garbage':
        with open(p, 'wb') as f:
            f.write(rng.bytes(5000))
    else:
        with h5py.File(p, 'r+') as f:
            if how == 'attribute':
                del f['quantum_numbers'].attrs['m']
            else:
                q = str(rng.choice(sorted(PATHS)))
                del f[PATHS[q]]
                how += ' ' + q
    return f'{os.path.basename(p)}: {how}'


SHOWN = []
for it in range(ck.n(36, 1500)):
    root = os.path.join(TMP, str(it))
    os.makedirs(root)
    try:
        load, want, style = make_models(rng, root, nmod=int(rng.integers(8, 11)) if it % 12 == 5 else None)
        on = {k for k in SWITCH if rng.random() < .55}
        if it < 5:
            on = {list(SWITCH)[it]}
        name = None if rng.random() < .5 else str(rng.choice(['my_run', 'x1']))
        opts = {f'analysis.{v}': k in on for k, v in SWITCH.items()}
        opts['verbosity-debug.verbose'] = bool(rng.random() < .3)
        opts['plotting.plot.show'] = bool(rng.random() < .5)
        T = tree(root, load, opts)
        T.write_inlist(name or 'inlist', rng)
        if name:
            T.set('plotting.load.base_dir', '/nonexistent')
            T.write_inlist('inlist', rng)
        wit = dict(it=it, style=style, load=load, on=sorted(on))
        txt, before = None, digest(os.path.join(root, 'out'))
        ck.case(f'analysis-{style}', (it, len(want), tuple(sorted(on))))
        with ck.guard('analysis-raised', 'a complete analysis run fails', wit):
            txt = script(T, 'analyze_quadratic.py', name)
            judge(txt, want, on, wit)
            ck.observe('analysis runs')
            for k in on:
                ck.observe(f'section {k}')
        ck.expect(digest(os.path.join(root, 'out')) == before, 'inputs', 'a run changed the result files', wit)
        if on:
            what = damage(os.path.join(root, 'out', 'sub'))
            ck.case('analysis-damaged', (it, what))
            try:
                again = script(T, 'analyze_quadratic.py', name)
            except (Exception, SystemExit):
                ck.observe('runs with a damaged file that fail')
            else:
                ck.observe('runs with a damaged file that print everything')
                ck.expect(again == txt, 'damaged', 'a run with a damaged result file reports no error, but other numbers',
                          dict(wit, damage=what))
    finally:
        shutil.rmtree(root, ignore_errors=True)

keep_show = plt.show
plt.show = lambda *a, **k: SHOWN.append(len(plt.get_fignums()))
for it in range(ck.n(10, 300)):
    root = os.path.join(TMP, f'p{it}')
    os.makedirs(root)
    SHOWN.clear()
    try:
        load, want, style = make_models(rng, root)
        over, sharp = [(True, True), (True, False), (False, True), (False, False)][it % 4]
        show = bool(rng.random() < .5)
        fmts = [['png'], ['png', 'pdf'], ['svg'], ['pdf', 'svg']][int(rng.integers(4))]
        extra = str(rng.choice(['', 'v2', 'x_0.5']))
        label = [str(rng.choice([q, q + '_1.5', 'my ' + q])) for q in ('sharp', 'over')]
        subs = [str(rng.choice(['', 'sub', 'a/b'])) for _ in range(2)]
        figs = os.path.join(root, 'figs')
        opts = {'saving.plot.base_dir': figs, 'saving.plot.save_dir': 'run', 'saving.plot.extra_specifier': extra,
                'saving.plot.save_formats': fmts, 'saving.plot.sharpness.save_name': label[0],
                'saving.plot.sharpness.save_subdir': subs[0], 'saving.plot.overview.save_name': label[1],
                'saving.plot.overview.save_subdir': subs[1], 'plotting.plot.overview': over,
                'plotting.plot.resonance_sharpness': sharp, 'plotting.plot.show': show,
                'plotting.figure.size': [4, 3], 'plotting.figure.dpi': 50, 'plotting.labels.ax_label.size': 11,
                'plotting.labels.tick_label.size': 9, 'plotting.ticks.size': 5, 'plotting.labels.tick_label.pad': 3,
                'plotting.colors.matplotlib_color_map': 'viridis'}
        T = tree(root, load, opts)
        T.write_inlist('inlist', rng)
        wit = dict(it=it, style=style, over=over, sharp=sharp, show=show, formats=fmts)
        before = digest(os.path.join(root, 'out'))
        ck.case(f'plots-{style}', (it, len(want), over, sharp, show))
        with ck.guard('plots-raised', 'a complete plotting run fails', wit):
            script(T, 'plot_quadratic.py', None)
            names = {os.path.normpath(os.path.join(figs, 'run', s, f'{nm}{"_" + extra if extra else ""}.{f}'))
                     for on, s, nm in ((over, subs[1], label[1]), (sharp, subs[0], label[0])) if on for f in fmts}
            got = {p for p in digest(figs)} if os.path.isdir(figs) else set()
            ck.expect(got == names, 'figures', 'the saved figures are not those the inlist asks for',
                      dict(wit, got=sorted(got), want=sorted(names)))
            ck.expect(all(os.path.getsize(p) > 100 for p in got), 'figure-size', 'empty figure file', wit)
            ck.expect(len(SHOWN) == show, 'shown', 'figures are shown exactly if the inlist asks for it',
                      dict(wit, calls=len(SHOWN)))
            ck.observe('plotting runs')
            ck.observe('figure files', len(got))
        ck.expect(digest(os.path.join(root, 'out')) == before, 'inputs', 'a run changed the result files', wit)
        if over or sharp:
            what = damage(os.path.join(root, 'out', 'sub'))
            ck.case('plots-damaged', (it, what))
            try:
                script(T, 'plot_quadratic.py', None)
            except (Exception, SystemExit):
                ck.observe('runs with a damaged file that fail')
            else:
                ck.expect(': dataset' in what, 'damaged-plots', 'a plotting run with a damaged result file reports no error',
                          dict(wit, damage=what))
    finally:
        plt.close('all')
        shutil.rmtree(root, ignore_errors=True)
plt.show = keep_show
shutil.rmtree(TMP, ignore_errors=True)
ck.need('printed numbers', 2000)
ck.need('isolated triads printed', 30)
for k in SWITCH:
    ck.need(f'section {k}', 3)
ck.need('figure files', 4)
ck.need('runs with a damaged file that fail', 5)
ck.finish()
