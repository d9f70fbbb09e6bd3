"""C22: text and TOML inlists, argument parsers, information-directory files, path resolution."""
import contextlib
import logging
import os
import shutil
import string
import sys
import tempfile
from pathlib import Path

from vh import build
from vh.report import Check

ck = Check('C22', 'one case = one generated configuration file, argument vector or directory tree; '
           'oracle: the values the generator wrote')
build.setup(['cpp-numintegrator', 'cpp-ld-funcs', 'cpp-disc-integrator', 'fornberg-num-deriv'])
from generic_parser import GenericParser  # noqa: E402
from inlist_handler import InlistHandler, TomlInlistHandler  # noqa: E402
from log_formatter import adjust_root_logger_level  # noqa: E402
from path_resolver import resolve_path_to_file  # noqa: E402

rng = ck.rng()
TMP = os.path.realpath(tempfile.mkdtemp(prefix='c22_'))
HOME = os.getcwd()


def same(a, b):
    """Equal values of equal types, through all nesting levels."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


@contextlib.contextmanager
def argv(*args):
    keep = sys.argv
    sys.argv = [str(a) for a in args]
    try:
        yield
    finally:
        sys.argv = keep


@contextlib.contextmanager
def cwd(path):
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(HOME)


def pick(seq):
    return seq[int(rng.integers(len(seq)))]


def word(lo=1, hi=8, chars=string.ascii_letters + '_'):
    return ''.join(pick(chars) for _ in range(int(rng.integers(lo, hi + 1))))


# ---------------------------------------------------------------- text inlists
STR = string.ascii_letters + string.digits + ' _-./%=[](),:#+*\\'


def t_int():
    v = int(pick([0, 1, -1, 7, 2023, -12, 10**12])) if rng.random() < .5 else int(rng.integers(-999, 999))
    return (str(v) if v < 0 or rng.random() < .9 else f'+{v}'), v


def t_float():
    m = float(rng.normal()) * 10.0 ** int(rng.integers(-8, 9))
    style = int(rng.integers(7))
    if style == 0:
        s = repr(m)
    elif style == 1:
        s = f'{m:.{int(rng.integers(1, 9))}e}'
    elif style == 2:
        s = f'{m:.{int(rng.integers(1, 9))}f}'
    elif style == 3:
        s = f'{int(rng.integers(-99, 99))}.'
    elif style == 4:
        s = f'{pick(["", "-"])}.{int(rng.integers(0, 1000))}'
    elif style == 5:
        s = f'{int(rng.integers(-99, 99))}{pick("eE")}{pick(["", "+", "-"])}{int(rng.integers(0, 20)):0{int(rng.integers(1, 3))}d}'
    else:
        s = f'{m:.3E}'
    return s, float(s)


def t_bool(lists=False):
    return pick([('True', True), ('False', False)] if lists else
                [('True', True), ('False', False), ('TRUE', True), ('FALSE', False)])


def t_str(lists=False):
    s = ''.join(pick(STR) for _ in range(int(rng.integers(0, 25))))
    q = pick('\'"')
    if lists:
        s = s.replace('\\', '/')                   # list elements are Python literals
    elif rng.random() < .2:
        s += {'"': "it's", "'": 'the "x"'}[q]      # the other quote is an ordinary character
        if rng.random() < .5:
            s += word()
    return q + s + q, s


def t_none():
    return 'None', None


def t_seq(depth=0):
    kind = int(rng.integers(6))
    n = int(rng.integers(0, 5))
    make = [t_int, t_float, lambda: t_bool(True), lambda: t_str(True), t_none, None][kind]
    items = []
    for _ in range(n):
        if make is None or rng.random() < .15:
            if depth < 2 and rng.random() < .4:
                items.append(t_seq(depth + 1))
            else:
                items.append(pick([t_int, t_float, lambda: t_bool(True), lambda: t_str(True), t_none])())
        else:
            items.append(make())
    sep = pick([',', ', ', ' , '])
    body = sep.join(i[0] for i in items)
    if rng.random() < .5:
        pad = pick(['', ' '])
        return f'[{pad}{body}{pad}]', [i[1] for i in items]
    if n == 1:
        body += ','
    return f'({body})', tuple(i[1] for i in items)


def t_value():
    return pick([t_int, t_float, t_bool, t_str, t_none, t_seq, t_seq])()


def render_text(items):
    out = []
    for k, s in items:
        while rng.random() < .3:
            out.append(pick(['', '   ', '%', '%%%%%%', '% ' + word() + ' = ' + t_value()[0],
                             "  % it's a comment"]))
        pad = pick(['', '    ', '\t', ' '])
        eq = pick(['=', ' = ', '  =', '= '])
        end = pick(['', '', '  ', ' % ' + word(), '%' + word() + ' = 3', ' % don\'t', ' % "x" = [1]'])
        out.append(f'{pad}{k}{eq}{s}{end}')
    return '\n'.join(out) + pick(['', '\n', '\n\n'])


for it in range(ck.n(500, 8000)):
    base = os.path.join(TMP, f't{it}')
    os.makedirs(base + '/defaults')
    user = pick(['user_input', 'user', 'a.b'])
    os.makedirs(f'{base}/{user}')
    keys = list(dict.fromkeys(word(2, 12) for _ in range(int(rng.integers(0, 12)))))
    dflt = {k: t_value() for k in keys}
    new = {k: t_value() for k in keys if rng.random() < .5}
    new.update({word(2, 12): t_value() for _ in range(int(rng.integers(0, 6)))})
    if rng.random() < .5:
        for k in list(new):
            if k in dflt and rng.random() < .3:
                new[k] = ('None', None)
    order = list(new)
    rng.shuffle(order)
    lines = []
    for k in order:
        if rng.random() < .1:                      # the last entry counts
            lines.append((k, t_value()[0]))
        lines.append((k, new[k][0]))
    name = pick(['run', 'my.run', 'inlist_1'])
    suffix = pick(['in', 'inlist', 'txt'])
    open(f'{base}/defaults/{name}.defaults', 'w').write(render_text([(k, v[0]) for k, v in dflt.items()]))
    txt = render_text(lines)
    p = f'{base}/{user}/{name}.{suffix}'
    open(p, 'w').write(txt)
    want = {k: v[1] for k, v in {**dflt, **new}.items()}
    ck.case('text-inlist', txt, sample=txt[:300])
    with ck.guard('text-raised', witness=dict(text=txt, defaults=open(f'{base}/defaults/{name}.defaults').read())):
        got = InlistHandler.get_inlist_values(p)
        for k in want:
            ck.observe('text-value')
            ck.expect(isinstance(got, dict) and k in got, 'text-missing', f'the element {k} of a text inlist is lost',
                      dict(text=txt, key=k))
            if isinstance(got, dict) and k in got:
                ck.expect(same(got[k], want[k]), 'text-value',
                          'a value of a text inlist is not the value that is written',
                          dict(written={**dflt, **new}[k][0], got=repr(got[k]), want=repr(want[k]),
                               overridden=k in dflt and k in new))
        if isinstance(got, dict):
            ck.expect(set(got) == set(want), 'text-extra', 'a text inlist yields elements that are not in it',
                      dict(text=txt, extra=sorted(set(got) - set(want))))
    shutil.rmtree(base)

# values that are no value at all are not replaced silently
for it, bad in enumerate(['word', '[1, 2', '1 2', '', 'a b', '1,2', '--3', '1.2.3', "[a]"]):
    base = os.path.join(TMP, f'x{it}')
    os.makedirs(base + '/defaults'), os.makedirs(base + '/user')
    open(f'{base}/defaults/a.defaults', 'w').write('z = 1\n')
    open(f'{base}/user/a.in', 'w').write(f'y = 2\nx = {bad}\nw = 3\n')
    ck.case('text-malformed', bad)
    try:
        got = InlistHandler.get_inlist_values(f'{base}/user/a.in')
    except Exception:
        got = None
    ck.expect(not isinstance(got, dict), 'text-malformed', 'an inlist with a value that cannot be understood is '
              'accepted', dict(value=bad, got=repr(got)))

# ---------------------------------------------------------------- TOML inlists
EMPTY = object()


def toml_key():
    k = word(1, 7, string.ascii_letters + '-_')
    return k


def toml_scalar():
    kind = int(rng.integers(6))
    if kind == 0:
        v = int(rng.integers(-10**6, 10**6)) * int(rng.random() < .8)
        return str(v), v
    if kind == 1:
        v = float(rng.normal() * 10.0 ** int(rng.integers(-5, 6))) * (rng.random() < .8)
        return pick([repr(v), f'{v:.5e}']), None
    if kind == 2:
        return pick([('true', True), ('false', False)])
    if kind == 3:
        s = ''.join(pick(string.ascii_letters + ' /._-#[]{}=') for _ in range(int(rng.integers(0, 15))))
        return pick([f"'{s}'", f'"{s}"', f'"""\n{s[:5]}\\\n   {s[5:]}\\\n"""']), s
    if kind == 4:
        n = int(rng.integers(0, 4))
        v = [int(x) for x in rng.integers(-50, 50, n)]
        return str(v), v
    v = [[word() for _ in range(int(rng.integers(0, 3)))] for _ in range(int(rng.integers(0, 3)))]
    return str(v), v


def toml_value():
    s, v = toml_scalar()
    if s.startswith('"""'):
        body = s[4:-3]
        a, b = body.split('\\\n   ', 1)
        b = b[:-2]
        return s, a + b.lstrip()
    if v is None:
        return s, float(s)
    return s, v


def toml_tree(depth=0):
    """Nested {key: (text, value) | subtree | EMPTY}."""
    t = {}
    for _ in range(int(rng.integers(1, 5))):
        k = toml_key()
        r = rng.random()
        if r < .15:
            t[k] = EMPTY
        elif r < .5 and depth < 3:
            t[k] = toml_tree(depth + 1)
        else:
            t[k] = toml_value()
    return t


def want_of(t):
    return None if t is EMPTY else ({k: want_of(v) for k, v in t.items()} if isinstance(t, dict) else t[1])


def inline(t):
    return '{' + ', '.join(f'{k} = {inline(v) if isinstance(v, dict) else "{}" if v is EMPTY else v[0]}'
                           for k, v in t.items()) + '}'


def has_multi(t):
    return t is not EMPTY and (any(has_multi(v) for v in t.values()) if isinstance(t, dict) else t[0].startswith('"""'))


def flat(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict):
            if not has_multi(v) and rng.random() < .3:
                yield pre + (k,), inline(v)
            else:
                yield from flat(v, pre + (k,))
        else:
            yield pre + (k,), '{}' if v is EMPTY else v[0]


def render_toml(t):
    out, tables = [], []
    for k, v in t.items():
        if isinstance(v, dict) and rng.random() < .7:
            tables.append((k, v))
        else:
            out += [f'{".".join(p)} = {s}' for p, s in flat({k: v})]
    for k, v in tables:
        out.append(f'[{k}]')
        out += [f'{".".join(p)} = {s}' for p, s in flat(v)]
    res = []
    for line in out:
        while rng.random() < .25:
            res.append(pick(['', '# a comment = {}', '   # [x]']))
        res.append(pick(['', '  ']) + line + ('' if '"""' in line else pick(['', '', '  # note'])))
    return '\n'.join(res) + '\n'


for it in range(ck.n(400, 6000)):
    t = toml_tree()
    txt = render_toml(t)
    p = os.path.join(TMP, 'i.toml')
    open(p, 'w').write(txt)
    ck.case('toml-inlist', txt, sample=txt[:300])
    want = want_of(t)
    with ck.guard('toml-raised', witness=dict(text=txt)):
        got = TomlInlistHandler.get_inlist_values(pick([p, Path(p)]))
        ck.expect(same(got, want), 'toml-value', 'a TOML inlist is not read as written',
                  dict(text=txt, got=repr(got), want=repr(want)))

# ---------------------------------------------------------------- the generic parser


class Parser(GenericParser):
    def _set_up_specific_argparser_groups_arguments(self):
        self._parser.add_argument('--extra', type=int, default=None)

    def read_toml_args(self):
        return ('toml', self._args.extra)

    def read_custom_args(self):
        return ('custom', self._args.extra)


def leaves(t, pre=()):
    for k, v in t.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, pre + (k,))
        yield pre + (k,), v


for it in range(ck.n(150, 2000)):
    root = os.path.join(TMP, f'g{it}')
    reponame = pick(['AESolver', 'AESolver-main', 'my_AESolver'])
    sub = pick(['inlists', 'inlists/user_input', 'a/b/c', 'AESolver_inlists/x'])
    name = pick(['inlist', 'inlist.v2', 'my.in.list', 'inlist_AESolver'])
    toml = rng.random() < .6
    suffix = 'toml' if toml else pick(['in', 'inlist'])
    d = f'{root}/{reponame}/{sub}'
    os.makedirs(d)
    os.makedirs(os.path.dirname(d) + '/defaults', exist_ok=True)
    os.makedirs(f'{root}/other')
    if toml:
        t = toml_tree()
        body, want = render_toml(t), want_of(t)
    else:
        vals = {word(3, 9): t_value() for _ in range(8)}
        body, want = render_text([(k, v[0]) for k, v in vals.items()]), {k: v[1] for k, v in vals.items()}
        open(f'{os.path.dirname(d)}/defaults/{name}.defaults', 'w').write('unset_element = 5\n')
        want['unset_element'] = 5
    full = f'{d}/{name}.{suffix}'
    open(full, 'w').write(body)
    extra = pick([None, int(rng.integers(100))])
    debug, quiet = rng.random() < .5, rng.random() < .5
    args = ['prog', *(['--extra', extra] if extra is not None else []), *(['--debug'] if debug else []),
            *(['-no_verbose'] if quiet else []), *(['stray', '--unknown', '3'] if rng.random() < .3 else [])]
    over = None
    if rng.random() < .3:                          # another inlist on the command line
        over = f'{d}/other_one.{suffix}'
        if toml:
            t = toml_tree()
            open(over, 'w').write(render_toml(t))
            want = want_of(t)
        else:
            open(over, 'w').write('q_q = 8\n')
            open(f'{os.path.dirname(d)}/defaults/other_one.defaults', 'w').write('r_r = [1, 2]\n')
            want = {'q_q': 8, 'r_r': [1, 2]}
        args += ['--inlist_name', over]
    mode = int(rng.integers(3))
    kw = {}
    if mode in (0, 2):
        kw['full_inlist_path'] = Path(full)
    if mode == 1:
        kw.update(base_dir=f'{root}/{reponame}', inlist_name=name, inlist_dir=sub, inlist_suffix=suffix)
        if sub == 'inlists/user_input' and rng.random() < .5:
            kw['inlist_dir'] = None
    if mode == 2:
        kw.update(base_dir=f'{root}/other', inlist_name='nothing', inlist_suffix=suffix)
    wit = dict(path=full, argv=args, kw={k: str(v) for k, v in kw.items()}, text=body)
    ck.case('parser', [reponame, sub, name, suffix, mode, args[1:], body], sample=wit)
    with ck.guard('parser-raised', witness=wit), argv(*args), cwd(root):
        try:
            p = Parser('AESolver', **kw)
        except SystemExit:
            ck.violate('parser-exit', 'the parser does not find an existing inlist', wit)
            continue
        ck.expect(os.path.realpath(p.inlist_path) == (over or full), 'parser-path',
                  'the parser uses another inlist than the one asked for', {**wit, 'got': p.inlist_path})
        ck.expect(p.read_args() == ('toml' if toml else 'custom', extra), 'parser-args',
                  'command-line arguments do not override the defaults exactly when given', wit)
        allv = list(leaves(want))
        paths = [list(q) for q, _ in allv]
        vals = [v for _, v in allv]
        # keys which are not there, and keys below a missing value
        for q, v in allv:
            if v is None:
                paths.append([*q, 'below']), vals.append(None)
        paths.append(['surely', 'missing', 'element']), vals.append(None)
        paths.append([*list(allv[0][0])[:-1], 'surely_missing']), vals.append(None)
        for two in (True, False):
            tl = [(f'k{i}', q) if two else (f'k{i}', q, False) for i, q in enumerate(paths)]
            got = p.read_in_to_dict(tl)
            ck.expect(same(got, {f'k{i}': v for i, v in enumerate(vals)}), 'parser-dict',
                      'elements of the inlist are not handed over as written', {**wit, 'got': repr(got)})
        bools = [(q, v) for q, v in zip(paths, vals) if isinstance(v, bool)]
        if bools:
            got = p.read_in_to_dict([(f'k{i}', q, bool(i % 2)) for i, (q, v) in enumerate(bools)])
            ck.expect(same(got, {f'k{i}': v != bool(i % 2) for i, (q, v) in enumerate(bools)}), 'parser-negated',
                      'exactly the values that are marked are negated', {**wit, 'got': repr(got)})
            got = p.read_in_to_list([(q, bool(i % 2)) for i, (q, v) in enumerate(bools)])
            ck.expect(same(got, [v != bool(i % 2) for i, (q, v) in enumerate(bools)]), 'parser-negated',
                      'exactly the values that are marked are negated', {**wit, 'got': repr(got)})
        # key lists of length two are only unambiguous after a longer or shorter one
        lst = [(q, v) for q, v in zip(paths, vals) if len(q) != 2]
        got = p.read_in_to_list([q for q, _ in lst])
        ck.expect(same(got, [v for _, v in lst]), 'parser-list', 'elements of the inlist are not handed over in order',
                  {**wit, 'got': repr(got)})
        if len(next(iter(want))) > 2:
            ck.expect(same(p.read_in_to_list([next(iter(want))]), [want[next(iter(want))]]), 'parser-name',
                      'an element that is asked for by its name is not handed over', wit)
    # arguments instead of an inlist
    with ck.guard('parser-raised', witness=wit), argv(*args, '--no_inlist'), cwd(root):
        p = Parser('AESolver', **kw)
        got = p.read_in_to_list([['extra'], ['debug'], ['no_verbose']])
        ck.expect(got == [extra, debug, quiet], 'parser-no-inlist', 'the command-line arguments are not handed over',
                  {**wit, 'got': got})
    # nothing usable
    with argv('prog'), cwd(root):
        for kw in ({}, dict(base_dir=root), dict(full_inlist_path=Path(f'{root}/other/x.toml')),
                   dict(full_inlist_path=full), dict(base_dir=5, inlist_name='x')):
            ck.raises(lambda: Parser('AESolver', **kw), 'parser-unusable', 'a parser without a usable inlist is made',
                      {k: repr(v) for k, v in kw.items()})
        for kw in (dict(full_inlist_path=Path(f'{d}/absent.toml')),
                   dict(base_dir=f'{root}/{reponame}', inlist_name='absent', inlist_suffix='toml')):
            try:
                Parser('AESolver', **kw)
            except (SystemExit, Exception):
                continue
            ck.violate('parser-absent', 'a parser for a file that does not exist is made', {k: repr(v) for k, v in kw.items()})
    shutil.rmtree(root)

# ---------------------------------------------------------------- verbosity
for dbg in (False, True):
    for verbose in (False, True):
        for level in (logging.INFO, logging.DEBUG, logging.WARNING):
            root = logging.Logger('x', level)
            h = logging.StreamHandler()
            root.addHandler(h)
            info = dict(debug=dbg, verbose=verbose, other=3)
            ck.case('verbosity', [dbg, verbose, level])
            with ck.guard('verbosity-raised', witness=info):
                got = adjust_root_logger_level(root, info)
                want = logging.DEBUG if dbg else (level if verbose else logging.WARNING)
                ck.expect(got is root and root.level == want and h.level == want, 'verbosity',
                          'the verbosity is not the one asked for', dict(debug=dbg, verbose=verbose, level=root.level))
                ck.expect(info == {'other': 3}, 'verbosity-info', 'unrelated information is changed', info)

# ---------------------------------------------------------------- path resolution
for it in range(ck.n(300, 4000)):
    root = os.path.join(TMP, f'p{it}')
    rel = pick(['inlists', 'inlists/', './inlists/', 'a/b', './a/../inlists', '.'])
    run = pick(['..', '../../', '.', '../..'])
    name = pick(['inlist.toml', 'x.dat'])
    script_dir = f'{root}/base/' + pick(['run_scripts', 'x/y', 'deep/er'])
    here = pick([f'{root}/base', f'{root}/elsewhere', script_dir, f'{root}/base/x'])
    for q in (script_dir, here, f'{root}/base/x'):
        os.makedirs(q, exist_ok=True)
    spots = {}
    from_script = os.path.normpath(os.path.join(script_dir, run))
    for start in (here, from_script, f'{root}/base', script_dir):
        if rng.random() < .5:
            for q in ('a/..', rel):
                os.makedirs(os.path.join(start, q.split('/..')[0]), exist_ok=True)
            f = os.path.normpath(os.path.join(start, rel, name))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, 'w').write(f)
    if './a/..' in rel:
        os.makedirs(os.path.join(here, 'a'), exist_ok=True)
        os.makedirs(os.path.join(from_script, 'a'), exist_ok=True)
    cand = [os.path.normpath(os.path.join(s, rel, name)) for s in (here, from_script)]
    want = next((c for c in cand if os.path.exists(c)), None)
    script = os.path.join(script_dir, 'run.py')
    arg0 = pick([script, os.path.relpath(script, here)])
    wit = dict(cwd=here, script=arg0, rel=rel, run=run, name=name, want=want)
    ck.case('path', [here[len(root):], arg0[-30:], rel, run, name, want is None, want == cand[0]], sample=wit)
    with cwd(here):
        try:
            got = resolve_path_to_file([arg0, 'more'], name, rel, run)
        except FileNotFoundError as e:
            ck.expect(want is None, 'path-missed', 'an existing file is not found', wit)
            ck.expect(name in str(e), 'path-message', 'the error does not name the file', wit)
            ck.observe('path-absent')
            continue
        except Exception as e:
            ck.violate('path-raised', f'raised {e!r}', wit)
            continue
        ck.observe('path-in-cwd' if want == cand[0] else 'path-at-script')
        ck.expect(want is not None and isinstance(got, Path) and got.is_absolute() and str(got) == want, 'path-wrong',
                  'the resolved path is not the absolute path to the file', {**wit, 'got': str(got)})
    shutil.rmtree(root)

# ---------------------------------------------------------------- information directories
from aesolver.read_load_info import InfoDirHandler  # noqa: E402

NAMES = {  # key handed over -> (name in the data file, path in the inlist)
    'base_dir': ('MESA base folder/directory', 'MESA.default.base_dir'),
    'mesa_output_dir': ('MESA default output folder/directory', 'MESA.default.output_dir'),
    'mesa_profile_substrings': ('MESA default profile substrings', 'MESA.selection.substrings'),
    'mesa_suffix': ('MESA default suffix', 'MESA.selection.suffix'),
    'gyre_base_dir': ('GYRE base folder/directory', 'GYRE.default.base_dir'),
    'gyre_output_dir': ('GYRE default output folder/directory', 'GYRE.default.output_dir'),
    'gyre_detail_substring': ('GYRE default detail substring', 'GYRE.selection.detail_substrings'),
    'gyre_summary_substring': ('GYRE default summary substring', 'GYRE.selection.summary_substring'),
    'poly_base_dir': ('POLYTROPE structure base folder/directory', 'POLY.structure.default.base_dir'),
    'poly_struct_dir': ('POLYTROPE structure default output folder/directory', 'POLY.structure.default.output_dir'),
    'poly_struct_substrings': ('POLYTROPE default structure substrings', 'POLY.structure.selection.substrings'),
    'poly_struct_suffix': ('POLYTROPE default structure suffix', 'POLY.structure.selection.suffix'),
    'poly_mode_base_dir': ('POLYTROPE mode base folder/directory', 'POLY.modes.default.base_dir'),
    'poly_mode_dir': ('POLYTROPE mode default output folder/directory', 'POLY.modes.default.output_dir'),
    'poly_mode_substrings': ('POLYTROPE mode default detail substring', 'POLY.modes.selection.detail_substrings'),
    'poly_summary_substring': ('POLYTROPE mode default summary substring', 'POLY.modes.selection.summary_substring'),
}
TUPLES = ('mesa_profile_substrings', 'gyre_detail_substring', 'poly_struct_substrings', 'poly_mode_substrings')
LOAD = {'base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix', 'gyre_detail_substring',
        'gyre_summary_substring', 'gyre_output_dir'}

for it in range(ck.n(120, 1500)):
    root = os.path.join(TMP, f'i{it}')
    os.makedirs(f'{root}/repo/run/scripts')
    want, toml, data = {}, ['[information_folders]'], []
    order = list(NAMES)
    rng.shuffle(order)
    for k in order:
        dat, tml = NAMES[k]
        if k in TUPLES:
            v = [word() + pick(['', '.00', '_1']) for _ in range(int(rng.integers(1, 4)))]
            tup = rng.random() < .7
            toml += [f'{tml} = {v}', f'{tml}_to_tuple = {str(bool(tup)).lower()}']
            want[k] = (tuple(v), tuple(v) if tup else v)
            data += [f'# {dat}', repr(tuple(v)).replace(', ', ',')]
        else:
            v = '/' + '/'.join(word() + pick(['', '_1.5', '-2']) for _ in range(3)) if 'dir' in k else word()
            toml.append(f'{tml} = ' + (f"'{v}'" if rng.random() < .5 else f'"""\n{v}\\\n"""'))
            want[k] = (v, v)
            data += [f'# {dat}', repr(v)]
    ip = f'{root}/repo/inlist.toml'
    open(ip, 'w').write('\n'.join(toml) + '\n')
    loc = pick(['data/setup_data', 'mine'])
    fn = pick(['information_folders.dat', 'x.dat'])
    os.makedirs(f'{root}/repo/{loc}')
    open(f'{root}/repo/{loc}/{fn}', 'w').write('\n'.join(data) + '\n')
    for use in (True, False):
        wit = dict(text='\n'.join(toml if use else data))
        ck.case('information-toml' if use else 'information-data', wit)
        where = pick([f'{root}/repo', root])
        with ck.guard('information-raised', witness=wit), cwd(where):
            try:
                if use:
                    h = InfoDirHandler(['x'], toml_use=True, inlist_path=ip)
                else:
                    h = InfoDirHandler(
                        [f'{root}/repo/run/scripts/s.py'],
                        alternative_directory_path=None if loc.startswith('data') else loc,
                        alternative_file_name=None if fn.startswith('info') else fn)
                h.parse_info_directories()
            except SystemExit:
                ck.violate('information-exit', 'a complete information file is rejected', wit)
                continue
            w = {k: v[1 if use else 0] for k, v in want.items()}
            ck.expect(same(h.full_info, w), 'information', 'the information directories are not those of the file',
                      {**wit, 'got': repr(h.full_info), 'want': repr(w)})
            ck.expect(same(h.load_info, {k: v for k, v in w.items() if k in LOAD}), 'information-load',
                      'the load information is not that of the file', {**wit, 'got': repr(h.load_info)})
            ck.expect(same(h.gyre_comparison_info, {k: v for k, v in w.items() if k in LOAD - {'gyre_output_dir'}}),
                      'information-compare', 'the comparison information is not that of the file',
                      {**wit, 'got': repr(h.gyre_comparison_info)})
    shutil.rmtree(root)

# ---------------------------------------------------------------- the parsers of the run scripts
from aerunners.analyze_quadratic import QuadraticAnalysisParser, get_path_to_inlist as analysis_path  # noqa: E402
from aerunners.plot_quadratic import QuadraticPlotParser, get_path_to_inlist as plot_path  # noqa: E402
from aerunners.solve_quadratic import QuadraticSolveParser  # noqa: E402
import tomllib  # noqa: E402
from vh.inlist import ANALYZE, PLOT, SOLVE, dotted, render, sentinels, template  # noqa: E402

for it in range(ck.n(40, 400)):
    root = os.path.join(TMP, f's{it}')
    d = f'{root}/AESolver/inlists'
    os.makedirs(d)
    os.makedirs(f'{root}/AESolver/run_scripts')
    t = sentinels(template(), rng)
    body = render(t, rng)
    nm = pick(['inlist', 'inlist.two'])
    open(f'{d}/{nm}.toml', 'w').write(body)
    assert same(tomllib.loads(body), t)
    save = word()
    wit = dict(text=body[:200])
    ck.case('run-script', body)
    script = f'{root}/AESolver/run_scripts/run.py'
    for cls, tables, extra in ((QuadraticSolveParser, SOLVE, ['--save_file_name', save]),
                               (QuadraticAnalysisParser, ANALYZE, []), (QuadraticPlotParser, PLOT, [])):
        args = [script, *([nm, 'toml', 'inlists'] if nm != 'inlist' else []), *extra]
        with ck.guard(f'run-{cls.__name__}-raised', witness=wit), argv(*args), cwd(pick([root, f'{root}/AESolver', d])):
            path = Path(f'{d}/{nm}.toml')
            if cls is QuadraticAnalysisParser:
                path = analysis_path(sys.argv)
            if cls is QuadraticPlotParser:
                path = plot_path(sys.argv)
            ck.expect(str(path) == f'{d}/{nm}.toml', 'run-path', 'a run script uses another inlist',
                      dict(argv=args, got=str(path)))
            p = cls(full_inlist_path=path)
            got = p.read_args()
            want = tuple({k: dotted(t, v) for k, v in tab.items()} if isinstance(tab, dict) else dotted(t, tab)
                         for tab in tables)
            ck.expect(len(got) == len(want), 'run-count', f'{cls.__name__}: number of groups', wit)
            for i, (g, w) in enumerate(zip(got, want)):
                if isinstance(w, dict) and isinstance(g, dict):
                    for k in w:
                        ck.observe('run-element')
                        ck.expect(k in g and same(g[k], w[k]), f'run-{cls.__name__}-{k}',
                                  f'{cls.__name__}: {tables[i][k]} does not reach the program as written',
                                  dict(got=repr(g.get(k)), want=repr(w[k])))
                    ck.expect(set(g) == set(w), f'run-{cls.__name__}-keys', f'{cls.__name__}: unexpected elements',
                              sorted(set(g) ^ set(w)))
                else:
                    ck.expect(same(g, w), f'run-{cls.__name__}-{i}', f'{cls.__name__}: {tables[i]} does not reach the '
                              'program as written', dict(got=repr(g), want=repr(w)))
            if extra:
                ck.expect(p.get_save_name() == save, 'run-save-name', 'the save name is not the one given', args)
    for bad in ([script, 'a'], [script, 'a', 'b'], [script, 'a', 'b', 'c', 'd']):
        for f in (analysis_path, plot_path):
            ck.raises(lambda: f(bad), 'run-arguments', 'a wrong number of arguments is accepted', bad)
    shutil.rmtree(root)

# the inlist of the repository has everything the run scripts ask for
own = os.path.join(build.REPO, 'inlists', 'inlist.toml')
if os.path.exists(own):
    t = tomllib.load(open(own, 'rb'))
    root = os.path.join(TMP, 'AESolver', 'inlists')
    os.makedirs(root)
    shutil.copy(own, root)
    for cls, tables in ((QuadraticSolveParser, SOLVE), (QuadraticAnalysisParser, ANALYZE), (QuadraticPlotParser, PLOT)):
        ck.case('own-inlist', cls.__name__)
        with ck.guard('own-inlist', witness=cls.__name__), argv('x'):
            got = cls(full_inlist_path=Path(root) / 'inlist.toml').read_args()
            want = [{k: dotted(t, v) for k, v in tab.items()} if isinstance(tab, dict) else dotted(t, tab)
                    for tab in tables]
            ck.expect(same(list(got), want), 'own-inlist', f'{cls.__name__} does not read the inlist of the repository',
                      dict(got=repr(got)[:3000]))

shutil.rmtree(TMP)
ck.need('text-inlist', 100)
ck.need('toml-inlist', 100)
ck.need('path-in-cwd', 20)
ck.need('path-at-script', 20)
ck.need('path-absent', 20)
ck.need('run-element', 500)
ck.finish()
