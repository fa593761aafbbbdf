"""C22: plots show exactly the computed data."""
import contextlib
import io
import itertools
import os
import re
import struct

import numpy as np

import core
import files
from core import Violation

ID = 'C22'
CHUNK = 2
STATES = 'distinct (data shape, temperatures, values, options, plotting history) states'
AXES = {
    'via': ['io', 'P', 'C'],
    'N': [2, 1, 3, 4, 5, 11],
    'M': [3, 1, 2, 4, 5, 11, 150, 1500, 5001],
    'temps': ['from 0', 'up', 'down', 'fractional', 'repeated', 'hot', 'integers', 'unordered', 'same ends'],
    'values': ['mixed', 'zero', 'one', 'large', 'negative', 'tiny', 'equal', 'extremes', 'edge',
               'integers', 'spike'],
    'dtype': ['longdouble', 'float', 'readonly', 'fortran', 'float32'],
    'labels': [None, 'names', 'same', 'unicode', 'numbers', 'empty'],
    'ylabel': [None, 'text', 'math'],
    'ylims': [None, 'wide', 'tight'],
    'size': [None, [8., 6.], [3., 2.], [12., 4.], [5.5, 7.25]],
    'linewidth': [None, 1, 3.5],
    'hlines': [None, 'none', 'two', 'one'],
    'format': ['svg', 'png', 'pdf'],
    'before': ['nothing', 'user figure', 'user data', 'plot', 'current'],
}
PLOTS = {          # alphabet of the histories
    'p2': {'via': 'P', 'N': 2}, 'p3': {'via': 'P', 'N': 3, 'values': 'extremes'},
    'c': {'via': 'C', 'M': 4, 'temps': 'up'},
    'i': {'via': 'io', 'N': 1, 'labels': 'names', 'hlines': 'one', 'ylims': 'wide'},
    'user new': None, 'user draws': None, 'user closes': None,
}
BOUNDS = {'quick': 'all plots within 2 deviations of a base plot over 14 axes (3 entry points, 6 numbers of '
                   'rows, 9 of temperatures, 9 temperature and 11 value patterns, types, labels, limits, '
                   'sizes, formats, figures already open); all histories of <= 3 plots and user actions '
                   'over an alphabet of 7, to different files and to the same file; 17 more numbers of temperatures up to 20001 and 10 of rows up to 101; 30 plots in a row; up to 33 open figures of the user; 24 runs of the command with --plot',
          'thorough': 'within 3 deviations; histories of <= 5'}
ASSUMPTIONS = ['the figure is examined at the moment matplotlib is asked to save it; about a hundred plots '
               '(every format and entry point) and all runs of the command are rendered into real '
               'files and checked, the rendering of the others is intercepted',
               'one temperature: the axis has to contain it (a span of zero cannot be drawn)']


def cases(tier):
    quick = tier == 'quick'
    for dev in core.deviations(AXES, 2 if quick else 3):
        via = dev.get('via', 'io')
        if via != 'io' and any(k in dev for k in ('labels', 'ylabel', 'ylims', 'linewidth', 'hlines')):
            continue
        yield {'plots': [dev]}
    for depth in range(2, 4 if quick else 6):
        for seq in itertools.product(PLOTS, repeat=depth):
            if seq[-1].startswith('user'):
                continue
            yield {'plots': list(seq)}
            if depth < 4 and sum(not x.startswith('user') for x in seq) > 1:
                yield {'plots': list(seq), 'same': 1}
    for m in (49, 99, 100, 101, 255, 256, 257, 500, 501, 999, 1000, 1001, 1024, 2001, 4097, 10001, 20001):
        for via in AXES['via']:
            yield {'plots': [{'via': via, 'M': m, 'values': 'spike'}]}
            yield {'plots': [{'via': via, 'M': m, 'temps': 'down'}]}
    for n in (6, 7, 8, 9, 10, 12, 20, 21, 50, 101):
        for via in ('io', 'P'):
            yield {'plots': [{'via': via, 'N': n}]}
            yield {'plots': [{'via': via, 'N': n, 'values': 'extremes'}]}
    yield {'plots': ['p2', 'c', 'i'] * 10}
    for k in (3, 5, 9, 10, 11, 12, 19, 20, 21, 25, 33):
        for last in ('p2', 'c', 'i'):
            yield {'plots': ['user new'] * k + [last, 'p3']}
    for flags in ('-sc', '-e', '-sqr'):
        for n in (1, 3):
            for more in ([], ['--plot_format', 'png'], ['--size', '4', '3'],
                         ['--plot_format', 'PDF', '--size', '10', '5.5', '--min_temp', '10']):
                yield {'cli': [flags, '--max_temp', '30', '--plot'] + more, 'n': n}


# ------------------------------------------------------------------ data

def temperatures(kind, m):
    T = {'from 0': np.linspace(0., 10. * (m - 1), m), 'up': np.linspace(20., 900., m),
         'down': np.linspace(500., 10., m), 'fractional': 0.3 + np.arange(m) * 0.7,
         'repeated': np.repeat(np.arange(m // 2 + 1) * 50., 2)[:m],
         'hot': np.linspace(1e4, 1e6, m), 'integers': np.arange(m) * 7,
         'unordered': (np.arange(m) * 37) % 101 * 3.,
         'same ends': 100. + 50. * np.sin(np.linspace(0, np.pi, m)).round(6)}[kind]
    return T


def data(opt):
    n, m = (1 if opt['via'] == 'C' else opt['N']), opt['M']
    T = temperatures(opt['temps'], m)
    i, j = np.mgrid[1:n + 1, 1:m + 1]
    kind = opt['values']
    base = ((7 * i + 3 * j + i * j) % 13) / 13.
    if opt['via'] == 'P':
        w = base + 0.1
        prob = w / w.sum(axis=0)
        eye = ((i - 1) == (j % n)).astype(float)
        R = {'zero': np.where(i == 1, 1., 0.), 'one': np.where(i == n, 1., 0.), 'equal': np.ones((n, m)) / n,
             'extremes': eye, 'edge': eye, 'tiny': np.where(i == 1, 1. - 1e-12 * (n - 1), 1e-12)}.get(kind, prob)
    elif opt['via'] == 'C':
        c = 3. * base + 1.5
        R = {'zero': np.zeros((n, m)), 'large': 1e3 * c, 'tiny': 1e-9 * c, 'equal': np.full((n, m), 7.5),
             'extremes': np.where(j == 1, 0., 40.), 'edge': np.full((n, m), 6.),
             'integers': np.round(c), 'spike': np.where(j == (m + 1) // 2, 250., 0.01),
             'one': np.full((n, m), 1.)}.get(kind, c)
    else:
        R = {'mixed': base * 4. - 1., 'zero': np.zeros((n, m)), 'one': np.ones((n, m)), 'large': 1e7 * base,
             'negative': -base - 3., 'tiny': base * 1e-8, 'equal': np.full((n, m), 2.5),
             'extremes': np.where((i + j) % 2 == 0, -1e3, 1e3), 'edge': np.where(j == 1, 2., 4.),
             'integers': np.round(9 * base), 'spike': np.where(j == (m + 1) // 2, 900., 0.1) + i}[kind]
    kind = opt['dtype']
    if kind == 'longdouble':
        R = R.astype(np.longdouble)
    elif kind == 'float32':
        R = R.astype(np.float32)
    elif kind == 'fortran':
        R = np.asfortranarray(R.astype(float))
    else:
        R = R.astype(float)
        if kind == 'readonly':
            R.flags.writeable = False
            T.flags.writeable = False
    return R, T


def options(opt, R):
    """Keyword arguments of io.plot_results."""
    kw = {}
    n = len(R)
    if opt['labels']:
        kw['labels'] = {'names': [f'curve {chr(97 + k)}' for k in range(n)], 'same': ['x'] * n,
                        'unicode': [f'\u00e9tat {k}' for k in range(n)], 'empty': [],
                        'numbers': [f'{n - k}' for k in range(n)]}[opt['labels']]
    if opt['ylabel']:
        kw['ylabel'] = {'text': 'dipole / D', 'math': r'$\langle\mu\rangle$'}[opt['ylabel']]
    lo, hi = float(R.min()), float(R.max())
    if opt['ylims']:
        gap = max(1e-6, 0.5 * (hi - lo), 0.1 * abs(hi)) if opt['ylims'] == 'wide' or hi == lo else 0.
        kw['ylims'] = (lo - gap, hi + gap)
    if opt['size']:
        kw['size'] = tuple(opt['size'])
    if opt['linewidth']:
        kw['linewidth'] = opt['linewidth']
    if opt['hlines']:
        kw['hline_pos'] = {'none': [], 'two': [lo, hi], 'one': [(lo + hi) / 2]}[opt['hlines']]
    return kw


# ------------------------------------------------------------- observation

class Saved:
    """What a figure holds when it is saved."""
    def __init__(self, fig, target):
        self.target = target
        self.size = tuple(fig.get_size_inches())
        self.axes = [Axes(ax) for ax in fig.axes]
        self.extra = len(fig.lines) + len(fig.images) + len(fig.patches)


class Axes:
    def __init__(self, ax):
        self.lines = [(np.array(x.get_xdata(orig=True), float), np.array(x.get_ydata(orig=True), float),
                       x.get_label(), x.get_linewidth(), x.get_color(),
                       x.get_visible() and x.get_linestyle() not in ('None', '', ' ')
                       and (x.get_alpha() is None or x.get_alpha() > 0)) for x in ax.lines]
        self.segments = [np.array(s, float) for c in ax.collections
                         for s in (c.get_segments() if hasattr(c, 'get_segments') else [np.zeros((3, 2))])]
        self.odd = len(ax.images)
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()
        self.xlabel, self.ylabel = ax.get_xlabel(), ax.get_ylabel()
        self.scales = (ax.get_xscale(), ax.get_yscale())
        leg = ax.get_legend()
        self.legend = None
        if leg is not None:
            handles = getattr(leg, 'legend_handles', None) or leg.legendHandles
            self.legend = [(t.get_text(), h.get_color() if hasattr(h, 'get_color') else None)
                           for t, h in zip(leg.get_texts(), handles)]


@contextlib.contextmanager
def watch(log, render=True):
    """Record every figure at the moment it is rendered to a file (or would be)."""
    from matplotlib.backend_bases import FigureCanvasBase
    original = FigureCanvasBase.print_figure

    def print_figure(self, filename, *args, **kwargs):
        log.append(Saved(self.figure, filename))
        if not render:
            if not hasattr(filename, 'write'):
                with open(filename, 'w') as fh:
                    fh.write('not rendered')
            return None
        return original(self, filename, *args, **kwargs)

    FigureCanvasBase.print_figure = print_figure
    try:
        yield
    finally:
        FigureCanvasBase.print_figure = original


def near(a, b, rtol=1e-12):
    return abs(a - b) <= rtol * max(1e-300, abs(a), abs(b))


def judge(s, R, T, want, what):
    """want: labels, ylabel, ylims, size, hlines, linewidth."""
    if len(s.axes) != 1 or s.extra:
        raise Violation(f'{what}: the figure has {len(s.axes)} sets of axes and {s.extra} other drawings')
    ax = s.axes[0]
    R = np.asarray(R, float)
    T = np.asarray(T, float)
    rest = list(ax.lines)
    curves = []
    for k, row in enumerate(R):
        while rest and not (rest[0][0].shape == T.shape and np.array_equal(rest[0][0], T)
                            and np.array_equal(rest[0][1], row)):
            guide = rest.pop(0)
            if not is_guide(guide[1], want['hlines']):
                raise Violation(f'{what}: row {k + 1} is drawn as x={guide[0][:6]} y={guide[1][:6]} instead '
                                f'of x={T[:6]} y={row[:6]}')
        if not rest:
            raise Violation(f'{what}: no curve for row {k + 1} of {len(R)}')
        curves.append(rest.pop(0))
    for guide in rest:
        if not is_guide(guide[1], want['hlines']):
            raise Violation(f'{what}: an extra curve y={guide[1][:6]} is drawn')
    for seg in ax.segments:
        if not is_guide(seg[:, 1], want['hlines']):
            raise Violation(f'{what}: an extra line {seg[:3].tolist()} is drawn')
    if ax.odd:
        raise Violation(f'{what}: other data are drawn')
    if ax.scales != ('linear', 'linear'):
        raise Violation(f'{what}: axis scales {ax.scales}')
    for k, c in enumerate(curves):
        if not c[5]:
            raise Violation(f'{what}: curve {k + 1} is invisible')
        if want['linewidth'] and not near(c[3], want['linewidth']):
            raise Violation(f'{what}: line width {c[3]} instead of {want["linewidth"]}')
    if want['labels']:
        if ax.legend is None:
            raise Violation(f'{what}: no legend')
        got = [t for t, _ in ax.legend]
        if got != list(want['labels']):
            raise Violation(f'{what}: legend {got} instead of {want["labels"]}')
        for k, (c, (t, color)) in enumerate(zip(curves, ax.legend)):
            if c[2] != want['labels'][k]:
                raise Violation(f'{what}: the curve of row {k + 1} is labelled {c[2]!r}')
            if color is not None and color != c[4]:
                raise Violation(f'{what}: the legend entry {t!r} has the colour of another curve')
    lo, hi = min(ax.xlim), max(ax.xlim)
    if T[0] != T[-1]:
        if not (near(ax.xlim[0], T[0]) and near(ax.xlim[1], T[-1])):
            raise Violation(f'{what}: horizontal range {ax.xlim} instead of {T[0]}..{T[-1]}')
    elif not lo <= T[0] <= hi:
        raise Violation(f'{what}: horizontal range {ax.xlim} does not contain {T[0]}')
    lo, hi = min(ax.ylim), max(ax.ylim)
    slack = 1e-12 * max(abs(lo), abs(hi))
    if not (lo - slack <= R.min() and R.max() <= hi + slack):
        raise Violation(f'{what}: vertical range {ax.ylim} does not contain the data '
                        f'{R.min()}..{R.max()}')
    if want['ylims'] and not (near(ax.ylim[0], want['ylims'][0]) and near(ax.ylim[1], want['ylims'][1])):
        raise Violation(f'{what}: vertical range {ax.ylim} instead of {want["ylims"]}')
    if not near(s.size[0], want['size'][0]) or not near(s.size[1], want['size'][1]):
        raise Violation(f'{what}: figure size {s.size} instead of {want["size"]}')
    if isinstance(want['ylabel'], re.Pattern):
        if not want['ylabel'].search(ax.ylabel):
            raise Violation(f'{what}: vertical axis labelled {ax.ylabel!r}')
    elif ax.ylabel != (want['ylabel'] or ''):
        raise Violation(f'{what}: vertical axis labelled {ax.ylabel!r} instead of {want["ylabel"]!r}')
    if 'T' not in ax.xlabel:
        raise Violation(f'{what}: horizontal axis labelled {ax.xlabel!r}')


def is_guide(y, positions):
    return len(y) > 0 and bool(np.all(y == y[0])) and any(y[0] == p for p in positions)


def image(name, size, what):
    with open(name, 'rb') as fh:
        blob = fh.read()
    ext = name.rpartition('.')[2].lower()
    if ext == 'png':
        if blob[:8] != b'\x89PNG\r\n\x1a\n' or blob[-8:-4] != b'IEND':
            raise Violation(f'{what}: not a complete PNG file')
        w, h = struct.unpack('>II', blob[16:24])
        got = w / h
    elif ext == 'pdf':
        if blob[:5] != b'%PDF-' or b'%%EOF' not in blob[-16:]:
            raise Violation(f'{what}: not a complete PDF file')
        box = re.search(rb'/MediaBox\s*\[\s*0 0 ([\d.]+) ([\d.]+)', blob)
        if not box:
            return
        w, h = float(box.group(1)), float(box.group(2))
        if abs(w / 72 - size[0]) > 0.02 or abs(h / 72 - size[1]) > 0.02:
            raise Violation(f'{what}: image of {w / 72}x{h / 72} in instead of {size}')
        return
    else:
        if b'<svg' not in blob or b'</svg>' not in blob[-20:]:
            raise Violation(f'{what}: not a complete SVG file')
        w, h = (float(re.search(rb'%s="([\d.]+)pt"' % k, blob).group(1)) for k in (b'width', b'height'))
        if abs(w / 72 - size[0]) > 0.02 or abs(h / 72 - size[1]) > 0.02:
            raise Violation(f'{what}: image of {w / 72}x{h / 72} in instead of {size}')
        return
    if abs(got - size[0] / size[1]) > 0.02 * got:
        raise Violation(f'{what}: image of {w}x{h} pixels for a figure of {size}')


# ------------------------------------------------------------------ cases

def check(case, ctx):
    import matplotlib.pyplot as plt
    plt.close('all')
    before = settings()
    try:
        with files.Box() as box:
            if 'cli' in case:
                command(case, ctx, box)
            else:
                history(case, ctx)
        after = settings()
        if after != before:
            bad = {k: (before[k], after[k]) for k in after if after[k] != before[k]}
            raise Violation(f'{case}: the plot settings of the program are changed: {bad}')
    finally:
        plt.close('all')
    ctx.trace()


def settings():
    """The plot settings of the program, but for what matplotlib itself finds out while drawing."""
    import matplotlib
    return {k: repr(v) for k, v in dict.items(matplotlib.rcParams) if not k.startswith('backend')}


def freeze(fig):
    return [(len(a.lines), [(x.get_xdata().tolist(), x.get_ydata().tolist()) for x in a.lines],
             len(a.collections), a.get_xlabel(), a.get_ylabel(), a.get_title(), a.get_xlim(), a.get_ylim(),
             a.get_legend() is None) for a in fig.axes], tuple(fig.get_size_inches())


def user_figure():
    import matplotlib.pyplot as plt
    fig = plt.figure(figsize=(5., 5.))
    plt.plot([-1., 0., 3.], [5., 6., -7.], label='mine')
    plt.xlabel('user x')
    return fig


def history(case, ctx):
    import matplotlib.pyplot as plt
    mine = []
    told = []
    if len(case['plots']) > 1:
        mine.append(user_figure())
    frozen = [freeze(f) for f in mine]
    for k, name in enumerate(case['plots']):
        told.append(name if isinstance(name, str) else describe(name))
        if name == 'user new':
            mine.append(user_figure())
            frozen.append(freeze(mine[-1]))
            continue
        if name == 'user draws':
            if mine:
                plt.figure(mine[-1].number)
                plt.plot([1., 2., 3.], [k, 2., 3.])
                frozen[-1] = freeze(mine[-1])
            continue
        if name == 'user closes':
            if mine:
                plt.close(mine.pop())
                frozen.pop()
            continue
        opt = core_options(PLOTS[name] if isinstance(name, str) else name)
        if opt['before'] == 'user figure':
            mine.append(plt.figure())
            frozen.append(freeze(mine[-1]))
        elif opt['before'] in ('user data', 'current'):
            mine.append(user_figure())
            if opt['before'] == 'user data':
                plt.close(plt.figure())
            frozen.append(freeze(mine[-1]))
        elif opt['before'] == 'plot':
            R, T = data(core_options({'N': 4, 'values': 'large', 'temps': 'hot'}))
            with watch([], False):
                draw('io', R, T, 'earlier.svg', {'labels': list('abcd'), 'ylims': (-1, 2e7)})
        one(opt, name if isinstance(name, dict) else PLOTS[name], 'plot' if 'same' in case else f'plot_{k}',
            ' then '.join(told) + (' to the same file' if 'same' in case else ''), ctx)
        for fig, old in zip(mine, frozen):
            if not plt.fignum_exists(fig.number):
                raise Violation(f'{told}: a figure of the user is closed')
            if freeze(fig) != old:
                raise Violation(f'{told}: a figure of the user is changed')


def core_options(dev):
    opt = {k: v[0] for k, v in AXES.items()}
    opt.update(dev)
    return opt


def describe(dev):
    return ', '.join(f'{k}={v}' for k, v in dev.items()) or 'base plot'


def draw(via, R, T, name, kw):
    import occuprob.cli
    import occuprob.io
    if via == 'io':
        occuprob.io.plot_results(R, T, name, **kw)
    else:
        occuprob.cli.plot_results(R, via, T, name, kw.get('size', (8., 6.)))


def one(opt, dev, stem, told, ctx):
    R, T = data(opt)
    keep = R.tobytes() if opt['dtype'] != 'longdouble' else R.copy(), T.tobytes()
    kw = options(opt, R)
    kw_copy = repr(kw)
    name = f'{stem}.{opt["format"]}'
    log = []
    render = told == describe({}) or 'format' in dev and len(dev) < 3
    with watch(log, render):
        draw(opt['via'], R, T, name, kw)
    ctx.step()
    what = f'plot of {told}'
    same = np.array_equal(R, keep[0]) if opt['dtype'] == 'longdouble' else R.tobytes() == keep[0]
    if not same or T.tobytes() != keep[1] or repr(kw) != kw_copy:
        raise Violation(f'{what}: the data or options passed in are changed')
    log = [s for s in log if not hasattr(s.target, 'write')]
    if not os.path.exists(name) or not log:
        raise Violation(f'{what}: {name} is not written')
    want = {'labels': kw.get('labels'), 'ylabel': kw.get('ylabel'), 'ylims': kw.get('ylims'),
            'size': kw.get('size', (8., 6.)), 'linewidth': kw.get('linewidth'),
            'hlines': kw.get('hline_pos', [])}
    if opt['via'] == 'P':
        want.update(labels=[f'Isomer {k + 1}' for k in range(len(R))], ylabel=re.compile('(?i)probabilit'),
                    hlines=[0, 1])
    elif opt['via'] == 'C':
        want.update(ylabel=re.compile('(?i)capacity'), hlines=[])
    judge(log[-1], R, T, want, what)
    if render:
        image(name, want['size'], what)
        ctx.count('rendered')
    ctx.state([sorted(opt.items(), key=str), told])
    ctx.outcome([log[-1].axes[0].ylim, len(R), len(T)])


def command(case, ctx, box):
    frames = [files.isomer(i, 3) for i in range(case['n'])]
    box.write('in.xyz', files.text(frames))
    args = case['cli']
    log = []
    with watch(log):
        run = files.cli(['in.xyz'] + args)
    ctx.step()
    what = f'occuprob in.xyz {" ".join(args)}'
    if run.code != 0:
        raise Violation(f'{what} failed: {run.err[-200:]}')
    fmt = args[args.index('--plot_format') + 1] if '--plot_format' in args else 'svg'
    size = [float(x) for x in args[args.index('--size') + 1:][:2]] if '--size' in args else [8., 6.]
    T = np.arange(float(args[args.index('--min_temp') + 1]) if '--min_temp' in args else 0., 30.5)
    made = box.files()
    for key in 'PC':
        names = [n for n in made if n.lower() == f'in_{key}.{fmt}'.lower()]
        saved = [s for s in log if os.path.basename(str(s.target)).lower() == f'in_{key}.{fmt}'.lower()]
        if len(names) != 1 or not saved:
            raise Violation(f'{what}: no plot in_{key}.{fmt}')
        tab = files.table(made[f'in_{key}.dat'], key)
        if len(tab) != T.size:
            raise Violation(f'{what}: table {key} has {len(tab)} rows')
        s = saved[-1]
        # the curves hold the values of the table (written with 18 digits)
        rows = [x[1] for x in s.axes[0].lines if x[0].shape == T.shape and files.same(x[0], T)]
        if len(rows) != tab.shape[1] - 1 or not files.same(np.array(rows), tab[:, 1:].T, 1e-12, 1e-15):
            raise Violation(f'{what}: the {len(rows)} curves of plot {key} are not the columns of its table')
        want = {'labels': [f'Isomer {k + 1}' for k in range(case['n'])] if key == 'P' else None,
                'ylabel': re.compile('(?i)probabilit' if key == 'P' else '(?i)capacity'),
                'ylims': None, 'size': size, 'linewidth': None, 'hlines': [0, 1] if key == 'P' else []}
        judge(s, np.array(rows), T, want, f'{what}: plot {key}')
        image(names[0], size, f'{what}: plot {key}')
    ctx.state(case)
