"""Plot (C28): what is drawn, against a recording model of the matplotlib objects it uses."""
from .terms import *
from .values import *
from .contract import *
from .pubds import dataset, content, same_dict, KEYS

PL = 'allantools.plot'


def flat(v):
    return v.items if isinstance(v, PyList) and v.items is not None else list(v) if isinstance(v, tuple) else None


class Model(object):
    """an object of matplotlib: its methods are the m_ functions"""
    kind = '?'

    def model_attr(self, I, a):
        f = getattr(self, 'm_' + a, None)
        if f is None:
            if a in getattr(self, 'fields', ()):
                return getattr(self, a)
            raise Unsupported('matplotlib %s.%s' % (self.kind, a))
        return Builtin('%s.%s' % (self.kind, a), lambda args, kw: f(I, *args, **kw))


class Axes(Model):
    kind = 'Axes'
    fields = ('figure',)

    def __init__(self, fig):
        self.figure = fig
        self.scale, self.label, self.curves = {'x': 'linear', 'y': 'linear'}, {'x': '', 'y': ''}, []

    def m_set_xscale(self, I, value, **kw):
        self.scale['x'] = value

    def m_set_yscale(self, I, value, **kw):
        self.scale['y'] = value

    def m_set_xlabel(self, I, xlabel, **kw):
        self.label['x'] = xlabel

    def m_set_ylabel(self, I, ylabel, **kw):
        self.label['y'] = ylabel

    def m_set(self, I, **kw):
        for k, v in kw.items():
            if k not in ('xscale', 'yscale', 'xlabel', 'ylabel'):
                raise Unsupported('matplotlib Axes.set(%s)' % k)
            getattr(self, 'm_set_' + k)(I, v)

    def m_get_xscale(self, I):
        return self.scale['x']

    def m_get_yscale(self, I):
        return self.scale['y']

    def m_get_xlabel(self, I):
        return self.label['x']

    def m_get_ylabel(self, I):
        return self.label['y']

    def curve(self, I, x, y, xerr, yerr, rest, kw):
        self.curves.append((x, y, xerr, yerr, rest, kw))
        return Artist()

    def m_plot(self, I, *args, **kw):
        if len(args) < 2 or any(not isinstance(a, str) for a in args[2:]) or len(args) > 3:
            raise Unsupported('matplotlib Axes.plot arguments')
        return PyList(I.heap, [self.curve(I, args[0], args[1], None, None, args[2:], kw)])

    def m_loglog(self, I, *args, **kw):
        self.scale.update(x='log', y='log')
        return self.m_plot(I, *args, **kw)

    def m_semilogx(self, I, *args, **kw):
        self.scale.update(x='log')
        return self.m_plot(I, *args, **kw)

    def m_semilogy(self, I, *args, **kw):
        self.scale.update(y='log')
        return self.m_plot(I, *args, **kw)

    def m_errorbar(self, I, x, y, yerr=None, xerr=None, **kw):
        return self.curve(I, x, y, xerr, yerr, (), kw)

    def m_grid(self, I, *args, **kw):
        return None

    m_minorticks_on = m_tick_params = m_legend = m_set_title = m_grid

    def m_cla(self, I):
        self.__init__(self.figure)

    m_clear = m_cla


class Artist(Model):
    kind = 'Artist'


class Figure(Model):
    kind = 'Figure'

    def __init__(self, world):
        self.world, self.axs = world, []

    def m_add_subplot(self, I, *args, **kw):
        self.axs.append(Axes(self))
        return self.axs[-1]

    def m_subplots(self, I, *args, **kw):
        if args or set(kw) - {'figsize', 'dpi', 'layout'}:
            raise Unsupported('matplotlib subplots arguments')
        return self.m_add_subplot(I)

    def m_gca(self, I):
        return self.axs[-1] if self.axs else self.m_add_subplot(I)

    def m_savefig(self, I, fname, **kw):
        self.world.saved.append((self, fname, kw))

    def m_show(self, I, *a, **kw):
        self.world.shown.append(self)

    def m_tight_layout(self, I, *a, **kw):
        return None

    m_autofmt_xdate = m_set_size_inches = m_suptitle = m_tight_layout


class World(object):
    """pyplot: `current` is the figure opened last, by whoever"""

    def __init__(self):
        self.current, self.saved, self.shown, self.figs = None, [], [], []

    def figure(self, I, *args, **kw):
        if args or set(kw) - {'figsize', 'dpi', 'layout'}:
            raise Unsupported('matplotlib figure arguments')
        self.current = Figure(self)
        self.figs.append(self.current)
        return self.current

    def subplots(self, I, *args, **kw):
        f = self.figure(I, **{k: v for k, v in kw.items() if k in ('figsize', 'dpi', 'layout')})
        return (f, f.m_subplots(I, *args, **kw))

    def resolve(self, I, d):
        if not d.startswith('matplotlib'):
            return None
        if d == 'matplotlib.use':
            return Builtin(d, lambda args, kw: None)
        if d in ('matplotlib', 'matplotlib.pyplot'):
            return ModRef(d)
        n = d[len('matplotlib.pyplot.'):] if d.startswith('matplotlib.pyplot.') else None
        now = lambda: self.current or self.figure(I)
        ax = lambda: now().m_gca(I)
        P = {'subplots': lambda *a, **k: self.subplots(I, *a, **k), 'figure': lambda *a, **k: self.figure(I, *a, **k),
             'show': lambda *a, **k: self.shown.extend(self.figs), 'savefig': lambda *a, **k: now().m_savefig(I, *a, **k),
             'gca': ax, 'gcf': now, 'switch_backend': lambda *a, **k: None, 'ioff': lambda: None, 'ion': lambda: None,
             'xlabel': lambda *a, **k: ax().m_set_xlabel(I, *a, **k), 'ylabel': lambda *a, **k: ax().m_set_ylabel(I, *a, **k),
             'xscale': lambda *a, **k: ax().m_set_xscale(I, *a, **k), 'yscale': lambda *a, **k: ax().m_set_yscale(I, *a, **k),
             'grid': lambda *a, **k: None, 'plot': lambda *a, **k: ax().m_plot(I, *a, **k),
             'loglog': lambda *a, **k: ax().m_loglog(I, *a, **k), 'errorbar': lambda *a, **k: ax().m_errorbar(I, *a, **k)}
        if n in P:
            return Builtin(d, lambda args, kw: P[n](*args, **kw))
        return None


class Hold(object):
    pass


def mine(I, p, w, lab):
    """the figure and the axes of a plot"""
    fig, ax = p.attrs.get('fig'), p.attrs.get('ax')
    ok = isinstance(fig, Figure) and isinstance(ax, Axes) and ax.figure is fig and ax in fig.axs
    I.oblige(lab + '.own figure', TRUE if ok else FALSE)
    return (fig, ax) if ok else (None, None)


def plot_unit(ctx, errorbars, grid=False, gradev=False, twice=False, defaults=False, kwargs=True):
    """one or two plot() calls on one Plot, while another figure is the current one of pyplot"""
    I = ctx.I
    lab = 'Plot.plot(%s%s%s%s%s)' % ('errorbars' if errorbars else 'plain', ',grid' if grid else '', ',gradev' if gradev else '',
                                    ',twice' if twice else '', ',defaults' if defaults else '')
    I.trusted.add('matplotlib: recording model of Figure and Axes (a curve is drawn through the given x and y, +- yerr)')
    hold = Hold()

    def go():
        w = hold.w = World()
        I.ext = w.resolve
        cls = I.get_func(PL, 'Plot')
        p = hold.p = I.call(cls, [], {} if defaults else {'no_display': True})
        w.figure(I)                     # somebody else opens a figure
        hold.ds = []
        for k in range(2 if twice else 1):
            out = {}
            if gradev:
                n = sym('T', 'I')
                out['stat_err'] = PyList(I.heap, [ctx.series('err_lo%d' % k, n, 'array')[0], ctx.series('err_hi%d' % k, n, 'array')[0]])
            d, args = dataset(ctx, out)
            d.attrs['out'].d['stat_id'] = 'stat%d' % k
            kw = {'color': 'C%d' % k, 'label': 'curve %d' % k} if kwargs else {}
            hold.ds.append((d, dict(d.attrs['out'].d), dict(d.attrs['inp'].d), kw))
            a = dict(kw)
            if errorbars or not defaults:
                a['errorbars'] = errorbars
            if grid or not defaults:
                a['grid'] = grid
            I.call(I.getattr_(p, 'plot'), [d], a)

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return
        ctx.covers += 1
        fig, ax = mine(I, hold.p, hold.w, lab)
        if ax is None:
            return
        for k in 'xy':
            I.oblige('%s.logarithmic %s' % (lab, k), TRUE if ax.scale[k] == 'log' else FALSE)
        I.oblige(lab + '.one curve per call', TRUE if len(ax.curves) == len(hold.ds) else FALSE)
        I.oblige(lab + '.nothing on other figures', TRUE if all(not a.curves for f in hold.w.figs for a in f.axs if a is not ax) else FALSE)
        if len(ax.curves) != len(hold.ds):
            return
        for k, ((x, y, xe, ye, rest, kw), (ds, out, inp, want)) in enumerate(zip(ax.curves, hold.ds)):
            l2 = '%s.curve %d' % (lab, k)
            content(I, l2 + '.x', x, out['taus'])
            content(I, l2 + '.y', y, out['stat'])
            I.oblige(l2 + '.no x error', TRUE if xe is None else FALSE)
            if errorbars:
                content(I, l2 + '.y error', ye, out['stat_err'])
            else:
                I.oblige(l2 + '.no y error', TRUE if ye is None else FALSE)
            I.oblige(l2 + '.keywords passed on', TRUE if not rest and all(kw.get(q) == v for q, v in want.items()) and
                     not set(kw) & {'scalex', 'scaley', 'lolims', 'uplims', 'xlolims', 'xuplims', 'errorevery', 'data', 'markevery', 'transform', 'visible'}
                     else FALSE)
            I.oblige(l2 + '.data set left alone', TRUE if same_dict(ds.attrs['out'].d, out) and same_dict(ds.attrs['inp'].d, inp) else FALSE)
        I.oblige(lab + '.label of y', TRUE if ax.label['y'] == hold.ds[-1][1]['stat_id'] else FALSE)
        I.oblige(lab + '.label of x', TRUE if ax.label['x'] == 'Tau' else FALSE)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))


def save_unit(ctx, what):
    """save writes this figure, to the named file; show displays it"""
    I = ctx.I
    lab = 'Plot.%s' % what
    hold = Hold()

    def go():
        w = hold.w = World()
        I.ext = w.resolve
        cls = I.get_func(PL, 'Plot')
        hold.p = I.call(cls, [], {'no_display': True})
        w.figure(I)
        I.call(I.getattr_(hold.p, what), ['some file'] if what == 'save' else [], {})

    def capture(o, d):
        ctx.paths += 1
        if o[0] == 'raise':
            I.oblige(lab + '.no-exception[%s]' % o[1].name, FALSE)
            return
        ctx.covers += 1
        fig, ax = mine(I, hold.p, hold.w, lab)
        if what == 'save':
            s = hold.w.saved
            I.oblige(lab + '.this figure to the file', TRUE if len(s) == 1 and s[0][0] is fig and s[0][1] == 'some file' else FALSE)
        else:
            I.oblige(lab + '.displays this figure', TRUE if fig in hold.w.shown else FALSE)
        return 'return'
    return I.explore(go, lambda o, d, s: capture(o, d))
