"""C29: figures of spectra."""
import warnings
import numpy as np
from vf import lattice as L
from vf.check import Mismatch

XU = ['1/angstrom', '1/bohr', 'meV', '1/cm']
HOLE = -100  # bins without a value
YU = ['meV', 'hartree', '1/meV', 'mbarn/meV']


def run(ck):
    import matplotlib
    matplotlib.use('Agg')
    rng = L.rng_for(ck.seed, 'c29')
    inv = ['EveryPoint', 'EveryBin', 'LegendOk', 'Emit']
    for kind, one, pts, np_, nl, num, depth in (
            ('lines', lines, 7, 3, 3, ck.pick(220, 2200), 45),
            ('lines', lines, 4, 1, 2, ck.pick(60, 400), 20),
            ('maps', maps, 5, 3, 4, ck.pick(160, 1500), 40)):
        t = ck.tlc('Plot', constants={'Kind': kind, 'MaxPts': pts, 'NPieces': np_,
                                      'MaxLines': nl},
                   invariants=inv, simulate=3*num, depth=depth, seed=ck.seed)
        for k, i in enumerate(rng.permutation(len(t.emitted))[:num]):
            h = t.emitted[i]
            ck.replay(f'{kind} {[p["x"] for p in h["pieces"]]} {h["opt"]}',
                      lambda: figure(one, h, k), case=h)
            if k % 60 == 0:
                ck.sample([kind, [p['x'] for p in h['pieces']], h['opt'], h['span']])


def figure(one, h, k):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return one(h, k)
    finally:
        plt.close('all')


def ticks(p):
    return None if not p['ticks'] else [(t['at'] - 1, t['name']) for t in p['ticks'][0]]


def expect(ok, what):
    if not ok:
        raise Mismatch(what)


def close(a, b, what, scale=1.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    expect(a.shape == b.shape, f'{what}: {a.tolist()}, not {b.tolist()}')
    expect(np.abs(a - b).max(initial=0.) < 1e-9*max(scale, np.abs(b).max(initial=0.)),
           f'{what}: {a.tolist()}, not {b.tolist()}')


def factor(a, b):
    from euphonic import Quantity
    return Quantity(1., a).to(b).magnitude


def layout(fig, h, n):
    """Axes of the pieces, from left to right"""
    axes = [a for a in fig.axes if a.lines or a.images]
    expect(len(axes) == n, f'{len(axes)} parts for {n} pieces')
    fig.canvas.draw()
    x0 = [a.get_position().x0 for a in axes]
    expect(x0 == sorted(x0), 'pieces in another order')
    w = [a.get_position().width for a in axes]
    d = [abs(a['xlim'][1] - a['xlim'][0]) for a in h['axes']]
    close(np.array(w)/w[0], np.array(d)/d[0], 'widths of the pieces')
    return axes


def check_ticks(ax, a, fx):
    if not a['ticks']:
        return
    t = a['ticks'][0]
    close(ax.get_xticks(), [fx*x['at']/2 for x in t], 'ticks', abs(fx))
    got = [x.get_text() for x in ax.get_xticklabels()]
    # (of several names at one place only one can be seen)
    expect(len(got) == len(t) and all(
        g in [y['name'] for y in t if y['at'] == x['at']] for g, x in zip(got, t)),
           f'tick labels {got}')


def spectra_1d(h, k, fx, xu, yu):
    from euphonic import Quantity
    from euphonic.spectra import Spectrum1D, Spectrum1DCollection
    out = []
    for p in h['pieces']:
        x = Quantity(np.array(p['x'], dtype=float), XU[k % 4])
        y = Quantity(np.array(p['y'], dtype=float), YU[k//4 % 4])
        meta = [{'label': n} if n else {} for n in p['names']]
        if len(p['y']) == 1 and k % 2:
            s = Spectrum1D(x, y[0], x_tick_labels=ticks(p), metadata=meta[0])
        else:
            s = Spectrum1DCollection(x, y, x_tick_labels=ticks(p),
                                     metadata={'line_data': meta})
        s.x_data_unit, s.y_data_unit = xu, yu
        out.append(s)
    return out


def lines(h, k):
    import matplotlib.pyplot as plt
    from euphonic.plot import plot_1d, plot_1d_to_axis
    xu = {'1/angstrom': '1/bohr', '1/bohr': '1/angstrom', 'meV': '1/cm',
          '1/cm': 'meV'}[XU[k % 4]] if k % 3 == 0 else XU[k % 4]
    yu = {'meV': '1/cm', 'hartree': 'meV', '1/meV': '1/hartree',
          'mbarn/meV': 'barn/hartree'}[YU[k//4 % 4]] if k % 5 == 0 else YU[k//4 % 4]
    fx, fy = factor(XU[k % 4], xu), factor(YU[k//4 % 4], yu)
    sp = spectra_1d(h, k, fx, xu, yu)
    kw = {}
    o = h['opt']
    if o['lo']:
        kw['ymin'] = fy*o['lo'][0]
    if o['hi']:
        kw['ymax'] = fy*o['hi'][0]
    if o['labels']:
        kw['labels'] = o['labels'][0]
        if len(kw['labels']) == 1 and k % 2:
            kw['labels'] = kw['labels'][0]
    if k % 4 == 1:
        kw['linewidth'] = 2.5
    lone = len(sp) == 1 and k % 3 == 2
    if lone:
        fig, ax = plt.subplots()
        if o['earlier']:
            ax.plot([fx, 2*fx], [fy, fy], label=o['earlier'][0])
            ax.legend()
        plot_1d_to_axis(sp[0], ax, **{a: b for a, b in kw.items() if a[0] == 'l'})
    else:
        fig = plot_1d(sp if len(sp) > 1 or k % 2 else sp[0], title='some title',
                      xlabel='some x', ylabel='some y', **kw)
        expect(fig.get_suptitle() == 'some title', 'no title')
        for f, t in (('get_xlabel', 'some x'), ('get_ylabel', 'some y')):
            expect(any(getattr(a, f)() == t for a in fig.axes), f'no {t}')
    axes = layout(fig, h, len(sp))
    colours = {}
    for i, (ax, a) in enumerate(zip(axes, h['axes'])):
        close(ax.get_xlim(), [fx*x/2 for x in a['xlim']], 'x limits', fx)
        check_ticks(ax, a, fx)
        drawn = list(ax.lines)[1 if lone and o['earlier'] else 0:]
        for li, segs in enumerate(a['segs']):
            for s in segs:
                expect(drawn, 'too few lines')
                x = drawn.pop(0)
                close(x.get_xdata(), [fx*v/2 for v in s['x']], f'x of line {li}', fx)
                close(x.get_ydata(), [fy*v for v in s['y']], f'y of line {li}', fy)
                c = colours.setdefault(li, x.get_color())
                expect(c == x.get_color(), f'line {li} changes colour')
                n = x.get_label()
                n = '' if n.startswith('_') else n
                expect(n == s['name'], f'line {li} is called {n!r}, not {s["name"]!r}')
                expect(x.get_linewidth() == 2.5 or 'linewidth' not in kw, 'line width')
        expect(not drawn, f'{len(drawn)} lines too many')
        leg = ax.get_legend()
        names = sorted(t.get_text() for t in leg.get_texts()) if leg else []
        if lone:
            expect(set(names) == set(h['legend']), f'legend {names}, not {h["legend"]}')
            continue
        # everything can be seen, or what was asked for
        lo, hi = ax.get_ylim()
        if o['lo']:
            close(lo, fy*o['lo'][0], 'lower limit', fy)
        else:
            expect(lo <= fy*h['span'][0]*(1 + 1e-9) + 1e-12, f'cut off at {lo}')
        if o['hi']:
            close(hi, fy*o['hi'][0], 'upper limit', fy)
        else:
            expect(hi >= fy*h['span'][1]*(1 - 1e-9) - 1e-12, f'cut off at {hi}')
        if i == 0:
            expect(set(names) == set(h['names']), f'legend {names}, not {h["names"]}')
        else:
            expect(not names, 'another legend')
    expect(len(set(colours.values())) == len(colours), 'lines of the same colour')
    return None


def maps(h, k):
    import matplotlib.pyplot as plt
    from euphonic import Quantity
    from euphonic.plot import plot_2d
    from euphonic.spectra import Spectrum2D
    x0, y0 = XU[k % 2], XU[2 + k//2 % 2]
    xu = {'1/angstrom': '1/bohr', '1/bohr': '1/nm'}[x0] if k % 3 == 0 else x0
    yu = {'meV': '1/cm', '1/cm': 'meV'}[y0] if k % 5 == 0 else y0
    zu = {1: 'mbarn', 10: 'cbarn'}
    sp = []
    for i, p in enumerate(h['pieces']):
        z = np.array(p['y'], dtype=float).T
        z[z == HOLE] = np.nan
        s = Spectrum2D(Quantity(np.array(p['x'], dtype=float), x0),
                       Quantity(np.array(p['ys'], dtype=float), y0),
                       Quantity(z, zu[p['u']]), x_tick_labels=ticks(p))
        # units of the first piece are those of the figure
        if i == 0 or k % 4:
            s.x_data_unit, s.y_data_unit = xu, yu
        sp.append(s)
    copies = [s.copy() for s in sp]
    fx, fy, fz = factor(x0, xu), factor(y0, yu), 1/h['axes'][0]['u']
    kw = {}
    o = h['opt']
    if o['lo']:
        kw['vmin'] = o['lo'][0]
    if o['hi']:
        kw['vmax'] = o['hi'][0]*20
    if k % 4 == 1:
        kw['cmap'] = 'bone'
    fig = plot_2d(sp if len(sp) > 1 or k % 2 else sp[0], title='some title',
                  xlabel='some x', ylabel='some y', **kw)
    expect(fig.get_suptitle() == 'some title', 'no title')
    axes = layout(fig, h, len(sp))
    for ax, a in zip(axes, h['axes']):
        close(ax.get_xlim(), [fx*x/2 for x in a['xlim']], 'x limits', fx)
        close(ax.get_ylim(), [fy*x/2 for x in h['ylim']], 'y limits', fy)
        check_ticks(ax, a, fx)
        expect(len(ax.images) == 1, f'{len(ax.images)} images')
        im = ax.images[0]
        z = np.asarray(np.ma.filled(im.get_array(), np.nan), dtype=float)
        w = np.array(a['z'], dtype=float)
        hole = w == HOLE
        expect(z.shape == w.shape and np.array_equal(np.isnan(z), hole), 'empty bins')
        close(z[~hole], w[~hole]*fz, 'image', fz)
        # (positions are kept in single precision)
        for got, w, f in ((im._Ax, a['x'], fx), (im._Ay, a['y'], fy)):
            w = np.array(w)*f/2
            expect(len(got) == len(w) and np.allclose(got, w, rtol=1e-6, atol=1e-6*abs(f)),
                   f'bins at {got}, not {w}')
        lo, hi = im.get_clim()
        close(lo, kw.get('vmin', h['span'][0]*fz), 'colour scale from', fz)
        if 'vmin' not in kw and 'vmax' not in kw and h['span'][0] == h['span'][1]:
            continue
        close(hi, kw.get('vmax', h['span'][1]*fz), 'colour scale to', fz)
        if 'cmap' in kw:
            expect(im.get_cmap().name == 'bone', 'colours')
    for a, b in zip(sp, copies):
        expect(str(a.x_data.units) == str(b.x_data.units)
               and np.array_equal(a.z_data.magnitude, b.z_data.magnitude,
                                 equal_nan=True)
               and str(a.z_data.units) == str(b.z_data.units), 'data have been changed')
    return None
