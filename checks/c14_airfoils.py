"""C14: airfoil sections: generated, imported from coordinate and polar files, blended, extended.

Oracle: an analytic section family (camber line plus thickness law) that every file is written from and every result
is measured against; a tabulated polar that is written in XFOIL's layout and interpolated independently."""
import math
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.compute_naca_4series import compute_naca_4series
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_geometry import import_airfoil_geometry
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_polars import import_airfoil_polars
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_dat import import_airfoil_dat
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.compute_airfoil_properties import compute_airfoil_properties
from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.convert_airfoil_to_meshgrid import convert_airfoil_to_meshgrid
import sys
import SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.generate_interpolated_airfoils
blend = sys.modules['SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.generate_interpolated_airfoils']
from lib.prop import Property, Sub, Discard, require, close, same_shape, finite
from lib.strat import record, rng, inner


def camber(m, p, x):
    x = np.asarray(x, float)
    if m == 0:
        return 0. * x
    return np.where(x < p, m / p ** 2 * (2 * p * x - x ** 2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x ** 2))


def half_thickness(t, x, closed=False):
    x = np.asarray(x, float)
    return 5 * t * (0.2969 * np.sqrt(np.abs(x)) - 0.126 * x - 0.3516 * x ** 2 + 0.2843 * x ** 3 - (0.1036 if closed else 0.1015) * x ** 4)


def check_naca(case, ctx):
    m, p, t = case['m'], case['p'], case['t']
    if m == 0:
        p = 0
    name = '%d%d%02d' % (m, p, t)
    n = case['n']
    kw = {} if case['te'] is None else dict(leading_and_trailing_edge_resolution_factor=None if case['te'] == 0 else case['te'])
    g = compute_naca_4series(name, n, **kw)
    M, P, T = m / 100., p / 10., t / 100.
    same_shape(g.x_coordinates, (n,), 'x of %s' % name)
    same_shape(g.y_coordinates, (n,), 'y of %s' % name)
    for x, y, s, what in ((g.x_upper_surface, g.y_upper_surface, 1, 'upper'), (g.x_lower_surface, g.y_lower_surface, -1, 'lower')):
        require(abs(x[0]) < 1e-12 and abs(x[-1] - 1) < 1e-12 and np.all(np.diff(x) > 0), '%s stations do not run from 0 to 1', what)
        close(y, camber(M, P, x) + s * half_thickness(T, x), rtol=0, atol=1e-9, what='%s surface of NACA %s' % (what, name))
    x, y = g.x_coordinates, g.y_coordinates
    k = int(np.argmin(x))
    close([x[0], x[-1], x[k], y[k]], [1, 1, 0, 0], rtol=0, atol=1e-9, what='contour ends and nose')
    require(np.all(np.diff(x[:k + 1]) < 0) and np.all(np.diff(x[k:]) > 0), 'contour does not go round once')
    close(y[:k + 1], camber(M, P, x[:k + 1]) - half_thickness(T, x[:k + 1]), rtol=0, atol=1e-9, what='contour, lower side first')
    close(y[k:], camber(M, P, x[k:]) + half_thickness(T, x[k:]), rtol=0, atol=1e-9, what='contour, upper side')
    close(g.max_thickness, T, rtol=1e-9, what='maximum thickness')
    close(g.thickness_to_chord, T, rtol=1e-6, what='thickness to chord')
    close(g.camber_coordinates, M, rtol=1e-9, what='camber')
    if m:
        ctx.hit('cambered')


def write_airfoil(path, case):
    """The analytic section as a coordinate file in the format asked for."""
    m, p, t = case['m'], case['p'], case['t']
    xs = 0.5 * (1 - np.cos(np.linspace(0, math.pi, case['n'])))
    yu = camber(m, p, xs) + half_thickness(t, xs, case['closed'])
    yl = camber(m, p, xs) - half_thickness(t, xs, case['closed'])
    yu[0] = yl[0] = 0.
    fm = {'fixed': '  %.7f  %.7f\n', 'tight': '%.7f %.7f\n', 'sci': ' %.8e %.8e\n', 'comma': ' %.7f, %.7f\n'}[case['num']]
    fmt = case['fmt']
    if fmt == 'lednicer':
        fm = fm.replace(',', '')
        text = case['head'] + '\n  %d.  %d.\n\n' % (len(xs), len(xs))
        text += ''.join(fm % q for q in zip(xs, yu)) + '\n' + ''.join(fm % q for q in zip(xs, yl))
    else:
        up = list(zip(xs, yu))[::-1]
        lo = list(zip(xs, yl))[1:]
        text = (case['head'] + '\n' if fmt == 'selig' else '') + ''.join(fm % q for q in up + lo)
    with open(path, 'w') as f:
        f.write(text)
    return xs, yu, yl


def check_import(case, ctx):
    d = tempfile.mkdtemp(dir='.')
    try:
        path = os.path.join(d, 'section.txt')
        xs, yu, yl = write_airfoil(path, case)
        n = case['npoints']
        g = import_airfoil_geometry(path, n)
        other = dict(case, fmt='lednicer', head='SECTION', num='sci' if case['num'] == 'sci' else 'fixed')
        write_airfoil(os.path.join(d, 'ref.txt'), other)
        ref = import_airfoil_geometry(os.path.join(d, 'ref.txt'), n)
    finally:
        shutil.rmtree(d)
    same_shape(g.x_coordinates, (n,), 'x')
    for f in ('x_coordinates', 'y_coordinates', 'x_upper_surface', 'y_upper_surface', 'x_lower_surface', 'y_lower_surface', 'camber_coordinates', 'thickness_to_chord', 'max_thickness'):
        close(g[f], ref[f], rtol=0, atol=3e-6, what='%s read from the %s file and from a Lednicer file' % (f, case['fmt']))
    m, p, t, cl = case['m'], case['p'], case['t'], case['closed']
    tol = 2e-3 * max(t, 0.05) * (30. / case['n']) ** 2 + 1e-4
    for x, y, s, what in ((g.x_upper_surface, g.y_upper_surface, 1, 'upper'), (g.x_lower_surface, g.y_lower_surface, -1, 'lower')):
        same_shape(x, (n // 2,), what + ' surface')
        close([x[0], x[-1]], [0, 1], rtol=0, atol=1e-6, what='%s surface ends' % what)
        xx = np.clip(x, 0, 1)
        keep = xx > 0.02
        close(y[keep], (camber(m, p, xx) + s * half_thickness(t, xx, cl))[keep], rtol=0, atol=tol, what='%s surface' % what)
    x, y = g.x_coordinates, g.y_coordinates
    k = int(np.argmin(x))
    close([x[0], x[-1], x[k], y[k]], [1, 1, 0, 0], rtol=0, atol=1e-9, what='contour ends and nose')
    require(y[-1] > y[0], 'no gap left at the trailing edge')
    require(np.argmin(y) < k < np.argmax(y) or m > 0.5 * t, 'contour does not run from the lower to the upper side')
    # the contour is moved so that its foremost sample is the origin: compare up to that small shift
    lo, up = slice(1, max(1, k - 2)), slice(k + 3, n - 1)
    res = []
    for sl, s in ((lo, -1), (up, 1)):
        xx = np.clip(x[sl], 0, 1)
        keep = xx > 0.03
        res.append((y[sl] - camber(m, p, xx) - s * half_thickness(t, xx, cl))[keep])
    shift = np.median(np.concatenate(res))
    require(abs(shift) < 0.1 * t + 2e-3, 'contour moved by %r', shift)
    for r in res:
        close(r, 0 * r + shift, rtol=0, atol=tol + 0.02 * t, what='distance of the contour from the section')
    tt = 2 * half_thickness(t, np.linspace(0, 1, 4001), cl).max()
    close(g.thickness_to_chord, tt, rtol=2e-2 * (30. / case['n']) + 20. / n ** 2, what='thickness to chord')
    close(g.camber_coordinates, 0.5 * (g.y_upper_surface + g.y_lower_surface), rtol=0, atol=1e-12, what='camber line')
    if case['fmt'] != 'lednicer' or m:
        ctx.hit(case['fmt'], case['num'], 'digits first' if case['head'][:1].isdigit() else 'text header')


def polar_file(path, re, ma, rows):
    with open(path, 'w') as f:
        f.write('  \n       XFOIL         Version 6.96\n  \n Calculated polar for: SECTION\n  \n 1 1 Reynolds number fixed          Mach number fixed         \n  \n')
        f.write(' xtrf =   1.000 (top)        1.000 (bottom)  \n Mach = %7.3f     Re = %9.3f e 6     Ncrit =   9.000\n  \n' % (ma, re / 1e6))
        f.write('   alpha    CL        CD       CDp       CM     Top_Xtr  Bot_Xtr\n  ------ -------- --------- --------- -------- -------- --------\n')
        for a, cl, cd in rows:
            f.write(' %7.3f  %7.4f   %7.5f   0.01000  -0.0500   0.5000   1.0000\n' % (a, cl, cd))


def table(case):
    out = []
    for k, re in enumerate(case['re']):
        rows = []
        for a in np.arange(case['a0'], case['a1'] + 1e-9, case['da']):
            cl = round(case['cl0'] + 0.1 * a - 0.0012 * max(0, a - 8) ** 2 + 0.02 * k, 4)
            cd = round(0.006 + 0.004 / (k + 1) + 0.00015 * (a - 1) ** 2, 5)
            rows.append((round(a, 3), cl, cd))
        out.append(rows)
    return out


def check_polars(case, ctx):
    tabs = table(case)
    d = tempfile.mkdtemp(dir='.')
    try:
        files = []
        for k, (re, rows) in enumerate(zip(case['re'], tabs)):
            files.append(os.path.join(d, 'p%d.txt' % k))
            polar_file(files[-1], re, case['ma'], rows)
            if case['blank']:
                open(files[-1], 'a').write('\n' * case['blank'])
        n = case['n']
        r = import_airfoil_polars(files, n) if n else import_airfoil_polars(files)
        try:
            import_airfoil_polars(files[:2])
        except AttributeError:
            pass
        else:
            require(False, 'two polars were accepted for a surrogate')
    finally:
        shutil.rmtree(d)
    n = n or 89
    A = np.linspace(-6, 16, n)
    same_shape(r.lift_coefficients, (len(tabs), n), 'lift coefficients')
    for k, rows in enumerate(tabs):
        a, cl, cd = np.array(rows).T
        close(r.aoa_from_polar[k], A * math.pi / 180, rtol=1e-9, atol=1e-12, what='angles of attack')
        close(r.lift_coefficients[k], np.interp(A, a, cl), rtol=0, atol=1e-9, what='lift coefficient')
        close(r.drag_coefficients[k], np.interp(A, a, cd), rtol=0, atol=1e-9, what='drag coefficient')
        close(r.re_from_polar[k], round(case['re'][k] / 1e6, 3) * 1e6, rtol=1e-9, what='Reynolds number')
        close(r.mach_number[k], round(case['ma'], 3), rtol=1e-9, what='Mach number')
    ctx.hit('%d polars' % len(tabs))


def check_dat(case, ctx):
    d = tempfile.mkdtemp(dir='.')
    try:
        path = os.path.join(d, 'a.dat')
        fmt = lambda pts: ''.join('  %r  %r\n' % tuple(q) for q in pts)
        open(path, 'w').write('NAME\n 10. 10.\n\n' + fmt(case['up']) + '\n' + fmt(case['lo']))
        r = import_airfoil_dat(path)
    finally:
        shutil.rmtree(d)
    close(r['upper'], case['up'], rtol=1e-15, what='upper surface')
    close(r['lower'], case['lo'], rtol=1e-15, what='lower surface')
    if len(case['up']) != len(case['lo']):
        ctx.hit('different lengths')


def check_blend(case, ctx):
    d = tempfile.mkdtemp(dir='.')
    plot = blend.plot_airfoil
    here = os.getcwd()
    try:
        os.chdir(d)
        blend.plot_airfoil = lambda *a, **k: None        # pictures are not part of the property
        gs = []
        for nm, c in (('one.txt', case['a']), ('two.txt', case['b'])):
            write_airfoil(nm, dict(c, n=case['n'], closed=False, fmt='lednicer', head='S', num='fixed'))
            gs.append(import_airfoil_geometry(nm, case['npoints']))
        k = case['k']
        files = blend.generate_interpolated_airfoils('one.txt', 'two.txt', k, npoints=case['npoints'], save_filename='T')
        require(len(files) == k - 2, '%d blends made, %d asked for', len(files), k - 2)
        for i in range(k - 2):
            f = files['a_%d' % (i + 1)].name
            pts = import_airfoil_dat(f)
            w = (i + 1) / (k - 1.)
            for side in ('upper', 'lower'):
                for j, ax in enumerate('xy'):
                    key = '%s_%s_surface' % (ax, side)
                    close(pts[side][:, j], (1 - w) * gs[0][key] + w * gs[1][key], rtol=0, atol=1e-12, what='%s of blend %d of %d' % (key, i + 1, k))
            again = import_airfoil_geometry(f, case['npoints'])
            close(again.thickness_to_chord, np.max((1 - w) * (gs[0].y_upper_surface - gs[0].y_lower_surface) + w * (gs[1].y_upper_surface - gs[1].y_lower_surface)), rtol=1e-2, what='thickness of the blend read back')
        ctx.hit('%d blends' % (k - 2))
    finally:
        blend.plot_airfoil = plot
        os.chdir(here)
        shutil.rmtree(d)


def check_mesh(case, ctx):
    g = compute_naca_4series('%d%d%02d' % (case['m'], 4 if case['m'] else 0, case['t']), 201, leading_and_trailing_edge_resolution_factor=None)
    mask = convert_airfoil_to_meshgrid(g)
    if mask is None:
        raise Discard
    same = mask.shape
    area = np.trapz(g.y_upper_surface[g.x_upper_surface >= 0], g.x_upper_surface) - np.trapz(g.y_lower_surface, g.x_lower_surface)
    close(mask.sum() / float(same[0]) ** 2, area, rtol=0.02, atol=2.5 / same[0], what='share of the grid inside the section')
    require(mask.any(axis=1)[2:-2].mean() > 0.8, 'columns of the grid without section')
    ctx.hit()


def check_extended(case, ctx):
    d = tempfile.mkdtemp(dir='.')
    tabs = table(case)
    try:
        files = []
        for k, (re, rows) in enumerate(zip(case['re'], tabs)):
            files.append(os.path.join(d, 'p%d.txt' % k))
            polar_file(files[-1], re, case['ma'], rows)
        g = compute_naca_4series('%d%d%02d' % (case['m'], 4 if case['m'] else 0, case['t']), 60)
        keep = g.y_coordinates.copy()
        r = compute_airfoil_properties(None if case['none'] else g, files if case['files'] else None, use_pre_stall_data=case['pre'])
        raw = import_airfoil_polars(files)
    finally:
        shutil.rmtree(d)
    require(np.array_equal(keep, g.y_coordinates), 'the geometry was changed')
    A = np.arange(-14, 91) * math.pi / 180
    close(r.angle_of_attacks, A, rtol=1e-9, atol=1e-12, what='angles of attack')
    rows = len(tabs) if case['files'] else 7
    same_shape(r.lift_coefficients, (rows, 105), 'lift coefficients')
    same_shape(r.drag_coefficients, (rows, 105), 'drag coefficients')
    if case['files']:
        finite(r.lift_coefficients, 'lift coefficients')
        finite(r.drag_coefficients, 'drag coefficients')
        require(np.all(r.drag_coefficients > 0), 'negative drag')
        require(np.all(np.abs(r.lift_coefficients[:, -1]) < 0.6), 'lift at a right angle to the flow is %r', r.lift_coefficients[:, -1].tolist())
        require(np.all(r.drag_coefficients[:, -1] > 1), 'drag at a right angle to the flow is %r', r.drag_coefficients[:, -1].tolist())
        if case['pre']:
            for k in range(rows):
                for a in range(-5, 16):
                    j = a + 14
                    i = int(np.argmin(np.abs(raw.aoa_from_polar[k] - A[j])))
                    close([r.lift_coefficients[k, j], r.drag_coefficients[k, j]], [raw.lift_coefficients[k, i], raw.drag_coefficients[k, i]], rtol=1e-9, atol=1e-12, what='polar point at %d deg' % a)
            ctx.hit('measured polar kept')
    ctx.label('files' if case['files'] else 'panel method', 'default section' if case['none'] else 'given section')


header = st.sampled_from(['SECTION', 'NACA 4412', '2412', '63-412 AIRFOIL', '1.0 percent', '14% section', '5', 'E63  (4.25%)', ' A B'])
sect = dict(m=st.one_of(st.just(0.), rng(0.005, 0.06)), p=rng(0.2, 0.6), t=rng(0.05, 0.22))
pol = dict(re=st.lists(st.sampled_from([50e3, 1e5, 2e5, 5e5, 1e6, 3.5e6, 7.5e6]), min_size=3, max_size=5, unique=True).map(sorted), ma=st.sampled_from([0., 0.1, 0.25]), a0=st.sampled_from([-8., -6., -7.5]), a1=st.sampled_from([16., 18., 17.5]), da=st.sampled_from([0.5, 0.25, 1.]), cl0=rng(0, 0.6))
point = st.tuples(rng(0, 1), rng(-0.2, 0.2)).map(list)
SUBS = [
    Sub('naca', record(m=st.integers(0, 9), p=st.integers(1, 9), t=st.integers(1, 40), n=st.integers(10, 240), te=st.sampled_from([None, 0, 1.0, 1.5, 2.0])), check_naca, quick=400, rule='cambered'),
    Sub('import', record(n=st.integers(25, 60), npoints=st.integers(60, 220), closed=st.booleans(), fmt=st.sampled_from(['lednicer', 'selig', 'selig', 'bare']), num=st.sampled_from(['fixed', 'tight', 'sci', 'comma']), head=header, **sect), check_import, quick=500, rule='not a symmetric Lednicer section'),
    Sub('polars', record(n=st.sampled_from([0, 0, 23, 45]), blank=st.integers(0, 2), **pol), check_polars, quick=160, rule='every case'),
    Sub('dat', record(up=st.lists(point, min_size=1, max_size=6), lo=st.lists(point, min_size=1, max_size=6)), check_dat, quick=100, rule='sides of different length'),
    Sub('blend', record(a=record(**sect), b=record(**sect), n=st.integers(25, 40), k=st.integers(3, 6), npoints=st.sampled_from([60, 100])), check_blend, quick=48, rule='every case'),
    Sub('mesh', record(m=st.integers(0, 5), t=st.integers(6, 25)), check_mesh, quick=32, rule='every case'),
    Sub('extended', record(m=st.integers(0, 4), t=st.integers(8, 18), none=st.booleans(), files=st.sampled_from([True, True, False]), pre=st.booleans(), **pol), check_extended, quick=24, thorough=300, rule='measured polars inside the extended ones', shards=8, weight=20),
]
PROPERTY = Property('C14', SUBS, rule='Random sections written in every accepted file layout and read back, against the analytic section.',
                    assumptions=['coordinate files list both sides at the same stations and pass through the nose at x = 0; polar files follow the XFOIL column layout'])
