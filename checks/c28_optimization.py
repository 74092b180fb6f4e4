"""C28: optimisation problems (Nexus), the solvers' wrappers and design-space sweeps.

Oracle: an analytic model evaluated directly on the design values the problem table describes
(value x units), so every scaled number the Nexus returns has a closed form; convex problems with a known optimum."""
import contextlib
import copy
import io
import os
import sys
import tempfile
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, Units
from SUAVE.Optimization.Nexus import Nexus
from SUAVE.Optimization.carpet_plot import carpet_plot
from SUAVE.Optimization.line_plot import line_plot
from SUAVE.Optimization.read_optimization_outputs import read_optimization_outputs
from SUAVE.Optimization.write_optimization_outputs import write_optimization_outputs
from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization
from SUAVE.Optimization.Package_Setups.scipy_setup import SciPy_Solve
from SUAVE.Optimization.Package_Setups.TRMM.TRMM_setup import TRMM_Solve
from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region import Trust_Region
from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region_Optimization import Trust_Region_Optimization
from lib.prop import Property, Sub, Discard, require, close, finite
from lib.strat import record, rng, logrng, vec, inner

UNITS = {'less': 1., 'ft': .3048, 'km': 1000., 'deg': np.pi / 180., 'lb': .45359237}
NAMES = ['x1', 'x2', 'x3', 'x4', 'x5']


@contextlib.contextmanager
def quiet():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    here, out = os.getcwd(), sys.stdout
    with tempfile.TemporaryDirectory(prefix='c28_') as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
                yield
        finally:
            sys.stdout = out
            plt.close('all')
            os.chdir(here)


def unit(name):
    u = dict(less=Units.less, ft=Units.ft, km=Units.km, deg=Units.degrees, lb=Units.lb)[name]
    return 1 * u


def leaves(n):
    """Where the design values live in the model: a vehicle with two configurations and a mission."""
    nx = Nexus()
    nx.vehicle_configurations = SUAVE.Components.Configs.Config.Container()
    for tag in ('base', 'cruise', 'takeoff'):
        c = Data(); c.tag = tag; c.wings = Data()
        for w in ('main_wing', 'horizontal_stabilizer'):
            c.wings[w] = Data(area=-1., span=-2., spans=Data(projected=-3.))
        c.mass = -5.
        nx.vehicle_configurations[tag] = c
    nx.missions = Data()
    nx.missions.base = Data(range=-4., segments=Data(climb=Data(speed=-6., rate=-7.), cruise=Data(speed=-8., rate=-9.)))
    return nx


# path (as a user writes it) -> the explicit fields it designates
CONFIGS = ('base', 'cruise', 'takeoff')
WINGS = ('main_wing', 'horizontal_stabilizer')
PATHS = {
    'missions.base.range': ['missions.base.range'],
    'missions.base.segments.cruise.rate': ['missions.base.segments.cruise.rate'],
    'missions.base.segments.*.speed': ['missions.base.segments.%s.speed' % s for s in ('climb', 'cruise')],
    'vehicle_configurations.*.mass': ['vehicle_configurations.%s.mass' % c for c in CONFIGS],
    'vehicle_configurations.*.wings.main_wing.area': ['vehicle_configurations.%s.wings.main_wing.area' % c for c in CONFIGS],
    'vehicle_configurations.base.wings.*.span': ['vehicle_configurations.base.wings.%s.span' % w for w in WINGS],
    'vehicle_configurations.*.wings.*.spans.projected':
        ['vehicle_configurations.%s.wings.%s.spans.projected' % (c, w) for c in CONFIGS for w in WINGS],
    'vehicle_configurations.cruise.wings.horizontal_stabilizer.area':
        ['vehicle_configurations.cruise.wings.horizontal_stabilizer.area'],
    'vehicle_configurations.takeoff.wings.main_wing.span': ['vehicle_configurations.takeoff.wings.main_wing.span'],
    'summary.a': ['summary.a'],
}
KEYS = sorted(PATHS)
ALL = [p for k in KEYS for p in PATHS[k] if not p.startswith('summary')]


def fetch(o, path):
    for k in path.split('.'):
        o = o[k]
    return o


var = record(scale=logrng(.01, 1000.), unit=st.sampled_from(sorted(UNITS)), lo=rng(-8., 2.), width=rng(.5, 10.),
             at=rng(0., 1.), w=rng(.2, 3.), t=rng(-4., 4.))
con = record(sense=st.sampled_from('<>='), edge=rng(-20., 20.), scale=logrng(.01, 1000.), unit=st.sampled_from(sorted(UNITS)),
             c=vec(rng(-3., 3.), 5))
problem = record(vars=vec(var, 1, 5), cons=vec(con, 0, 4), oscale=logrng(.01, 1000.), ounit=st.sampled_from(sorted(UNITS)),
                 perm=st.permutations(range(len(KEYS))), double=st.booleans(), mix=rng(-1., 1.))


def objective_model(case, si, level):
    """The modelled quantity of interest from the SI design values (any smooth function serves)."""
    f = 1. + .25 * (level - 1)
    for k, (v, x) in enumerate(zip(case['vars'], si)):
        u = x / UNITS[v['unit']]
        f += v['w'] * (u - v['t']) ** 2 + (case['mix'] * u * si[0] / UNITS[case['vars'][0]['unit']] if k else 0.)
    return f


def constraint_model(case, c, si, level):
    return sum(a * x / UNITS[v['unit']] for a, x, v in zip(c['c'], si, case['vars'])) + .5 * (level - 1)


def build(case, table=0):
    """A Nexus for the case.  Returns it and the list of explicit fields of each variable."""
    nx = leaves(0)
    nx.summary.a = -1.
    n = len(case['vars'])
    order = [KEYS[i] for i in case['perm']]
    fields, aliases = [], []
    for k in range(n):
        own = [order[k]]
        if case['double'] and k == 0:
            own.append(order[n])                           # one variable drives two places
        fields.append([p for o in own for p in PATHS[o]])
        aliases.append([NAMES[k], own[0] if len(own) == 1 else own])
    rows = []
    for k, v in enumerate(case['vars']):
        x0 = v['lo'] + v['at'] * v['width']
        if table == 0:
            rows.append([NAMES[k], x0, v['lo'], v['lo'] + v['width'], v['scale'], unit(v['unit'])])
        else:
            rows.append([NAMES[k], x0, (v['lo'], v['lo'] + v['width']), v['scale'], unit(v['unit'])])
    op = Data()
    op.inputs = np.array(rows, dtype=object)
    op.objective = np.array([['obj', case['oscale'], unit(case['ounit'])]], dtype=object)
    op.constraints = np.array([['c%d' % i, c['sense'], c['edge'], c['scale'], unit(c['unit'])]
                               for i, c in enumerate(case['cons'])], dtype=object)
    aliases.append(['obj', 'summary.value'])
    for i in range(len(case['cons'])):
        aliases.append(['c%d' % i, 'summary.con.g%d' % i])
    aliases.append(['unused', 'summary.never'])
    op.aliases = aliases
    nx.optimization_problem = op
    nx.summary.con = Data()
    nx.calls = 0

    def step(nexus):
        nexus.calls += 1
        si = [fetch(nexus, f[0]) for f in fields]
        nexus.summary.value = objective_model(case, si, nexus.fidelity_level)
        return nexus

    def constrain(nexus):
        si = [fetch(nexus, f[0]) for f in fields]
        for i, c in enumerate(case['cons']):
            nexus.summary.con['g%d' % i] = constraint_model(case, c, si, nexus.fidelity_level)
        return nexus
    nx.procedure = SUAVE.Analyses.Process()
    nx.procedure.step = step
    nx.procedure.constrain = constrain
    return nx, fields


def design(case, x, clip=False):
    """The design values (in SI) that the scaled vector x stands for."""
    out = []
    for v, xi in zip(case['vars'], x):
        val = xi * v['scale']
        if clip:
            val = min(max(val, v['lo']), v['lo'] + v['width'])
        out.append(val * UNITS[v['unit']])
    return out


def expected(case, si, level=1):
    obj = objective_model(case, si, level) / (case['oscale'] * UNITS[case['ounit']])
    g = [constraint_model(case, c, si, level) for c in case['cons']]
    allc = [gi / c['scale'] for gi, c in zip(g, case['cons'])]
    bnd = [c['edge'] * UNITS[c['unit']] / c['scale'] for c in case['cons']]
    ineq = [(a - b) if c['sense'] == '>' else (b - a) for a, b, c in zip(allc, bnd, case['cons']) if c['sense'] != '=']
    eq = [a - b for a, b, c in zip(allc, bnd, case['cons']) if c['sense'] == '=']
    return obj, allc, ineq, eq


def tol(case):
    big = 1.
    for v in case['vars']:
        big = max(big, abs(v['lo']) + v['width'])
    return big ** 2 * 60.


def same(got, want, sizes, what):
    got = np.atleast_1d(np.asarray(got, float)).ravel()
    require(len(got) == len(want), '%s has %d entries where %d were listed' % (what, len(got), len(want)))
    for g, w, s in zip(got, want, sizes):
        close(g, w, rtol=1e-10, atol=1e-11 * s, what=what)


def look(case, nx, si, level, what):
    """The current outputs against the model at the design point."""
    obj, allc, ineq, eq = expected(case, si, level)
    bigs = [(60. + abs(c['edge'])) * 100. / c['scale'] for c in case['cons']]
    bi = [b for b, c in zip(bigs, case['cons']) if c['sense'] != '=']
    be = [b for b, c in zip(bigs, case['cons']) if c['sense'] == '=']
    same(nx.objective(), [obj], [tol(case) / (case['oscale'] * UNITS[case['ounit']])], 'objective ' + what)
    if case['cons']:
        same(nx.all_constraints(), allc, bigs, 'scaled constraint values ' + what)
    same(nx.inequality_constraint(), ineq, bi, 'inequality margins (feasible when >= 0) ' + what)
    same(nx.equality_constraint(), eq, be, 'equality residuals ' + what)


# ------------------------------------------------------------------ mapping
def check_mapping(case, ctx):
    p = case['p']
    nx, fields = build(p)
    nx.hard_bounded_inputs = case['hard']
    before = {f: fetch(nx, f) for f in ALL}
    x = [(v['lo'] + a * v['width']) / v['scale'] for v, a in zip(p['vars'], case['at'])]
    si = design(p, x, case['hard'])
    obj = nx.objective(np.array(x))
    touched = {}
    for fs, s in zip(fields, si):
        for f in fs:
            touched[f] = s
    for f in ALL:
        if f in touched:
            close(fetch(nx, f), touched[f], rtol=1e-12, atol=1e-300, what='field %s after evaluating the design' % f)
        else:
            require(fetch(nx, f) == before[f], 'field %s is not a design variable but changed' % f)
    for k, v in enumerate(p['vars']):
        close(float(nx.optimization_problem.inputs[k, 1]), si[k] / UNITS[v['unit']], rtol=1e-12, atol=1e-13, what='design table value')
    look(p, nx, si, 1, '')
    if any('*' in str(a[1]) for a in nx.optimization_problem.aliases[:len(p['vars'])]):
        ctx.hit('wildcard')
    if p['double']:
        ctx.hit('two places')
    if case['hard'] and any(not 0 <= a <= 1 for a in case['at'][:len(x)]):
        ctx.hit('clipped')
    senses = ''.join(sorted(set(c['sense'] for c in p['cons'])))
    ctx.label('senses %s' % (senses or 'none'))


# ------------------------------------------------------------------ histories
op = st.one_of(
    record(do=st.just('x'), at=vec(rng(-.3, 1.3), 5)),
    record(do=st.just('look'), which=st.sampled_from(['objective', 'all', 'ineq', 'eq'])),
    record(do=st.just('again'), which=st.sampled_from(['objective', 'all', 'ineq', 'eq'])),
    record(do=st.just('table'), k=st.integers(0, 4), at=rng(-.3, 1.3)),
    record(do=st.just('level'), level=st.integers(1, 3)),
    record(do=st.just('force'), on=st.booleans()),
    record(do=st.just('gradient'), at=vec(rng(0., 1.), 5)),
    record(do=st.just('translate')))


def query(nx, which, x):
    return dict(objective=nx.objective, all=nx.all_constraints, ineq=nx.inequality_constraint, eq=nx.equality_constraint)[which](x)


def check_history(case, ctx):
    p = case['p']
    nx, fields = build(p)
    n = len(p['vars'])
    x = np.array([(v['lo'] + v['at'] * v['width']) / v['scale'] for v in p['vars']])
    level, force, count = 1, False, 0
    last = None                                            # (design, level) of the last real evaluation
    cached = 0

    def evaluated(times=1):
        nonlocal last, count, cached
        state = (tuple(np.round(np.array(x, float), 14)), level)
        for _ in range(times):
            if force or last is None or last != state:
                count += 1
            else:
                cached += 1
            last = state

    for o in case['ops']:
        do = o['do']
        if do == 'x':
            x = np.array([(v['lo'] + a * v['width']) / v['scale'] for v, a in zip(p['vars'], o['at'])])
            nx.evaluate(x * 1.)
        elif do == 'table':
            k = o['k'] % n
            v = p['vars'][k]
            val = v['lo'] + o['at'] * v['width']
            nx.optimization_problem.inputs[k, 1] = val
            x = x * 1.
            x[k] = val / v['scale']
            nx.evaluate()
        elif do == 'level':
            nx.fidelity_level = level = o['level']
        elif do == 'force':
            nx.force_evaluate = force = o['on']
        elif do in ('look', 'again'):
            if o['which'] == 'all' and not p['cons']:
                continue
            got = query(nx, o['which'], x * 1. if do == 'again' else None)
            si = design(p, x)
            want = dict(zip(('objective', 'all', 'ineq', 'eq'), expected(p, si, level)))
            want = want[o['which']]
            want = [want] if o['which'] == 'objective' else want
            size = [tol(p) / (p['oscale'] * UNITS[p['ounit']])] if o['which'] == 'objective' else \
                [(60. + 20.) * 100. / min(c['scale'] for c in p['cons'])] * len(want) if p['cons'] else []
            same(got, want, size, '%s in the history' % o['which'])
        elif do == 'gradient':
            if not p['cons']:
                continue
            x = np.array([(v['lo'] + a * v['width']) / v['scale'] for v, a in zip(p['vars'], o['at'])])
            h = 1e-5
            g, J = nx.finite_difference(x * 1., diff_interval=h)
            g, J = np.asarray(g, float), np.asarray(J, float)
            require(g.shape == (n,) and J.shape == (len(p['cons']), n), 'gradient shapes %s %s' % (g.shape, J.shape))
            base = expected(p, design(p, x), level)
            for k in range(n):
                xk = x * 1.
                xk[k] += h
                up = expected(p, design(p, xk), level)
                close(g[k], (up[0] - base[0]) / h, rtol=1e-6, atol=1e-3 * (1. + abs(base[0]) + abs(up[0])) * 1e-7 / h,
                      what='objective gradient')
                for i in range(len(p['cons'])):
                    close(J[i, k], (up[1][i] - base[1][i]) / h, rtol=1e-6, atol=1e-10 * (1. + abs(base[1][i])) / h,
                          what='constraint jacobian')
            x = x * 1.
            x[n - 1] += h                                  # the design is left at the last perturbed point
            nx.evaluate(x * 1.)
            ctx.hit('gradient')
        elif do == 'translate':
            if not p['cons']:
                continue
            with contextlib.redirect_stdout(io.StringIO()):
                inp, table = nx.translate(x * 1.)
            si = design(p, x)
            g = expected(p, si, level)[1]
            for i, c in enumerate(p['cons']):
                close(float(table[i, 1]), g[i] * c['scale'] / UNITS[c['unit']], rtol=1e-10, atol=1e-9 / UNITS[c['unit']],
                      what='constraint value in its own units')
        si = design(p, x)
        if do not in ('level', 'force'):
            for fs, s in zip(fields, si):
                close(fetch(nx, fs[0]), s, rtol=1e-12, atol=1e-15, what='design variable after %s' % do)
            require(nx.calls == nx.evaluation_count, 'evaluation_count %d, the procedure ran %d times' % (nx.evaluation_count, nx.calls))
    # caching: an unchanged design is not re-evaluated, any change is
    nx.force_evaluate = False
    nx.evaluate(x * 1.)
    c0 = nx.calls
    for which in ('objective', 'ineq', 'eq'):
        query(nx, which, None)
        query(nx, which, x * 1.)
    require(nx.calls == c0, 'an unchanged design was evaluated again')
    nx.force_evaluate = True
    nx.objective()
    require(nx.calls == c0 + 1, 'force_evaluate ran the procedure %d times' % (nx.calls - c0))
    nx.force_evaluate = False
    for k in range(n):
        x2 = x * 1.
        x2[k] = x2[k] * (1. + 1e-9) + 1e-12
        c0 = nx.calls
        nx.evaluate(x2)
        require(nx.calls == c0 + 1, 'a small change of variable %d was not evaluated' % k)
    nx.fidelity_level = level % 3 + 1
    c0 = nx.calls
    look(p, nx, design(p, x2), level % 3 + 1, 'after changing the fidelity')
    require(nx.calls == c0 + 1, 'a change of fidelity level was not evaluated')
    if len(case['ops']) >= 4:
        ctx.hit('history')


# ------------------------------------------------------------------ scale/unit invariance
def check_invariance(case, ctx):
    """Feasibility and the design itself do not depend on scales or on the units a table is written in."""
    p = case['p']
    if not p['cons']:
        raise Discard
    q = copy.deepcopy(p)
    for v, s in zip(q['vars'], case['s']):
        v['scale'] = s
    for c, s, u in zip(q['cons'], case['s'][1:] + case['s'], case['u']):
        c['scale'] = s
        c['edge'] = c['edge'] * UNITS[c['unit']] / UNITS[u]
        c['unit'] = u
    q['oscale'] = case['s'][0]
    a, _ = build(p)
    b, _ = build(q)
    vals = [v['lo'] + t * v['width'] for v, t in zip(p['vars'], case['at'])]
    xa = np.array([w / v['scale'] for w, v in zip(vals, p['vars'])])
    xb = np.array([w / v['scale'] for w, v in zip(vals, q['vars'])])
    for name in ('inequality_constraint', 'equality_constraint'):
        ga, gb = np.asarray(getattr(a, name)(xa), float), np.asarray(getattr(b, name)(xb), float)
        require(ga.shape == gb.shape, name)
        sel = [c for c in range(len(p['cons'])) if (p['cons'][c]['sense'] == '=') == (name[0] == 'e')]
        for i, k in enumerate(sel):
            close(ga[i] * p['cons'][k]['scale'], gb[i] * q['cons'][k]['scale'], rtol=1e-9, atol=1e-7, what='%s margin in physical terms' % name)
    close(float(a.objective()) * p['oscale'], float(b.objective()) * q['oscale'], rtol=1e-9, atol=1e-7 * tol(p), what='objective')
    ctx.hit('scaled')


# ------------------------------------------------------------------ solvers
solv = record(n=st.integers(2, 3), t=vec(rng(-2., 2.), 3), w=vec(rng(.5, 3.), 3), scale=vec(logrng(.2, 5.), 3),
              unit=vec(st.sampled_from(sorted(UNITS)), 3), lo=vec(rng(-4., -.5), 3), width=vec(rng(1.5, 8.), 3),
              at=vec(rng(.05, .95), 3), ncon=st.integers(0, 2), cdir=vec(vec(rng(-1., 1.), 3), 2), cslack=vec(rng(-.5, 1.), 2),
              sense=vec(st.sampled_from('<>'), 2), cscale=vec(logrng(.2, 5.), 2), cunit=vec(st.sampled_from(sorted(UNITS)), 2),
              oscale=logrng(.2, 5.), seed=st.integers(0, 99999))


def convex(case):
    """A convex quadratic on a box with linear constraints that keep a known interior point feasible."""
    n = case['n']
    center = [case['lo'][k] + .5 * case['width'][k] for k in range(n)]
    cons = []
    for i in range(case['ncon']):
        d = case['cdir'][i][:n]
        if max(map(abs, d)) < .3:
            raise Discard
        mid = sum(a * b for a, b in zip(d, center))
        sign = 1. if case['sense'][i] == '<' else -1.
        span = sum(abs(a) * case['width'][k] for k, a in enumerate(d))
        edge = (mid + sign * span * (.05 + .2 * abs(case['cslack'][i]))) / UNITS[case['cunit'][i]]
        cons.append(dict(sense=case['sense'][i], edge=edge, scale=case['cscale'][i], unit=case['cunit'][i], c=d + [0.] * (5 - n)))
    p = dict(vars=[dict(scale=case['scale'][k], unit=case['unit'][k], lo=case['lo'][k], width=case['width'][k], at=case['at'][k],
                        w=case['w'][k], t=case['t'][k]) for k in range(n)],
             cons=cons, oscale=case['oscale'], ounit='less', perm=list(range(len(KEYS))), double=False, mix=0.)
    return p


def reference_optimum(p):
    """Projected solution of the separable convex problem by an independent dual ascent on a fine active-set enumeration."""
    from itertools import product
    n = len(p['vars'])
    w = np.array([v['w'] for v in p['vars']]); t = np.array([v['t'] for v in p['vars']])
    lo = np.array([v['lo'] for v in p['vars']]); hi = lo + np.array([v['width'] for v in p['vars']])
    A, b = [], []
    for c in p['cons']:
        s = 1. if c['sense'] == '<' else -1.
        A.append(s * np.array(c['c'][:n])); b.append(s * c['edge'] * UNITS[c['unit']])
    best = None
    m = len(A)
    for state in product((-1, 0, 1), repeat=n):
        for act in product((0, 1), repeat=m):
            rows, rhs = [], []
            for k in range(n):
                if state[k]:
                    e = np.zeros(n); e[k] = 1.
                    rows.append(e); rhs.append(lo[k] if state[k] < 0 else hi[k])
            for i in range(m):
                if act[i]:
                    rows.append(A[i]); rhs.append(b[i])
            k = len(rows)
            if k > n:
                continue
            K = np.zeros((n + k, n + k)); r = np.zeros(n + k)
            K[:n, :n] = np.diag(2 * w); r[:n] = 2 * w * t
            for j in range(k):
                K[:n, n + j] = rows[j]; K[n + j, :n] = rows[j]; r[n + j] = rhs[j]
            if np.linalg.cond(K) > 1e10:
                continue
            x = np.linalg.solve(K, r)[:n]
            if np.any(x < lo - 1e-9) or np.any(x > hi + 1e-9) or any(A[i] @ x > b[i] + 1e-9 for i in range(m)):
                continue
            f = 1. + float(np.sum(w * (x - t) ** 2))
            if best is None or f < best[0]:
                best = (f, x)
    if best is None:
        raise Discard
    return best


def judge(p, x, f, ctx, ftol, gtol=1e-6, ref=True):
    """x: scaled result. f: reported scaled objective."""
    x = np.asarray(x, float).ravel()
    require(len(x) == len(p['vars']) and np.all(np.isfinite(x)), 'result %s' % x)
    vals = np.array([xi * v['scale'] for xi, v in zip(x, p['vars'])])
    for val, v in zip(vals, p['vars']):
        require(v['lo'] - 1e-7 * v['width'] <= val <= v['lo'] + v['width'] * (1. + 1e-7), 'result %.9g outside its bounds %g, %g' % (val, v['lo'], v['lo'] + v['width']))
    obj, allc, ineq, eq = expected(p, design(p, x))
    for g, c in zip(ineq, p['cons']):
        require(g * c['scale'] >= -gtol * (1. + abs(c['edge'])), 'returned design violates a constraint by %.3g' % (g * c['scale']))
    if f is not None:
        close(float(np.ravel(f)[0]), obj, rtol=1e-9, atol=1e-12, what='objective reported with the result')
    if ref:
        fbest, xbest = reference_optimum(p)
        got = obj * p['oscale']
        require(got <= fbest + ftol * (1. + fbest), 'objective %.9g, the constrained optimum is %.9g' % (got, fbest))
        if p['cons'] and any(abs(g * c['scale']) < 1e-3 for g, c in zip(ineq, p['cons'])):
            ctx.label('active constraint')
    return vals


def check_slsqp(case, ctx):
    p = convex(case)
    nx, fields = build(p)
    with quiet():
        x = SciPy_Solve(nx, solver='SLSQP', tolerance=1e-12, iter=300)
    judge(p, x, None, ctx, 1e-5)
    ctx.hit('%d constraints' % len(p['cons']))


def check_global(case, ctx):
    p = convex(case)
    nx, fields = build(p)
    np.random.seed(case['seed'])
    with quiet():
        r = SciPy_Solve(nx, solver='differential_evolution', pop_size=8, prob_seed=case['seed'])
    if not r.success:
        ctx.label('not converged')
        raise Discard
    judge(p, r.x, r.fun, ctx, 5e-3, gtol=1e-4)
    ctx.hit('%d constraints' % len(p['cons']))


def check_swarm(case, ctx):
    p = convex(case)
    nx, fields = build(p)
    seen = []
    inner_ = nx.objective

    def spy(x):
        seen.append(np.array(x, float).copy())
        return inner_(x)
    lb = np.array([v['lo'] / v['scale'] for v in p['vars']])
    ub = np.array([(v['lo'] + v['width']) / v['scale'] for v in p['vars']])
    np.random.seed(case['seed'])
    with quiet():
        g, f = particle_swarm_optimization(spy, lb, ub, f_ieqcons=nx.inequality_constraint if p['cons'] else None,
                                           swarmsize=case['swarm'], maxiter=case['iters'], minstep=1e-9, minfunc=1e-9)
    feas = []
    for x in seen:
        require(np.all(x >= lb) and np.all(x <= ub), 'particle outside the bounds')
        o, _, ineq, _ = expected(p, design(p, x))
        if all(i >= 0 for i in ineq):
            feas.append(o)
    if not feas:
        ctx.label('no feasible particle')
        raise Discard
    judge(p, g, f, ctx, 0, gtol=1e-12, ref=False)
    close(float(np.ravel(f)[0]), min(feas), rtol=1e-9, atol=1e-12, what='the best feasible design the swarm visited')
    ctx.hit('infeasible particles' if len(feas) < len(seen) else 'all feasible')


def check_trust_region(case, ctx):
    """Multi-fidelity trust region: low fidelity differs from high, the high-fidelity optimum is returned."""
    p = convex(case)
    nx, fields = build(p, table=1)
    lin, quad, cs = case['lin'], case['quad'], case['cshift']

    def low_step(nexus):
        nexus.calls += 1
        si = [fetch(nexus, f[0]) for f in fields]
        u = [s / UNITS[v['unit']] for s, v in zip(si, p['vars'])]
        f = objective_model(p, si, 1)
        if nexus.fidelity_level == 1:
            f += case['off'] + sum(l * a for l, a in zip(lin, u)) + sum(q * a * a for q, a in zip(quad, u))
        nexus.summary.value = f
        for i, c in enumerate(p['cons']):
            g = constraint_model(p, c, si, 1)
            if nexus.fidelity_level == 1:
                g += cs[i]
            nexus.summary.con['g%d' % i] = g
        return nexus
    nx.procedure = SUAVE.Analyses.Process()
    nx.procedure.step = low_step
    # the start is the centre of the box, which satisfies every constraint
    for k, v in enumerate(p['vars']):
        nx.optimization_problem.inputs[k, 1] = v['lo'] + .5 * v['width']
    tr = Trust_Region()
    tr.size = tr.initial_size = case['size']
    opt = Trust_Region_Optimization()
    opt.trust_region_max_iterations = 60
    opt.difference_interval = 1e-6
    nx.trust_region = tr
    x0 = np.array([(v['lo'] + .5 * v['width']) / v['scale'] for v in p['vars']])
    with quiet():
        f, x, why = opt.optimize(nx)
    ctx.label(why)
    x = np.asarray(x, float)
    for xi, v in zip(x, p['vars']):
        require(v['lo'] - 1e-6 * v['width'] <= xi * v['scale'] <= v['lo'] + v['width'] * (1. + 1e-6), 'result outside the design bounds')
    if why == 'Max iteration limit reached':
        return
    judge(p, x, None, ctx, 2e-3, gtol=1e-4)
    ctx.hit('converged')


# ------------------------------------------------------------------ sweeps and files
def check_sweep(case, ctx):
    p = case['p']
    if not p['cons']:
        raise Discard
    n = len(p['vars'])
    m = case['points']
    nx, fields = build(p)
    base = [v['lo'] + v['at'] * v['width'] for v in p['vars']]
    u = UNITS[p['ounit']]
    grid = lambda k: [p['vars'][k]['lo'] + p['vars'][k]['width'] * i / (m - 1.) for i in range(m)]

    def point(vals):
        si = [a * UNITS[v['unit']] for a, v in zip(vals, p['vars'])]
        return objective_model(p, si, 1) / u, [constraint_model(p, c, si, 1) / c['scale'] for c in p['cons']]
    big = tol(p) / u
    k = case['k'] % n
    with quiet():
        out = line_plot(nx, m, plot_obj=0, plot_const=0, sweep_index=k)
    for i, a in enumerate(grid(k)):
        vals = list(base); vals[k] = a
        o, g = point(vals)
        close(out.inputs[0, i], a, rtol=1e-12, atol=1e-12, what='swept value')
        close(out.objective[i], o, rtol=1e-10, atol=1e-11 * big, what='line sweep objective in its own units')
        for j in range(len(g)):
            close(out.constraint_val[j, i], g[j], rtol=1e-10, atol=1e-8 / p['cons'][j]['scale'], what='line sweep constraint')
    if n > 1:
        nx, fields = build(p)
        l = (k + 1) % n
        with quiet():
            out = carpet_plot(nx, m, plot_obj=0, plot_const=0, sweep_index_0=k, sweep_index_1=l)
        for i, a in enumerate(grid(k)):
            for j, b in enumerate(grid(l)):
                vals = list(base); vals[k] = a; vals[l] = b
                o, g = point(vals)
                close(out.objective[j, i], o, rtol=1e-10, atol=1e-11 * big, what='carpet objective')
                for q in range(len(g)):
                    close(out.constraint_val[q, j, i], g[q], rtol=1e-10, atol=1e-8 / p['cons'][q]['scale'], what='carpet constraint')
        ctx.hit('carpet')
    else:
        ctx.hit('line')


def check_log(case, ctx):
    p = case['p']
    if not p['cons']:
        raise Discard
    nx, fields = build(p)
    with quiet():
        for it, at in enumerate(case['its']):
            x = np.array([(v['lo'] + a * v['width']) / v['scale'] for v, a in zip(p['vars'], at)])
            nx.objective(x)
            nx.total_number_of_iterations = it
            write_optimization_outputs(nx, 'history.txt')
        its, objs, ins, cons = read_optimization_outputs('history.txt', nx.optimization_problem.inputs, nx.optimization_problem.constraints)
    require(list(its) == list(range(len(case['its']))), 'iterations read back %s' % its)
    for r, at in enumerate(case['its']):
        x = [(v['lo'] + a * v['width']) / v['scale'] for v, a in zip(p['vars'], at)]
        obj, allc, _, _ = expected(p, design(p, x))
        close(objs[r], obj, rtol=1e-10, atol=1e-11 * tol(p) / (p['oscale'] * UNITS[p['ounit']]), what='objective read back')
        require(ins.shape[1] == len(x) and cons.shape[1] == len(allc), 'columns read back')
        for a, b in zip(ins[r], x):
            close(a, b, rtol=1e-12, atol=1e-15, what='scaled input read back')
        for a, b, c in zip(cons[r], allc, p['cons']):
            close(a, b, rtol=1e-10, atol=1e-8 / c['scale'], what='scaled constraint read back')
    ctx.hit('history')


tr_case = record(n=st.integers(2, 3), t=vec(rng(-2., 2.), 3), w=vec(rng(.5, 3.), 3), scale=vec(logrng(.5, 2.), 3),
                 unit=vec(st.sampled_from(sorted(UNITS)), 3), lo=vec(rng(-4., -.5), 3), width=vec(rng(1.5, 8.), 3),
                 at=vec(rng(.05, .95), 3), ncon=st.integers(1, 2), cdir=vec(vec(rng(-1., 1.), 3), 2), cslack=vec(rng(-.5, 1.), 2),
                 sense=vec(st.sampled_from('<>'), 2), cscale=vec(logrng(.5, 2.), 2), cunit=vec(st.sampled_from(sorted(UNITS)), 2),
                 oscale=logrng(.5, 2.), lin=vec(rng(-1., 1.), 3), quad=vec(rng(-.2, .4), 3), cshift=vec(rng(-.3, .3), 2),
                 off=rng(-3., 3.), size=rng(.3, 2.))
swarm_case = solv.flatmap(lambda c: record(swarm=st.integers(4, 16), iters=st.integers(1, 15)).map(lambda d: dict(c, **d)))

PROPERTY = Property('C28', [
    Sub('mapping', record(p=problem, hard=st.booleans(), at=vec(rng(-.5, 1.5), 5)), check_mapping, quick=500, thorough=8000,
        rule='a wildcard, a two-place variable or a clipped input'),
    Sub('history', record(p=problem, ops=vec(op, 2, 10)), check_history, quick=400, thorough=6000, rule='four or more operations, or a gradient'),
    Sub('invariance', record(p=problem, at=vec(rng(0., 1.), 5), s=vec(logrng(.01, 1000.), 5), u=vec(st.sampled_from(sorted(UNITS)), 4)),
        check_invariance, quick=250, thorough=4000, rule='a problem with constraints re-scaled'),
    Sub('slsqp', solv, check_slsqp, quick=120, thorough=1500, rule='solved'),
    Sub('global', solv, check_global, quick=10, thorough=80, rule='converged'),
    Sub('swarm', swarm_case, check_swarm, quick=120, thorough=1500, rule='at least one feasible particle'),
    Sub('trust_region', tr_case, check_trust_region, quick=50, thorough=600, rule='converged'),
    Sub('sweep', record(p=problem, points=st.integers(2, 5), k=st.integers(0, 4)), check_sweep, quick=150, thorough=2000, rule='swept'),
    Sub('log', record(p=problem, its=vec(vec(rng(0., 1.), 5), 1, 4)), check_log, quick=150, thorough=2000, rule='written and read back'),
], rule='each sub-check states its own rule')
