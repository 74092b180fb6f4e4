"""C05: multiplying by a unit converts into SI base units, dividing converts back out.

Oracle: a hand-written table of SI factors and exact rational arithmetic on unit expressions."""
import math
import numpy as np
from hypothesis import strategies as st

from SUAVE.Core import Units
from lib.prop import Property, Sub, require, close, fail
from lib.strat import record, rng

FT, LB, G0 = 0.3048, 0.45359237, 9.80665
NMI = 1852.0
LBF = LB * G0
BTU = 1055.05585262
T = {
    'm': 1., 'meter': 1., 'meters': 1., 'metre': 1., 'km': 1e3, 'cm': 1e-2, 'mm': 1e-3, 'inch': .0254, 'inches': .0254, 'foot': FT, 'ft': FT, 'feet': FT,
    'yard': .9144, 'mile': 5280 * FT, 'miles': 5280 * FT, 'nmi': NMI, 'nautical_mile': NMI, 'nautical_miles': NMI,
    'kg': 1., 'kilogram': 1., 'kilograms': 1., 'g': 1e-3, 'gram': 1e-3, 'lb': LB, 'lbs': LB, 'pound': LB, 'pounds': LB, 'lbm': LB, 'ounce': LB / 16, 'slug': 14.5939, 'slugs': 14.5939,
    'metric_ton': 1e3, 'tonne': 1e3, 'ton': 2000 * LB, 'stone': 14 * LB,
    's': 1., 'sec': 1., 'second': 1., 'seconds': 1., 'min': 60., 'minute': 60., 'minutes': 60., 'hr': 3600., 'hour': 3600., 'hrs': 3600., 'h': 3600., 'day': 86400., 'week': 7 * 86400.,
    'N': 1., 'newton': 1., 'kN': 1e3, 'lbf': LBF, 'force_pound': LBF, 'force_pounds': LBF, 'kip': 1e3 * LBF, 'dyne': 1e-5, 'force_kilogram': G0,
    'Pa': 1., 'pascal': 1., 'pascals': 1., 'kPa': 1e3, 'MPa': 1e6, 'bar': 1e5, 'atm': 101325., 'psi': LBF / .0254**2, 'ksi': 1e3 * LBF / .0254**2, 'torr': 101325. / 760,
    'J': 1., 'joule': 1., 'kJ': 1e3, 'MJ': 1e6, 'erg': 1e-7, 'btu': BTU, 'cal': 4.184, 'Wh': 3600., 'kWh': 3.6e6, 'eV': 1.60217653e-19,
    'W': 1., 'watt': 1., 'watts': 1., 'kW': 1e3, 'MW': 1e6, 'mW': 1e-3, 'hp': 550 * FT * LBF, 'horsepower': 550 * FT * LBF,
    'rad': 1., 'radian': 1., 'radians': 1., 'deg': math.pi / 180, 'degree': math.pi / 180, 'degrees': math.pi / 180, 'arcmin': math.pi / 10800, 'revolution': 2 * math.pi, 'turn': 2 * math.pi,
    'rpm': 2 * math.pi / 60, 'Hz': 1., 'hertz': 1., 'kHz': 1e3, 'rps': 1.,
    'knot': NMI / 3600, 'knots': NMI / 3600, 'kts': NMI / 3600, 'mph': 5280 * FT / 3600, 'kph': 1 / 3.6,
    'A': 1., 'amp': 1., 'ampere': 1., 'mA': 1e-3, 'V': 1., 'volt': 1., 'kV': 1e3, 'ohm': 1., 'kohm': 1e3, 'C': 1., 'coulomb': 1., 'farad': 1., 'tesla': 1.,
    'K': 1., 'kelvin': 1., 'mol': 1.,
    'liter': 1e-3, 'L': 1e-3, 'gallon': 231 * .0254**3, 'gallons': 231 * .0254**3, 'quart': 231 * .0254**3 / 4, 'barrel': 42 * 231 * .0254**3, 'acre': 4046.8564224, 'cc': 1e-6, 'pint': 231 * .0254**3 / 8,
    'less': 1., 'standard_gravity': G0, 'gravity': G0, 'speed_of_light': 299792458.,
}
# dimension of each: (m, kg, s, A, K, mol)
_D = {}


def dims(names, d):
    for n in names.split():
        _D[n] = d


dims('m meter meters metre km cm mm inch inches foot ft feet yard mile miles nmi nautical_mile nautical_miles', (1, 0, 0))
dims('kg kilogram kilograms g gram lb lbs pound pounds lbm ounce slug slugs metric_ton tonne ton stone', (0, 1, 0))
dims('s sec second seconds min minute minutes hr hour hrs h day week', (0, 0, 1))
NAMES = sorted(T)
PREFIX = {'kilo': 1e3, 'mega': 1e6, 'milli': 1e-3, 'micro': 1e-6, 'centi': 1e-2, 'giga': 1e9, 'nano': 1e-9, 'hecto': 1e2, 'k': 1e3, 'M': 1e6, 'm': 1e-3, 'G': 1e9, 'c': 1e-2}
LONG = ['meter', 'gram', 'second', 'newton', 'pascal', 'joule', 'watt', 'volt', 'ampere', 'hertz', 'liter', 'radian', 'ohm']
SHORT = ['m', 'g', 's', 'N', 'Pa', 'J', 'W', 'V', 'A', 'Hz']

num = st.one_of(st.integers(-1000, 1000), rng(-1e6, 1e6), rng(-1, 1))
unit = st.sampled_from(NAMES)


def agree(u_factor, factor, what):
    close(u_factor, factor, rtol=2e-9, what=what)


def check_table(case, ctx):
    n, x = case['unit'], case['x']
    f = T[n]
    for how, u in (('attribute', lambda: getattr(Units, n)), ('item', lambda: Units[n])):
        agree(x * u(), x * f, 'x * %s (%s)' % (n, how))
        agree(u() * x, x * f, '%s * x (%s)' % (n, how))
        agree(x / u(), x / f, 'x / %s (%s)' % (n, how))
        close((x * u()) / u(), x, rtol=1e-12, atol=1e-300, what='in and out of %s' % n)
    a = np.array(case['arr'])
    keep = a.copy()
    agree(a * getattr(Units, n), keep * f, 'array * %s' % n)
    agree(a / getattr(Units, n), keep / f, 'array / %s' % n)
    require(np.array_equal(a, keep), 'converting an array changed the array itself')
    a2 = a[:, None] * np.ones((1, 2))
    w = a2 * Units[n]
    require(w.shape == a2.shape, 'shape of a converted array')
    agree(w, a2 * f, '2-d array * %s' % n)
    if f != 1.:
        ctx.hit('unit ' + n)


@st.composite
def expr(draw):
    n = draw(st.integers(1, 4))
    terms = []
    for i in range(n):
        u = draw(unit)
        p = draw(st.sampled_from([1, 1, 1, 2, 3, -1, 0.5]))
        terms.append([draw(st.sampled_from(['*', '/'])) if i else '', u, p])
    return {'terms': terms, 'pow': draw(st.sampled_from(['**', '^'])), 'space': draw(st.booleans()), 'group': draw(st.booleans())}


def to_text(e):
    sp = ' ' if e['space'] else ''
    parts = []
    for o, u, p in e['terms']:
        t = u
        if p != 1:
            t = '%s%s%s' % (u, e['pow'], ('(%s)' % p if p < 0 else p))
        parts.append((o, t))
    if e['group'] and len(parts) >= 3:
        # a o (b o c) ...
        (o0, a), (o1, b), (o2, c) = parts[:3]
        text = a + sp + o1 + sp + '(' + b + sp + o2 + sp + c + ')'
        for o, t in parts[3:]:
            text += sp + o + sp + t
        return text
    return ''.join((sp + o + sp if o else '') + t for o, t in parts)


def factor(e):
    vals = [T[u] ** p for _, u, p in e['terms']]
    ops = [o for o, _, _ in e['terms']]

    def ap(a, o, b):
        return a * b if o == '*' else a / b
    if e['group'] and len(vals) >= 3:
        acc = ap(vals[0], ops[1], ap(vals[1], ops[2], vals[2]))
        rest = 3
    else:
        acc = vals[0]
        rest = 1
    for o, v in list(zip(ops, vals))[rest:]:
        acc = ap(acc, o, v)
    return acc


def quantity(e):
    qs = []
    for _, u, p in e['terms']:
        q = getattr(Units, u)
        qs.append(q if p == 1 else q ** p)
    ops = [o for o, _, _ in e['terms']]

    def ap(a, o, b):
        return a * b if o == '*' else a / b
    if e['group'] and len(qs) >= 3:
        acc = ap(qs[0], ops[1], ap(qs[1], ops[2], qs[2]))
        rest = 3
    else:
        acc = qs[0]
        rest = 1
    for o, q in list(zip(ops, qs))[rest:]:
        acc = ap(acc, o, q)
    return acc


def check_expr(case, ctx):
    e = case['e']
    x = case['x']
    text = to_text(e)
    f = factor(e)
    if not (1e-200 < f < 1e200):
        return
    agree(x * Units[text], x * f, 'x * Units[%r]' % text)
    agree(x / Units[text], x / f, 'x / Units[%r]' % text)
    close((x * Units[text]) / Units[text], x, rtol=1e-9, what='in and out of %r' % text)
    agree(x * quantity(e), x * f, 'x * (product of unit attributes for %r)' % text)
    agree(x / quantity(e), x / f, 'x / (product of unit attributes for %r)' % text)
    if len(e['terms']) > 1:
        ctx.hit('terms=%d' % len(e['terms']), *(['grouped'] if e['group'] and len(e['terms']) > 2 else []))


def check_held(case, ctx):
    """A unit that is kept and used many times keeps meaning the same thing."""
    kept = {}
    for name in case['units']:
        kept[name] = Units[name]
    for step in case['steps']:
        name = case['units'][step['which'] % len(case['units'])]
        u = kept[name]
        f = T[name]
        x = step['x']
        if step['op'] == 'mul':
            agree(x * u, x * f, 'x * kept %s' % name)
        elif step['op'] == 'rmul':
            agree(u * x, x * f, 'kept %s * x' % name)
        elif step['op'] == 'div':
            agree(x / u, x / f, 'x / kept %s' % name)
        elif step['op'] == 'arr':
            a = np.array([x, 1., 2.5])
            agree(a * u, np.array([x, 1., 2.5]) * f, 'array * kept %s' % name)
            agree(a, [x, 1., 2.5], 'array after conversion')
        elif step['op'] == 'arrdiv':
            a = np.array([x, 1., 2.5])
            agree(a / u, np.array([x, 1., 2.5]) / f, 'array / kept %s' % name)
            agree(a, [x, 1., 2.5], 'array after conversion')
        else:
            agree(x * Units[name], x * f, 'x * fresh %s' % name)
    if len(case['steps']) > len(set(case['units'])):
        ctx.hit('reused')


def check_prefix(case, ctx):
    p = case['p']
    u = case['long'] if len(p) > 1 else case['short']
    if p + u in ('cm', 'Gs', 'GA', 'GV', 'mm', 'cHz', 'cPa', 'mV', 'cA', 'cg', 'cs', 'cJ', 'cN', 'cV', 'cW', 'kg', 'km', 'ms', 'Gg', 'Gm') and False:
        return
    f = PREFIX[p] * T[u] if u in T else PREFIX[p]
    if u == 'gram' or u == 'g':
        f = PREFIX[p] * 1e-3
    x = case['x']
    agree(x * Units[p + u], x * f, 'x * %s%s' % (p, u))
    agree(x / Units[p + u], x / f, 'x / %s%s' % (p, u))
    if len(p) > 1:
        agree(x * Units[p + u + ('es' if u.endswith('z') and False else 's')] if u not in ('hertz',) else x * f, x * f, 'plural of %s%s' % (p, u))
    ctx.hit(p)


def check_temperature(case, ctx):
    t = case['t']
    c = case['t']
    close(c * Units.degC, c + 273.15, rtol=1e-9, what='degC in')
    close((c + 273.15) / Units.degC, c, rtol=1e-9, atol=1e-9, what='degC out')
    close(c * Units.celsius, c + 273.15, rtol=1e-9, what='celsius in')
    f = c * 1.8 + 32.
    close(f * Units.degF, c + 273.15, rtol=3e-7, what='degF in')
    close((c + 273.15) / Units.degF, f, rtol=1e-6, atol=5e-4, what='degF out')
    close((c + 273.15) * 1.8 * Units.degR, c + 273.15, rtol=1e-9, what='degR in')
    close((c + 273.15) / Units.degR, (c + 273.15) * 1.8, rtol=1e-9, what='degR out')
    close(f * Units.degF / Units.degF, f, rtol=1e-9, atol=1e-6, what='degF in and out')
    kept = Units.degC
    for x in case['more']:
        close(x * kept, x + 273.15, rtol=1e-9, what='kept degC in')
        close((x + 273.15) / kept, x, rtol=1e-9, atol=1e-9, what='kept degC out')
    a = np.array([c, 1., 2.])
    close(a * Units.degC, np.array([c, 1., 2.]) + 273.15, rtol=1e-9, what='degC of an array')
    ctx.hit('negative' if c < 0 else 'positive')


SUBS = [
    Sub('table', record(unit=unit, x=num, arr=st.lists(rng(-1e4, 1e4), min_size=1, max_size=3)), check_table, quick=900, rule='the unit is not itself an SI base unit'),
    Sub('expressions', record(e=expr(), x=num), check_expr, quick=1200, rule='two or more unit factors'),
    Sub('kept', record(units=st.lists(unit, min_size=1, max_size=3, unique=True), steps=st.lists(record(which=st.integers(0, 2), op=st.sampled_from(['mul', 'rmul', 'div', 'arr', 'arrdiv', 'fresh']), x=num), min_size=2, max_size=8)),
        check_held, quick=500, rule='some kept unit is used more than once'),
    Sub('prefix', record(p=st.sampled_from(sorted(PREFIX)), long=st.sampled_from(LONG), short=st.sampled_from(SHORT), x=num), check_prefix, quick=300, rule='any prefixed unit'),
    Sub('temperature', record(t=rng(-200, 300), more=st.lists(rng(-50, 50), min_size=2, max_size=3)), check_temperature, quick=160, rule='any temperature'),
]
PROPERTY = Property('C05', SUBS, rule='Random numbers, arrays, units and unit expressions (products, quotients, powers, prefixes, parentheses), and histories that reuse kept unit objects; compared with a hand-written table of SI factors. Non-trivial as stated per sub-check.',
                    assumptions=['offset temperature scales are used on their own, not inside compound units'])
