"""C04: vehicle configurations inherit from their base and keep their own changes.

Oracle: overlay of plain nested dicts."""
import copy
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, DataOrdered
from SUAVE.Core import Diffed_Data
from lib.prop import Property, Sub, require, fail
from lib.strat import record

KEYS = ['a', 'b', 'c', 'd', 'wing', 'mass']
val = st.one_of(st.integers(-5, 5).map(float), st.sampled_from(['x', 'y', 'z']), st.lists(st.integers(0, 3), min_size=2, max_size=2),
                st.lists(st.integers(-3, 3).map(float), min_size=3, max_size=3).map(lambda v: {'A': v}))


def tree(depth=0):
    node = val if depth >= 2 else st.one_of(val, val, st.deferred(lambda: tree(depth + 1)))
    return st.lists(st.tuples(st.sampled_from(KEYS), node).map(list), min_size=1, max_size=4, unique_by=lambda kv: kv[0]).map(lambda kv: {'T': kv})


def real(v):
    if isinstance(v, dict) and 'T' in v:
        d = Data()
        for k, x in v['T']:
            d[k] = real(x)
        return d
    if isinstance(v, dict):
        return np.array(v['A'])
    return copy.deepcopy(v)


def model(v):
    if isinstance(v, dict) and 'T' in v:
        return {k: model(x) for k, x in v['T']}
    if isinstance(v, dict):
        return np.array(v['A'])
    return copy.deepcopy(v)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def compare(r, m, path=''):
    keys = [k for k in r.keys() if not k.startswith('_')]
    require(set(keys) == set(m), '%s: holds %r, expected %r', path or 'config', sorted(keys), sorted(m))
    for k, v in m.items():
        if isinstance(v, dict):
            require(isinstance(r[k], dict), '%s.%s: branch became %r', path, k, r[k])
            compare(r[k], v, path + '.' + k)
        else:
            require(not isinstance(r[k], dict) and eq(r[k], v), '%s.%s: %r, expected %r', path, k, r[k], v)


def leafs(m, pre=()):
    for k, v in m.items():
        if isinstance(v, dict):
            for x in leafs(v, pre + (k,)):
                yield x
        else:
            yield pre + (k,)


def branches(m, pre=()):
    yield pre
    for k, v in m.items():
        if isinstance(v, dict):
            for x in branches(v, pre + (k,)):
                yield x


def at(d, path):
    for k in path:
        d = d[k]
    return d


def put(r, m, o):
    """Apply a generated edit to the real object and to the model."""
    if o['edit'] == 'change':
        ls = [p for p in leafs(m) if p != ('tag',)]
        if not ls:
            return None
        p = ls[o['pick'] % len(ls)]
        old = at(m, p)
        nv = o['value']
        # an edit changes the value, and what it is stays comparable
        rv, mv = real(nv), model(nv)
        if isinstance(mv, np.ndarray) != isinstance(old, np.ndarray) or eq(mv, old):
            return None
        if type(mv) != type(old):
            return None
        at(r, p[:-1])[p[-1]] = rv
        at(m, p[:-1])[p[-1]] = mv
        return p
    bs = list(branches(m))
    p = bs[o['pick'] % len(bs)]
    k = 'new%d' % o['n']
    if k in at(m, p):
        return None
    at(r, p)[k] = real(o['value'])
    at(m, p)[k] = model(o['value'])
    return p + (k,)


edit = record(edit=st.sampled_from(['change', 'change', 'add']), pick=st.integers(0, 30), n=st.integers(0, 3), value=val)


def overlay(base, mine, local, pre=()):
    """What a configuration must hold: the base's values, under those set locally; what neither mentions stays."""
    out = {}
    for k in list(mine) + [k for k in base if k not in mine]:
        p = pre + (k,)
        if k in base and k in mine and isinstance(base[k], dict) and isinstance(mine[k], dict):
            out[k] = overlay(base[k], mine[k], local, p)
        elif k not in base or any(p[:len(q)] == q for q in local):
            out[k] = copy.deepcopy(mine[k])
        else:
            out[k] = copy.deepcopy(base[k])
    return out


def check_inherit(case, ctx):
    b = real(case['base'])
    b.tag = 'base'
    mb = model(case['base'])
    mb['tag'] = 'base'
    cls = Diffed_Data
    cont = Diffed_Data.Container()
    cfgs = []
    used = set()
    for i, edits in enumerate(case['configs']):
        c = cls(b)
        m = copy.deepcopy(mb)
        compare(c, m)
        c.tag = 'cfg%d' % i
        m['tag'] = c.tag
        local = [('tag',)]
        for o in edits:
            p = put(c, m, o)
            if p:
                local.append(p)
        compare(c, m)
        compare(b, mb, 'base')
        cfgs.append([c, m, local])
        if case['explicit']:
            c.store_diff()
        cont.append(c)
    for i, (c, m, l) in enumerate(cfgs):
        require(cont['cfg%d' % i] is c, 'container lost a configuration')
        compare(c, m)
    # later work on the base reaches every configuration except where it said otherwise
    inherited = False
    for rnd in range(2 if case['twice'] else 1):
        for o in case['later']:
            o = dict(o, n=o['n'] + 10 * (rnd + 1))
            p = put(b, mb, o)
            used |= {p}
        if case['through'] == 'container':
            cont.pull_base()
        elif case['through'] == 'finalize':
            cont.finalize()
        else:
            for c, _, _ in cfgs:
                c.pull_base()
        compare(b, mb, 'base')
        for j, (c, m, local) in enumerate(cfgs):
            want = overlay(mb, m, local)
            compare(c, want, 'cfg%d' % j)
            inherited = inherited or any(p for p in used if p and not any(p[:len(q)] == q for q in local))
            cfgs[j][1] = want
        compare(b, mb, 'base')
        # pulling again changes nothing
        cont.pull_base()
        for j, (c, m, local) in enumerate(cfgs):
            compare(c, m, 'cfg%d pulled again' % j)
    if inherited and any(len(l) > 1 for _, _, l in cfgs):
        ctx.hit('both inherited and local changes')
    ctx.label('configs=%d' % len(cfgs))


def check_chain(case, ctx):
    """A configuration of a configuration: changes travel down the chain."""
    b = real(case['base'])
    b.tag = 'base'
    mb = model(case['base'])
    mb['tag'] = 'base'
    mid = Diffed_Data(b)
    mm = copy.deepcopy(mb)
    mid.tag = mm['tag'] = 'mid'
    lm = [('tag',)] + [p for p in (put(mid, mm, o) for o in case['mid']) if p]
    mid.store_diff()
    leaf = Diffed_Data(mid)
    ml = copy.deepcopy(mm)
    leaf.tag = ml['tag'] = 'leaf'
    ll = [('tag',)] + [p for p in (put(leaf, ml, dict(o, n=o['n'] + 50)) for o in case['leaf']) if p]
    leaf.store_diff()
    ch = [p for p in (put(b, mb, dict(o, n=o['n'] + 100)) for o in case['later']) if p]
    leaf.pull_base()
    wm = overlay(mb, mm, lm)
    compare(mid, wm, 'middle')
    compare(leaf, overlay(wm, ml, ll), 'leaf')
    compare(b, mb, 'base')
    if ch and len(ll) > 1:
        ctx.hit('chain with local and base changes')


def check_vehicle(case, ctx):
    """The same on real vehicles, through the documented Config class."""
    v = SUAVE.Vehicle()
    v.tag = 'plane'
    v.mass_properties.takeoff = case['mto']
    for i in range(case['nw']):
        w = SUAVE.Components.Wings.Main_Wing()
        w.tag = 'w%d' % i
        w.areas.reference = 10. + i
        f = SUAVE.Components.Wings.Control_Surfaces.Flap()
        f.tag = 'flap'
        w.append_control_surface(f)
        v.append_component(w)
    configs = SUAVE.Components.Configs.Config.Container()
    base = SUAVE.Components.Configs.Config(v)
    base.tag = 'base'
    configs.append(base)
    local = {}
    for j, (wi, what, x) in enumerate(case['cfg']):
        c = SUAVE.Components.Configs.Config(base)
        c.tag = 'c%d' % j
        wt = 'w%d' % (wi % case['nw'])
        if what == 'flap':
            c.wings[wt].control_surfaces.flap.deflection = x
        elif what == 'area':
            c.wings[wt].areas.reference = 100. + x
        else:
            c.mass_properties.takeoff = 5e3 + x
        local[j] = (wt, what, x)
        configs.append(c)
    base.mass_properties.takeoff = case['mto2']
    for i in range(case['nw']):
        base.wings['w%d' % i].areas.reference = 200. + i
        base.wings['w%d' % i].spans.projected = 30. + i
    base.store_diff()
    configs.finalize()
    for j, (wt, what, x) in local.items():
        c = configs['c%d' % j]
        require(c.tag == 'c%d' % j, 'tag of config lost')
        require(isinstance(c, SUAVE.Components.Configs.Config), 'config class lost')
        for i in range(case['nw']):
            w = c.wings['w%d' % i]
            require(isinstance(w, SUAVE.Components.Wings.Main_Wing), 'wing class lost')
            mine = wt == 'w%d' % i
            require(w.areas.reference == (100. + x if mine and what == 'area' else 200. + i), 'area of %s in %s: %r', w.tag, c.tag, w.areas.reference)
            require(w.spans.projected == 30. + i, 'span of %s not inherited', w.tag)
            d = w.control_surfaces.flap.deflection
            require(d == (x if mine and what == 'flap' else 0.0), 'flap deflection of %s in %s: %r', w.tag, c.tag, d)
        require(c.mass_properties.takeoff == (5e3 + x if what == 'mass' else case['mto2']), 'takeoff mass in %s: %r', c.tag, c.mass_properties.takeoff)
    for i in range(case['nw']):
        require(base.wings['w%d' % i].control_surfaces.flap.deflection == 0., 'a configuration wrote into the base')
        require(v.wings['w%d' % i].areas.reference == 10. + i, 'a configuration wrote into the vehicle')
    if len(case['cfg']) > 1:
        ctx.hit('configs=%d' % len(case['cfg']))


SUBS = [
    Sub('inherit', record(base=tree(), configs=st.lists(st.lists(edit, max_size=4), min_size=1, max_size=3), later=st.lists(edit, min_size=1, max_size=5),
                          explicit=st.booleans(), twice=st.booleans(), through=st.sampled_from(['container', 'finalize', 'each'])),
        check_inherit, quick=1200, rule='the base changed after the split somewhere a configuration did not, and a configuration has its own change'),
    Sub('chain', record(base=tree(), mid=st.lists(edit, max_size=3), leaf=st.lists(edit, max_size=3), later=st.lists(edit, min_size=1, max_size=4)), check_chain, quick=700,
        rule='the base changed later and the last configuration has its own change'),
    Sub('vehicle', record(mto=st.sampled_from([1e3, 2e3]), mto2=st.sampled_from([3e3, 4e3]), nw=st.integers(1, 3),
                          cfg=st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['flap', 'area', 'mass']), st.integers(1, 9).map(float)).map(list), min_size=1, max_size=4)),
        check_vehicle, quick=240, rule='two or more configurations'),
]
PROPERTY = Property('C04', SUBS, rule='Random base trees, local edits and later base edits, several configurations or chains; compared with an overlay of plain dicts. Non-trivial as stated per sub-check.',
                    assumptions=['edits rebind values (no in-place writes into shared arrays), keep their type, and do not delete keys'])
