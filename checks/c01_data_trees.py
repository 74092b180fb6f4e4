"""C01: the attribute-dictionary every SUAVE object is made of behaves like an ordered tree of keys.

Oracle: plain nested dicts, updated by independently written rules after every generated operation."""
import copy
import inspect
import pickle
import string

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, DataOrdered
from lib.prop import Property, Sub, Violation, require, fail, Discard
from lib.strat import rng, record

KEYS = ['a', 'b', 'c', 'alpha', 'mass', 'wing_1', 'Upper', 'x2', 'tag', 'zeta']
PRIVATE = ['_base', '_x']

scalar = st.one_of(st.integers(-5, 5), st.floats(-1e3, 1e3), st.text('abZ _', max_size=4), st.none(), st.booleans(),
                   st.lists(st.integers(0, 3), max_size=3))
array = st.one_of(
    st.lists(st.integers(-9, 9), min_size=1, max_size=3).map(lambda v: {'A': [float(x) for x in v]}),
    st.lists(st.integers(-9, 9), min_size=1, max_size=3).map(lambda v: {'A': [[float(x)] for x in v]}))
leaf = st.one_of(scalar, scalar, array)
key = st.one_of(st.sampled_from(KEYS[:3]), st.sampled_from(KEYS[:3]), st.sampled_from(KEYS))
akey = st.one_of(key, key, key, st.sampled_from(PRIVATE))


def trees(depth=3):
    return st.recursive(leaf, lambda ch: st.lists(st.tuples(akey, ch), max_size=4).map(lambda kv: {'T': [list(p) for p in kv]}), max_leaves=8)


subtree = st.lists(st.tuples(akey, trees()), max_size=5).map(lambda kv: {'T': [list(p) for p in kv]})


def real_value(v, cls=Data):
    if isinstance(v, dict):
        if 'A' in v:
            return np.array(v['A'])
        d = cls()
        for k, x in v['T']:
            d[k] = real_value(x, cls)
        return d
    return copy.deepcopy(v)


def model_value(v):
    if isinstance(v, dict):
        if 'A' in v:
            return np.array(v['A'])
        d = {}
        for k, x in v['T']:
            d[k] = model_value(x)
        return d
    return copy.deepcopy(v)


def same_leaf(a, b):
    if isinstance(b, np.ndarray) or isinstance(a, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return type(a) == type(b) and a == b


def compare(real, model, path='', ordered=False):
    cls = DataOrdered if ordered else Data
    require(isinstance(real, cls), '%s: expected a %s, got %r', path or 'root', cls.__name__, type(real))
    rk = list(real.keys())
    mk = list(model.keys())
    require(rk == mk, '%s: keys %r, expected %r', path or 'root', rk, mk)
    require(len(real) == len(mk), '%s: len %r for keys %r', path, len(real), mk)
    vals = list(real.values())
    its = list(real.items())
    looped = [v for v in real]
    require([k for k, _ in its] == mk, '%s: items() keys %r', path, its)
    require(len(vals) == len(mk) and len(looped) == len(mk), '%s: values()/iteration length', path)
    for i, k in enumerate(mk):
        v = real[k]
        for other, how in ((getattr(real, k), 'attribute'), (vals[i], 'values()'), (its[i][1], 'items()'), (looped[i], 'iteration'),
                           (real.get(k), 'get()')):
            require(other is v, '%s.%s: %s access gives a different object than item access', path, k, how)
        if ordered:
            require(real[i] is v, '%s[%d]: index access gives another object than key %r', path, i, k)
        m = model[k]
        if isinstance(m, dict):
            compare(v, m, path + '.' + k, ordered)
        else:
            require(same_leaf(v, m), '%s.%s: value %r, expected %r', path, k, v, m)
    for k in KEYS:
        require(hasattr(real, k) == (k in model), '%s: hasattr %r is %r', path, k, hasattr(real, k))
        if not ordered:
            require((k in real) == (k in model), '%s: membership of %r', path, k)


def m_update(model, other):
    for k, v in other.items():
        if k.startswith('_'):
            continue
        if isinstance(model.get(k), dict) and isinstance(v, dict):
            m_update(model[k], v)
        else:
            model[k] = v


def m_append_or_update(model, other):
    for k, v in other.items():
        if k.startswith('_'):
            continue
        if isinstance(v, np.ndarray) and k in model:
            cur = model[k]
            a = cur
            # stacking rows; anything that is not an array yields nothing (as documented by the helper)
            if isinstance(a, np.ndarray):
                model[k] = np.vstack([a, v])
            else:
                raise Discard()
        elif isinstance(model.get(k), dict) and isinstance(v, dict):
            m_append_or_update(model[k], v)
        else:
            model[k] = v


SAN = {c: '_' for c in string.punctuation + string.whitespace}


def sanitise(k):
    return ''.join(SAN.get(c, c.lower() if c in string.ascii_uppercase else c) for c in k)


def all_paths(model, pre=()):
    out = [pre]
    for k, v in model.items():
        if isinstance(v, dict):
            out.extend(all_paths(v, pre + (k,)))
    return out


op = st.one_of(
    record(op=st.just('set'), how=st.sampled_from(['item', 'attr', 'deep']), at=st.integers(0, 9), key=akey, value=trees()),
    record(op=st.just('set'), how=st.sampled_from(['item', 'attr', 'deep']), at=st.integers(0, 9), key=key, value=subtree),
    record(op=st.just('del'), how=st.sampled_from(['item', 'attr']), at=st.integers(0, 9), pick=st.integers(0, 9)),
    record(op=st.just('update'), at=st.integers(0, 9), value=subtree),
    record(op=st.just('append'), at=st.integers(0, 9), key=st.text('aB cZ1-._/', min_size=1, max_size=5), value=trees()),
    record(op=st.just('append_tag'), at=st.integers(0, 9), key=st.text('aB cZ1-._/', min_size=1, max_size=5)),
    record(op=st.just('append_or_update'), at=st.integers(0, 9), value=subtree),
    record(op=st.just('index'), at=st.integers(0, 9), key=key, value=st.lists(st.integers(0, 9), min_size=2, max_size=4), i=st.integers(0, 3), new=st.integers(10, 20)),
    record(op=st.just('copy')), record(op=st.just('pickle')), record(op=st.just('str')),
)


def check_ops(case, ctx, ordered=False):
    cls = DataOrdered if ordered else Data
    real = real_value(case['start'], cls)
    model = model_value(case['start'])
    compare(real, model, '', ordered)
    merged = nested = 0
    for o in case['ops']:
        kind = o['op']
        if ordered and kind in ('append_or_update', 'index', 'pickle'):
            continue
        if 'at' in o:
            paths = all_paths(model)
            p = paths[o['at'] % len(paths)]
            r, m = real, model
            for k in p:
                r, m = r[k], m[k]
            nested += bool(p)
        if kind == 'set':
            rv, mv = real_value(o['value'], cls), model_value(o['value'])
            if o['how'] == 'item':
                r[o['key']] = rv
            elif o['how'] == 'attr':
                setattr(r, o['key'], rv)
            else:
                real.deep_set('.'.join(p + (o['key'],)) if o['at'] % 2 else list(p + (o['key'],)), rv)
            m[o['key']] = mv
            got = real.deep_get('.'.join(p + (o['key'],)))
            require(got is rv, 'deep_get after set %s', p)
        elif kind == 'del':
            if not m:
                continue
            k = list(m)[o['pick'] % len(m)]
            if o['how'] == 'attr' or ordered:
                delattr(r, k)
            else:
                del r[k]
            del m[k]
        elif kind == 'update':
            rv, mv = real_value(o['value'], cls), model_value(o['value'])
            merged += any(isinstance(m.get(k), dict) and isinstance(v, dict) and v for k, v in mv.items())
            r.update(rv)
            m_update(m, mv)
        elif kind in ('append', 'append_tag'):
            k = sanitise(o['key'])
            if kind == 'append':
                rv, mv = real_value(o['value'], cls), model_value(o['value'])
                call = lambda: r.append(rv, o['key'])
            else:
                rv = cls()
                rv['tag'] = o['key']
                mv = {'tag': o['key']}
                call = lambda: r.append(rv)
            if k in m:
                try:
                    call()
                except KeyError:
                    ctx.label('append refused')
                else:
                    fail('append of an existing key %r was accepted', k)
            else:
                call()
                m[k] = mv
        elif kind == 'append_or_update':
            rv, mv = real_value(o['value']), model_value(o['value'])

            def ok(mm, vv):
                for k, v in vv.items():
                    if k.startswith('_'):
                        continue
                    if isinstance(v, np.ndarray) and k in mm:
                        c = mm[k]
                        if not (isinstance(c, np.ndarray) and c.ndim == 2 and v.ndim == 2):
                            return False
                    elif isinstance(v, dict) and isinstance(mm.get(k), dict):
                        if not ok(mm[k], v):
                            return False
                return True
            if not ok(m, mv):
                continue
            r.append_or_update(rv)
            m_append_or_update(m, mv)
            ctx.label('append_or_update')
        elif kind == 'index':
            if o['i'] >= len(o['value']):
                continue
            r[o['key']] = list(o['value'])
            real.deep_set('.'.join(p + ('%s[%d]' % (o['key'], o['i']),)), o['new'])
            v = list(o['value'])
            v[o['i']] = o['new']
            m[o['key']] = v
        elif kind == 'copy':
            snap = copy.deepcopy(real)
            if not has_private(model):
                compare(snap, model, '', ordered)
            # writing into the copy never reaches the original
            for q in all_paths(model):
                if any(k.startswith('_') for k in q):
                    continue
                t = snap
                for k in q:
                    t = t[k]
                t['fresh'] = 1
                for k in list(t.keys()):
                    if isinstance(t[k], np.ndarray):
                        t[k][...] = 77.
        elif kind == 'pickle':
            snap = pickle.loads(pickle.dumps(real))
            compare(snap, model, '', ordered)
        elif kind == 'str':
            text = str(real)
            for k in model:
                if not k.startswith('_'):
                    require(('\n%s : ' % k) in ('\n' + text), 'printing omits key %r: %s', k, text)
        compare(real, model, '', ordered)
    ctx.label(*['op:' + o['op'] for o in case['ops']])
    if len(case['ops']) >= 3 and (merged or nested):
        ctx.hit('nested', *(['deep merge'] if merged else []))


def has_private(model):
    return any(k.startswith('_') or (isinstance(v, dict) and has_private(v)) for k, v in model.items())


# ---- do_recursive ---------------------------------------------------------------------------------

num_leaf = st.one_of(st.integers(-50, 50), st.floats(-1e3, 1e3))
num_tree = st.recursive(num_leaf, lambda ch: st.lists(st.tuples(key, ch), max_size=4).map(lambda kv: {'T': [list(p) for p in kv]}), max_leaves=10)
num_sub = st.lists(st.tuples(key, num_tree), max_size=5).map(lambda kv: {'T': [list(p) for p in kv]})


def check_map(case, ctx):
    tree = model_value(case['tree'])
    real = real_value(case['tree'])

    def walk(m, f):
        return {k: walk(v, f) if isinstance(v, dict) else f(v) for k, v in m.items()}
    got = real.do_recursive(lambda x: 2 * x + 1)
    compare(got, walk(tree, lambda x: 2 * x + 1))
    compare(real, tree)
    # against a second tree with the same layout: leaves are combined pairwise, absent ones carried over
    drop = set(case['drop'])
    count = [0]

    def second(m):
        out = {}
        for k, v in m.items():
            count[0] += 1
            if count[0] in drop:
                continue
            out[k] = second(v) if isinstance(v, dict) else v * 3 - 1
        return out
    other_m = second(tree)

    def build(m):
        d = Data()
        for k, v in m.items():
            d[k] = build(v) if isinstance(v, dict) else v
        return d

    def combine(a, b):
        return {k: (v if k not in b else combine(v, b[k]) if isinstance(v, dict) else v - b[k]) for k, v in a.items()}
    got = real.do_recursive(lambda x, y: x - y, build(other_m))
    compare(got, combine(tree, other_m))
    got = real.do_recursive(lambda x, y: x + y, 10)
    compare(got, walk(tree, lambda x: x + 10))
    if any(isinstance(v, dict) and v for v in tree.values()):
        ctx.hit('nested', *(['keys missing in the other tree'] if drop else []))


# ---- class defaults ---------------------------------------------------------------------------------

def check_defaults(case, ctx):
    """Defaults of every class in the chain are applied, base class first, fresh for every instance."""
    chain = []
    want = {}
    base = Data
    for i, fields in enumerate(case['levels']):
        def make(fields):
            def __defaults__(self):
                for k, v in fields:
                    self[k] = real_value(v)
            return __defaults__
        base = type('Level%d' % i, (base,), {'__defaults__': make(fields)} if fields is not None else {})
        for k, v in (fields or []):
            want[k] = model_value(v)
        chain.append(base)
    one = base()
    compare(one, want)
    # change everything in the first instance; a second one must still be fresh

    def smash(d):
        for k in list(d.keys()):
            v = d[k]
            if isinstance(v, Data):
                smash(v)
                v['extra'] = 1
            elif isinstance(v, np.ndarray):
                v[...] = 99.
            elif isinstance(v, list):
                v.append('x')
    smash(one)
    compare(base(), want)
    # constructor arguments overlay the defaults
    arg = {k: model_value(v) for k, v in case['args'] if not k.startswith('_')}
    got = base({k: real_value(v) for k, v in case['args']})
    merged = copy.deepcopy(want)
    m_update(merged, arg)
    compare(got, merged)
    if len(chain) > 1:
        ctx.hit('levels=%d' % len(chain))


# ---- every Data class the package defines -----------------------------------------------------------

def _classes():
    out = {}
    import importlib
    import pkgutil
    seen = set()

    def walk(cls):
        for c in cls.__subclasses__():
            if c not in seen:
                seen.add(c)
                if c.__module__.startswith('SUAVE.'):
                    out[c.__module__ + '.' + c.__qualname__] = c
                walk(c)
    walk(Data)
    walk(DataOrdered)
    return out


_CL = None


def classes():
    global _CL
    if _CL is None:
        _CL = {}
        for name, c in sorted(_classes().items()):
            try:
                c()
            except Exception:
                continue
            _CL[name] = c
    return _CL


def check_fresh(case, ctx):
    cl = classes()
    names = sorted(cl)
    name = names[case['pick'] % len(names)]
    c = cl[name]

    def nodes(obj, path=(), seen=None, depth=0):
        seen = set() if seen is None else seen
        if depth > 6 or id(obj) in seen:
            return
        if isinstance(obj, (Data, DataOrdered)):
            seen.add(id(obj))
            yield path, obj
            for k in list(obj.keys()):
                for x in nodes(obj[k], path + (k,), seen, depth + 1):
                    yield x
        elif isinstance(obj, (np.ndarray, list)):
            yield path, obj
    a = c()
    b = c()
    na = list(nodes(a))
    nb = dict((p, o) for p, o in nodes(b))
    ids = {}
    for p, o in na:
        ids[id(o)] = p
    require([p for p, _ in na] == list(nb), '%s: two fresh instances have different contents', name)
    for p, o in nb.items():
        if isinstance(o, np.ndarray) and not o.flags.writeable:
            continue
        require(id(o) not in ids, '%s: two fresh instances share the %s at %s', name, type(o).__name__, '.'.join(p))
    if len(na) > 1:
        ctx.hit(name.split('.')[1])


def no_dup(levels):
    return levels


SUBS = [
    Sub('ops', record(start=subtree, ops=st.lists(op, min_size=2, max_size=12)), check_ops, quick=1600,
        rule='at least three operations of which one addressed a nested branch or merged two branches'),
    Sub('ops_ordered', record(start=subtree, ops=st.lists(op, min_size=2, max_size=12)),
        lambda case, ctx: check_ops(strip_private(case), ctx, True), quick=1200,
        rule='as for ops, on the ordered container class'),
    Sub('map', record(tree=num_sub, drop=st.lists(st.integers(1, 6), max_size=2)), check_map, quick=1200, rule='the mapped tree has a nested branch'),
    Sub('defaults', record(levels=st.lists(st.one_of(st.none(), st.lists(st.tuples(key, trees()).map(list), max_size=4)), min_size=1, max_size=4),
                           args=st.lists(st.tuples(key, trees()).map(list), max_size=3)), check_defaults, quick=800,
        rule='the class chain has two or more levels'),
    Sub('fresh', record(pick=st.integers(0, 2000)), check_fresh, quick=600, thorough=3000, rule='the class has mutable content'),
]


def strip_private(case):
    def s(v):
        if isinstance(v, dict) and 'T' in v:
            return {'T': [[k, s(x)] for k, x in v['T'] if not k.startswith('_')]}
        return v
    ops = []
    for o in case['ops']:
        o = dict(o)
        if 'value' in o:
            o['value'] = s(o['value'])
        if o.get('key', '').startswith('_'):
            continue
        ops.append(o)
    return {'start': s(case['start']), 'ops': ops}


PROPERTY = Property(
    'C01', SUBS,
    rule='Random operation sequences (set, delete, update, append, append-or-update, deep set/get, copy, pickle, print) on randomly built trees, '
         'compared after every step with nested plain dicts; random class chains for defaults; every Data class of the package for freshness. '
         'Non-trivial as stated per sub-check; cases are counted distinct by their canonical JSON.',
    assumptions=['keys are identifiers that do not collide with dict method names'])
