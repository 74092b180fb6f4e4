"""C02: adding components to a vehicle or a container never loses one.

Oracle: a plain list of (component, payload marker) kept next to the container."""
import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, DataOrdered, Container, ContainerOrdered
from SUAVE.Components import Physical_Component, Component
from lib.prop import Property, Sub, require, fail
from lib.strat import record

TAGS = ['wing', 'Wing', 'main wing', 'Main_Wing', 'wing2', 'wing3', 'a', 'b', 'A', 'aa', 'a2', 'a-b', 'a b', 'tail.', 'x1', 'WING', 'fuselage', '1', 'é']
tag = st.one_of(st.sampled_from(TAGS), st.sampled_from(TAGS[:6]), st.text('aAbB1 -_', min_size=1, max_size=4))


def kinds():
    C = SUAVE.Components
    return {
        'container': (Container, Component, True),
        'physical': (Physical_Component.Container, Physical_Component, True),
        'wings': (C.Wings.Wing.Container, C.Wings.Wing, True),
        'fuselages': (C.Fuselages.Fuselage.Container, C.Fuselages.Fuselage, True),
        'systems': (C.Systems.System.Container, C.Systems.System, True),
        'networks': (C.Energy.Networks.Network.Container, C.Energy.Networks.Network, True),
        'nacelles': (C.Nacelles.Nacelle.Container, C.Nacelles.Nacelle, True),
        'gear': (C.Landing_Gear.Landing_Gear.Container, C.Landing_Gear.Landing_Gear, True),
        'payload': (C.Payloads.Payload.Container, C.Payloads.Payload, True),
        'ordered': (ContainerOrdered, Component, False),
        'wing segments': (lambda: C.Wings.Main_Wing().Segments, C.Wings.Segment, False),
        'segments': (lambda: C.Wings.Wing().Segments, C.Wings.Segment, False),
        'fuselage segments': (lambda: C.Fuselages.Fuselage().Segments, C.Lofted_Body_Segment.Segment, False),
        'nacelle segments': (lambda: C.Nacelles.Nacelle().Segments, C.Lofted_Body_Segment.Segment, False),
        'control surfaces': (lambda: C.Wings.Main_Wing().control_surfaces, C.Wings.Control_Surfaces.Flap, True),
    }


KIND = sorted(kinds())
op = st.one_of(record(op=st.just('append'), tag=tag), record(op=st.just('append'), tag=tag), record(op=st.just('append'), tag=tag),
               record(op=st.just('extend'), tags=st.lists(tag, max_size=4), tuple=st.booleans()),
               record(op=st.just('remove'), pick=st.integers(0, 9)))


def verify(cont, model, what):
    vals = list(cont.values())
    require([id(v) for v in vals] == [id(c) for c, _ in model], '%s: holds %r, appended %r', what,
            [v.tag for v in vals], [(c.tag, m) for c, m in model])
    require([id(v) for v in cont] == [id(v) for v in vals], '%s: iteration differs from values()', what)
    keys = list(cont.keys())
    require(len(set(keys)) == len(keys) == len(cont), '%s: keys %r', what, keys)
    for k, (c, m) in zip(keys, model):
        require(cont[k] is c, '%s: key %r leads to another component', what, k)
        require(c.marker == m, '%s: component %r was altered', what, k)


def check_container(case, ctx):
    make, comp, renames = kinds()[case['kind']]
    cont = make()
    model = []
    n = 0
    clash = 0
    for o in case['ops']:
        if o['op'] == 'remove':
            if not model:
                continue
            i = o['pick'] % len(model)
            k = list(cont.keys())[i]
            if hasattr(cont, k):
                delattr(cont, k)
            model.pop(i)
            verify(cont, model, case['kind'])
            continue
        tags = [o['tag']] if o['op'] == 'append' else o['tags']
        batch = []
        for t in tags:
            c = comp()
            c.tag = t
            n += 1
            c.marker = n
            batch.append((c, n))
        if o['op'] == 'extend' and renames:
            cont.extend(tuple(c for c, _ in batch) if o['tuple'] else [c for c, _ in batch])
            model.extend(batch)
        else:
            for c, m in batch:
                before = list(cont.keys())
                try:
                    cont.append(c)
                except KeyError:
                    require(not renames, '%s: append of tag %r next to %r was refused', case['kind'], c.tag, before)
                    ctx.label('refused')
                    c.marker = m
                else:
                    model.append((c, m))
        clash += len({t.lower() for t in tags}) < len(tags)
        verify(cont, model, case['kind'])
    tags = [o['tag'].lower() for o in case['ops'] if o['op'] == 'append']
    ctx.label(case['kind'])
    if len(set(tags)) < len(tags):
        ctx.hit('same tag twice')


TYPES = ['wing', 'main_wing', 'htail', 'vtail', 'fuselage', 'system', 'network', 'turbofan', 'nacelle', 'gear', 'main_gear', 'nose_gear']


def build(t):
    C = SUAVE.Components
    return {'wing': C.Wings.Wing, 'main_wing': C.Wings.Main_Wing, 'htail': C.Wings.Horizontal_Tail, 'vtail': C.Wings.Vertical_Tail,
            'fuselage': C.Fuselages.Fuselage, 'system': C.Systems.System, 'network': C.Energy.Networks.Network,
            'turbofan': C.Energy.Networks.Turbofan, 'nacelle': C.Nacelles.Nacelle, 'gear': C.Landing_Gear.Landing_Gear,
            'main_gear': C.Landing_Gear.Main_Landing_Gear, 'nose_gear': C.Landing_Gear.Nose_Landing_Gear}[t]()


HOME = {'wing': 'wings', 'main_wing': 'wings', 'htail': 'wings', 'vtail': 'wings', 'fuselage': 'fuselages', 'system': 'systems',
        'network': 'networks', 'turbofan': 'networks', 'nacelle': 'nacelles', 'gear': 'landing_gear', 'main_gear': 'landing_gear', 'nose_gear': 'landing_gear'}


def check_vehicle(case, ctx):
    v = SUAVE.Vehicle()
    homes = {h: [] for h in HOME.values()}
    for i, (t, tg) in enumerate(case['parts']):
        c = build(t)
        if tg is not None:
            c.tag = tg
        c.marker = i
        v.append_component(c)
        homes[HOME[t]].append((c, i))
        for h, model in homes.items():
            verify(v[h], model, 'vehicle.' + h)
    seen = [(HOME[t], (tg or build(t).tag).lower()) for t, tg in case['parts']]
    if len(set(seen)) < len(seen):
        ctx.hit('same tag twice')
    ctx.label('parts=%d' % len(case['parts']))


def check_wing_parts(case, ctx):
    w = SUAVE.Components.Wings.Main_Wing()
    cs, tanks, segs = [], [], []
    C = SUAVE.Components
    for i, (t, tg) in enumerate(case['parts']):
        c = {'flap': C.Wings.Control_Surfaces.Flap, 'aileron': C.Wings.Control_Surfaces.Aileron, 'slat': C.Wings.Control_Surfaces.Slat,
             'tank': C.Energy.Storages.Fuel_Tanks.Fuel_Tank, 'segment': C.Wings.Segment}[t]()
        c.marker = i
        if t == 'segment':
            c.tag = tg.lower().replace(' ', '_')
            try:
                w.append_segment(c)
            except KeyError:
                continue
            segs.append((c, i))
        elif t == 'tank':
            c.tag = tg
            w.append_fuel_tank(c)
            tanks.append((c, i))
        else:
            c.tag = tg
            w.append_control_surface(c)
            cs.append((c, i))
        verify(w.control_surfaces, cs, 'control surfaces')
        verify(w.Fuel_Tanks, tanks, 'fuel tanks')
        verify(w.Segments, segs, 'segments')
    if len(case['parts']) > 3:
        ctx.hit('parts=%d' % len(case['parts']))


def check_merge(case, ctx):
    """extend with a dictionary merges: present entries are kept and overlaid, new ones are added."""
    a = Container()
    want = {}
    for i, t in enumerate(case['a']):
        c = Component()
        c.tag = t
        c.marker = i
        a.append(c)
    for k, v in a.items():
        want[k] = (v, v.marker, None)
    b = Data()
    for i, k in enumerate(case['b']):
        d = Data()
        d.other = i
        b[k] = d
    a.extend(b)
    for k in case['b']:
        if k in want:
            want[k] = (want[k][0], want[k][1], b[k].other)
        else:
            want[k] = (None, None, b[k].other)
    require(list(a.keys()) == list(want), 'keys after merge %r, expected %r', list(a.keys()), list(want))
    for k, (obj, marker, other) in want.items():
        if obj is not None:
            require(a[k] is obj and a[k].marker == marker, 'entry %r replaced by merge', k)
        if other is not None:
            require(a[k].other == other, 'entry %r did not receive the merged value', k)
    if set(case['b']) & set(a.keys()):
        ctx.hit('overlap')


SUBS = [
    Sub('container', record(kind=st.sampled_from(KIND), ops=st.lists(op, min_size=2, max_size=12)), check_container, quick=2000, rule='two appended components share a tag up to case'),
    Sub('vehicle', record(parts=st.lists(st.tuples(st.sampled_from(TYPES), st.one_of(st.none(), tag)).map(list), min_size=2, max_size=9)), check_vehicle, quick=700,
        rule='two components of one family share a tag up to case'),
    Sub('wing_parts', record(parts=st.lists(st.tuples(st.sampled_from(['flap', 'aileron', 'slat', 'tank', 'segment']), tag).map(list), min_size=2, max_size=9)),
        check_wing_parts, quick=700, rule='more than three parts'),
    Sub('merge', record(a=st.lists(tag, max_size=5), b=st.lists(st.sampled_from(['wing', 'a', 'b', 'aa', 'a_b', 'wing2', 'zz']), max_size=5)), check_merge, quick=600,
        rule='the merged dictionary has a key the container already holds'),
]

PROPERTY = Property('C02', SUBS, rule='Random histories of append / extend / remove with clashing, mixed-case and punctuated tags on every kind of component container, and '
                    'random vehicles; compared after every step with the plain list of what was added. Non-trivial as stated per sub-check.',
                    assumptions=['ordered containers (wing and fuselage segments) may refuse a clashing tag with KeyError; component containers may not'])
