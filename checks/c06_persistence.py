"""C06: what is saved is what is read back (JSON archive, XML), and exports keep the tree (FreeMind, D3).

Oracle: the round trip, compared with the generated plain data, plus an independent parse of the files."""
import json
import os
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

import SUAVE
from SUAVE.Core import Data, DataOrdered
from SUAVE.Input_Output.SUAVE.archive import archive
from SUAVE.Input_Output.SUAVE.load import load
from SUAVE.Input_Output.XML.Data import Data as XData
from SUAVE.Input_Output.XML.load import load as xml_load
from SUAVE.Input_Output.XML.save import save as xml_save
from SUAVE.Input_Output.FreeMind.save import save as fm_save
from SUAVE.Input_Output.D3JS.save_tree import save_tree as d3_save
from lib.prop import Property, Sub, require, fail
from lib.strat import record

KEYS = ['a', 'b', 'mass', 'wing_1', 'Upper', 'x', 'y', 'list', 'tag2', 'é']
num = st.one_of(st.integers(-10**6, 10**6), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([1e-300, 1e300, 0.1, -0.0, float('inf')]))
fnum = st.one_of(st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.1, 1 / 3., float('nan'), float('inf'), -0.0]))
text = st.text(st.sampled_from('ab Z"\\\n\t{}[]:,é/0'), max_size=8)
NPS = ['float64', 'float32', 'int64', 'int32', 'bool_']
leaf = st.one_of(
    num.map(lambda v: {'n': v}), text.map(lambda v: {'s': v}), st.booleans().map(lambda v: {'b': v}), st.just({'none': 1}), st.just({'func': 1}),
    st.tuples(st.sampled_from(NPS), st.integers(-100, 100)).map(lambda t: {'np': list(t)}),
    st.lists(fnum, min_size=1, max_size=4).map(lambda v: {'arr': v}),
    st.integers(1, 3).flatmap(lambda m: st.lists(st.lists(fnum, min_size=m, max_size=m), min_size=1, max_size=3)).map(lambda v: {'arr': v}),
    st.integers(1, 2).flatmap(lambda m: st.lists(st.lists(st.lists(st.integers(-5, 5), min_size=m, max_size=m), min_size=2, max_size=2), min_size=1, max_size=2)).map(lambda v: {'iarr': v}),
    st.lists(st.integers(-5, 5), max_size=4).map(lambda v: {'list': v}), st.lists(fnum, min_size=1, max_size=3).map(lambda v: {'tuple': v}),
    st.lists(fnum, min_size=1, max_size=3).map(lambda v: {'nplist': v}))


def tree(depth=0):
    node = leaf if depth >= 3 else st.one_of(leaf, leaf, st.deferred(lambda: tree(depth + 1)))
    return st.lists(st.tuples(st.sampled_from(KEYS), node).map(list), max_size=5, unique_by=lambda kv: kv[0]).map(lambda kv: {'T': kv})


def build(v, ordered):
    if 'T' in v:
        d = DataOrdered() if ordered else Data()
        for i, (k, x) in enumerate(v['T']):
            d[k] = build(x, (i % 2) == 1)
        return d
    if 'np' in v:
        return getattr(np, v['np'][0])(v['np'][1])
    if 'arr' in v:
        return np.array(v['arr'], dtype=float)
    if 'iarr' in v:
        return np.array(v['iarr'])
    if 'none' in v:
        return None
    if 'func' in v:
        return lambda x: x
    if 'tuple' in v:
        return tuple(v['tuple'])
    if 'nplist' in v:
        return [np.float64(x) for x in v['nplist']]
    return list(v.values())[0]


def expect(got, v, path):
    if 'T' in v:
        require(isinstance(got, (Data, DataOrdered)), '%s: branch read back as %r', path, type(got))
        require(list(got.keys()) == [k for k, _ in v['T']], '%s: keys %r, saved %r', path, list(got.keys()), [k for k, _ in v['T']])
        for k, x in v['T']:
            expect(got[k], x, path + '.' + k)
        return
    if 'none' in v or 'func' in v:
        require(got is None, '%s: %r, expected None', path, got)
    elif 'np' in v:
        want = getattr(np, v['np'][0])(v['np'][1]).item()
        require(type(got) == type(want) and got == want, '%s: numpy scalar %r read back as %r', path, want, got)
    elif 'n' in v:
        require(type(got) == type(v['n']) and got == v['n'], '%s: number %r read back as %r', path, v['n'], got)
    elif 's' in v:
        require(got == v['s'], '%s: text %r read back as %r', path, v['s'], got)
    elif 'b' in v:
        require(got is v['b'], '%s: %r read back as %r', path, v['b'], got)
    else:
        kind, val = list(v.items())[0]
        want = np.array(val, dtype=(float if kind in ('arr', 'tuple', 'nplist') else None))
        require(isinstance(got, np.ndarray), '%s: %s read back as %r', path, kind, got)
        require(got.shape == want.shape, '%s: shape %r, saved %r', path, got.shape, want.shape)
        require(np.array_equal(np.asarray(got, dtype=float), np.asarray(want, dtype=float), equal_nan=True), '%s: array %r, saved %r', path, got, want)


def check_json(case, ctx):
    d = build(case['tree'], False)
    before = str_tree(d)
    archive(d, 'file.res')
    require(str_tree(d) == before, 'archiving changed the data')
    got = load('file.res')
    expect(got, case['tree'], 'root')
    # what was read can be archived and read again, and says the same
    archive(got, 'file2.res')
    again = load('file2.res')
    require(str_tree(again) == str_tree(got), 'second round trip differs')
    with open('file.res') as f:
        json.loads(f.read())
    # archiving over a longer file leaves nothing behind
    small = Data()
    small.only = 1
    archive(small, 'file.res')
    require(list(load('file.res').keys()) == ['only'], 'overwriting an archive left old content')
    n = [x for x in flat(case['tree'])]
    if any('T' in x for _, x in case['tree']['T']) and len(n) >= 3:
        ctx.hit('nested', *sorted({list(x)[0] for x in n}))


def str_tree(d):
    if isinstance(d, (Data, DataOrdered)):
        return [(k, str_tree(d[k])) for k in d.keys()]
    if isinstance(d, np.ndarray):
        return ('array', repr(d.tolist()))
    if isinstance(d, (list, tuple)):
        return [str_tree(x) for x in d]
    if callable(d):
        return 'func'
    return repr(d)


def flat(v):
    for k, x in v['T']:
        if 'T' in x:
            for y in flat(x):
                yield y
        else:
            yield x


# ---- XML -------------------------------------------------------------------------------------------
XCH = 'ab<>&"\'é; =/1.\u2126'
tagname = st.sampled_from(['map', 'node', 'Wing', 'x-1', 'a.b', '_t', 'été'])
attrs = st.dictionaries(st.sampled_from(['id', 'TEXT', 'version', 'a-b']), st.text(st.sampled_from(XCH), max_size=6), max_size=3)
content = st.text(st.sampled_from(XCH + '\n'), max_size=8)


def xml_tree(depth=0):
    kids = st.just([]) if depth >= 3 else st.lists(st.deferred(lambda: xml_tree(depth + 1)), max_size=3)
    return record(tag=tagname, attrs=attrs, content=content, kids=kids)


def xbuild(t):
    d = XData()
    d.tag = t['tag']
    for k, v in t['attrs'].items():
        d.attributes[k] = v
    d.content = t['content']
    for k in t['kids']:
        d.elements.append(xbuild(k))
    return d


def xcompare(got, t, path):
    require(got.tag == t['tag'], '%s: tag %r, saved %r', path, got.tag, t['tag'])
    require(dict(got.attributes.items()) == t['attrs'], '%s: attributes %r, saved %r', path, dict(got.attributes.items()), t['attrs'])
    require(got.content == t['content'].strip(), '%s: content %r, saved %r', path, got.content, t['content'])
    require(len(got.elements) == len(t['kids']), '%s: %d children, saved %d', path, len(got.elements), len(t['kids']))
    for i, k in enumerate(t['kids']):
        xcompare(got.elements[i], k, path + '/%d' % i)


def check_xml(case, ctx):
    t = case['tree']
    d = xbuild(t)
    xml_save(d, 'f.xml')
    xcompare(d, dict(t, content=t['content']), 'saved object') if t['content'] == t['content'].strip() and clean(t) else None
    xcompare(xml_load('f.xml'), t, 'root')
    for tag in {k['tag'] for k in t['kids']}:
        require([e for e in d.get_elements(tag)] == [d.elements[i] for i, k in enumerate(t['kids']) if k['tag'] == tag], 'get_elements(%r)', tag)
    e = d.new_element('extra')
    require(d.elements[-1] is e and e.tag == 'extra' and len(d.elements) == len(t['kids']) + 1, 'new_element')
    if any(k['kids'] or k['content'].strip() for k in t['kids']):
        ctx.hit('nested')


def clean(t):
    return all(k['content'] == k['content'].strip() and clean(k) for k in t['kids'])


NKEY = ['alpha', 'beta', 'mass', 'wing_1', 'Case']
plain = st.one_of(st.integers(-9, 9), st.sampled_from(['text', 'a<b', 'x & y', 'two words']), st.floats(-10, 10))


def plain_tree(depth=0):
    node = plain if depth >= 2 else st.one_of(plain, plain, st.deferred(lambda: plain_tree(depth + 1)))
    return st.lists(st.tuples(st.sampled_from(NKEY), node).map(list), min_size=1, max_size=4, unique_by=lambda kv: kv[0]).map(lambda kv: {'T': kv})


def dbuild(v):
    if isinstance(v, dict):
        d = Data()
        for k, x in v['T']:
            d[k] = dbuild(x)
        return d
    return v


def check_from_data(case, ctx):
    """Any data tree can be written as XML, as a mind map and as a D3 tree, and the structure survives."""
    t = case['tree']
    d = dbuild(t)
    if case['tag']:
        d.tag = 'My Root'
    before = str_tree(d)
    kv = t['T'] + ([['tag', 'My Root']] if case['tag'] else [])

    xml_save(d, 'g.xml')
    got = xml_load('g.xml')
    require(got.tag == ('my_root' if case['tag'] else 'node'), 'root tag %r', got.tag)

    def cmp_xml(node, kv, path):
        require([e.tag for e in node.elements] == [k for k, _ in kv], '%s: elements %r for keys %r', path, [e.tag for e in node.elements], [k for k, _ in kv])
        for e, (k, v) in zip(node.elements, kv):
            if isinstance(v, dict):
                cmp_xml(e, v['T'], path + '.' + k)
            else:
                require(e.content == str(v), '%s.%s: content %r for %r', path, k, e.content, v)
    cmp_xml(got, kv, 'xml')

    fm_save(d, 'm.mm')
    root = ET.parse('m.mm').getroot()
    require(root.tag == 'map', 'mind map root %r', root.tag)

    def cmp_fm(node, kv, path):
        kids = [c for c in node if c.tag == 'node']
        require([c.get('TEXT') for c in kids] == [k for k, _ in kv], '%s: nodes %r for keys %r', path, [c.get('TEXT') for c in kids], [k for k, _ in kv])
        for c, (k, v) in zip(kids, kv):
            if isinstance(v, dict):
                cmp_fm(c, v['T'], path + '.' + k)
            else:
                require([g.get('TEXT') for g in c] == [str(v)], '%s.%s: %r for %r', path, k, [g.get('TEXT') for g in c], v)
    if case['tag']:
        require([c.get('TEXT') for c in root] == ['My Root'], 'mind map root node')
        cmp_fm(root[0], kv, 'mind map')
    else:
        cmp_fm(root, kv, 'mind map')

    d3_save(d, 'd.json', None if case['tag'] else 'named')
    with open('d.json') as f:
        j = json.load(f)
    require(j['name'] == ('My Root' if case['tag'] else 'named'), 'tree name %r', j['name'])

    def cmp_d3(node, kv, path):
        kids = node['children']
        require([c['name'] for c in kids] == [k for k, _ in kv], '%s: children %r for keys %r', path, [c['name'] for c in kids], [k for k, _ in kv])
        for c, (k, v) in zip(kids, kv):
            if isinstance(v, dict):
                cmp_d3(c, v['T'], path + '.' + k)
            else:
                require([g['name'] for g in c['children']] == [str(v)], '%s.%s: %r for %r', path, k, c, v)
    cmp_d3(j, kv, 'd3')
    require(str_tree(d) == before, 'exporting changed the data')
    if any(isinstance(v, dict) for _, v in t['T']):
        ctx.hit('nested')


def check_tree_element(case, ctx):
    from SUAVE.Input_Output.D3JS.Tree_Element import Tree_Element
    root = Tree_Element('root')
    want = {'name': 'root'}
    nodes = [(root, want)]
    for at, name in case['adds']:
        r, w = nodes[at % len(nodes)]
        e = Tree_Element(name)
        r.append(e)
        we = {'name': name}
        w.setdefault('children', []).append(we)
        nodes.append((e, we))
    d3_save(root, 't.json')
    with open('t.json') as f:
        require(json.load(f) == want, 'saved tree differs from what was appended')
    if len(case['adds']) > 2:
        ctx.hit('adds=%d' % len(case['adds']))


SUBS = [
    Sub('json', record(tree=tree()), check_json, quick=1600, rule='nested tree with three or more leaves'),
    Sub('xml', record(tree=xml_tree()), check_xml, quick=900, rule='a child has content or children'),
    Sub('export', record(tree=plain_tree(), tag=st.booleans()), check_from_data, quick=600, rule='the tree is nested'),
    Sub('tree_element', record(adds=st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['a', 'b', 'c'])).map(list), min_size=1, max_size=6)), check_tree_element, quick=200, rule='three or more additions'),
]
PROPERTY = Property('C06', SUBS, rule='Random data trees, XML documents and incremental trees, saved, read back and compared with the generated data; exports are parsed independently. Non-trivial as stated per sub-check.',
                    assumptions=['lists and tuples are read back as arrays (documented), functions as None', 'XML text is compared up to surrounding white space, which the reader strips by design', 'arrays have at least one element'])
