"""C14: property collections select, combine and describe exactly their members.

(select) a collection whose members differ in every attribute: every criterion, and every pair of criteria, with every value
(and the special values), by every selection function, against a table;  (stacks) every set of realizations, time indices and
facets, in every order of adding, combined into one array;  (history) every sequence of additions, removals, inheritances and
enquiries: the collection always describes the members it then has;  (sets) property sets of every subset;  (similar)
families of properties over time, realizations and facets."""

import itertools
import warnings

import numpy as np

from mc import rq, zoo
from mc.core import about, expect
from mc.rq import same

ID = 'C14'
TITLE = 'property collections select, combine and describe exactly their members'
BOUNDS = {
    'quick': '46 properties on 3 representations; every pair of criteria over 20 criteria with every value, present and absent, and the special values; '
             'stacks over every non-empty subset of 4 realizations / times / facets in every order, 6 flavours of array, filled or not, 32 or 64 bit; all '
             'histories of 5 of 10 operations; sets of all subsets of 5 properties',
    'thorough': 'every triple of criteria; all histories of 6 operations'
}

BASE = dict(title = 'P', kind = 'thickness', uom = 'm', facet = None, realization = None, time = None, series = 0, extra = {},
            flavour = 'float', ie = 'cells', count = 1, where = 'A', const = None)
VARIANTS = [
    {}, dict(title = 'PX'), dict(title = 'XP'), dict(title = 'XPX'), dict(title = 'p'), dict(kind = 'depth'), dict(kind = 'my kind'),
    dict(uom = 'ft'), dict(uom = 'furlongs'), dict(facet = ('direction', 'I')), dict(facet = ('direction', 'K')), dict(facet = ('what', 'oil')),
    dict(realization = 0), dict(realization = 1), dict(realization = 12), dict(time = 0), dict(time = 1), dict(time = 2), dict(time = 0, series = 1),
    dict(extra = {'a': 'b'}), dict(extra = {'a': 'b', 'c': 'd'}), dict(extra = {'c': 'b'}), dict(ie = 'columns'), dict(ie = 'layers'), dict(count = 2),
    dict(flavour = 'int', kind = 'region initialization'), dict(flavour = 'cat', kind = 'facies'), dict(flavour = 'cat2', kind = 'facies'),
    dict(flavour = 'points', kind = 'length'),
    dict(const = 0.0), dict(const = 1.0), dict(const = 0, flavour = 'int', kind = 'region initialization'),
    dict(const = 1, flavour = 'int', kind = 'region initialization'),
    dict(where = 'B'), dict(where = 'S', ie = 'nodes'), dict(where = 'B', title = 'PX', realization = 0),
    dict(realization = 0, time = 0), dict(realization = 1, time = 0), dict(realization = 0, time = 1), dict(realization = 1, time = 1),
    dict(facet = ('direction', 'I'), realization = 0), dict(facet = ('direction', 'I'), realization = 1),
    dict(kind = 'permeability rock', uom = 'mD'), dict(kind = 'rock permeability', uom = 'mD', facet = ('direction', 'K')),
    dict(flavour = 'int', kind = 'region initialization', realization = 0), dict(flavour = 'points', kind = 'length', realization = 0),
]
SHAPES = {('A', 'cells'): (2, 3, 2), ('A', 'columns'): (3, 2), ('A', 'layers'): (2,), ('B', 'cells'): (2, 2, 2), ('S', 'nodes'): (4,)}


def warm(tier):
    from mc.props import c13
    c13.warm(tier)


def build(path):
    import resqpy.property as rqp
    import resqpy.time_series as rts
    m = rq.new_model(path, h5 = True)
    z = zoo.build(m, ['grid', 'surface'])
    z['A'], z['B'], z['S'] = z['regular_grid'], z['split_grid'], z['surface']
    z['series'] = []
    for n in range(2):
        t = rts.TimeSeries(m, first_timestamp = f'200{n}-01-01T00:00:00Z', yearly = 3, title = f'ts{n}')
        t.create_xml()
        z['series'].append(t.uuid)
    for n, name in enumerate(('cat', 'cat2')):
        lut = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale' * (n + 1), 2: 'coal'}, title = name)
        lut.create_xml()
        z[name] = lut.uuid
    pk = rqp.PropertyKind(m, title = 'my kind', parent_property_kind = 'continuous', example_uom = 'm')
    pk.create_xml()
    z['kind'] = pk.uuid
    return m, z


def add(m, z, v, n = 0, pc = None):
    """Adds the property described by v to the model; returns its uuid."""
    import resqpy.property as rqp
    d = dict(BASE, **v)
    shape = SHAPES[d['where'], d['ie']] + ((d['count'],) if d['count'] > 1 else ())
    discrete = d['flavour'] in ('int', 'cat', 'cat2', 'bool')
    a = values(d['flavour'], shape, n)
    kw = dict(discrete = discrete, uom = d['uom'] if not discrete and d['flavour'] != 'points' else None, property_kind = d['kind'],
              realization = d['realization'], indexable_element = d['ie'], count = d['count'], points = d['flavour'] == 'points',
              const_value = d['const'], extra_metadata = d['extra'])
    if d['facet']:
        kw['facet_type'], kw['facet'] = d['facet']
    if d['time'] is not None:
        kw.update(time_series_uuid = z['series'][d['series']], time_index = d['time'])
    if d['flavour'].startswith('cat'):
        kw['string_lookup_uuid'] = z[d['flavour']]
    return rqp.Property.from_array(m, None if d['const'] is not None else a, 'src', d['title'], z[d['where']], **kw).uuid


def values(flavour, shape, n = 0):
    if flavour == 'points':
        return np.arange(np.prod(shape) * 3, dtype = float).reshape(tuple(shape) + (3,)) + 100.0 * n
    a = np.arange(np.prod(shape)).reshape(shape)
    if flavour == 'float':
        return a * 1.5 - 3.0 + 100.0 * n
    if flavour == 'bool':
        return (a + n) % 2 == 0
    if flavour.startswith('cat'):
        return (a + n) % 3
    return a - 2 + 100 * n


# ---- selection ----------------------------------------------------------------------------------------------------
ABSENT = object()
SPECIAL = ('*', 'none')


def attribute(d, name, z):
    """The attribute of member d that criterion name compares."""
    discrete = d['flavour'] in ('int', 'cat', 'cat2')
    if name == 'realization':
        return d['realization']
    if name == 'support_uuid':
        return str(z[d['where']])
    if name == 'continuous':
        return not discrete
    if name == 'points':
        return d['flavour'] == 'points'
    if name == 'categorical':
        return d['flavour'].startswith('cat')
    if name == 'count':
        return d['count']
    if name == 'indexable':
        return d['ie']
    if name == 'property_kind':
        return 'rock permeability' if d['kind'] == 'permeability rock' else d['kind']
    if name == 'facet_type':
        return d['facet'] and d['facet'][0]
    if name == 'facet':
        return d['facet'] and d['facet'][1]
    if name == 'time_series_uuid':
        return None if d['time'] is None else str(z['series'][d['series']])
    if name == 'time_index':
        return d['time']
    if name == 'uom':
        return None if discrete or d['flavour'] == 'points' else d['uom']
    if name == 'string_lookup_uuid':
        return str(z[d['flavour']]) if d['flavour'].startswith('cat') else None
    if name == 'const_value':
        return d['const']
    if name == 'citation_title':
        return d['title']
    if name == 'extra':
        return d['extra']
    raise KeyError(name)


def match_title(t, pattern, mode):
    return {
        None: t == pattern,
        'is': t == pattern,
        'starts': t.startswith(pattern),
        'ends': t.endswith(pattern),
        'contains': pattern in t,
        'is not': t != pattern,
        'does not start': not t.startswith(pattern),
        'does not end': not t.endswith(pattern),
        'does not contain': pattern not in t
    }[mode]


def criteria(z):
    """List of (names of criteria, values) alternatives: dict of arguments."""
    out = []
    sp = [dict(realization = v) for v in (0, 1, 12, 5) + SPECIAL]
    out += [('realization', sp)]
    out += [('support_uuid', [dict(support_uuid = z[k]) for k in 'ABS'])]
    for b in ('continuous', 'points', 'categorical'):
        out.append((b, [{b: True}, {b: False}]))
    out.append(('count', [dict(count = v) for v in (1, 2, 3)]))
    out.append(('indexable', [dict(indexable = v) for v in ('cells', 'columns', 'layers', 'nodes', 'edges')]))
    out.append(('property_kind', [dict(property_kind = v) for v in ('thickness', 'depth', 'my kind', 'facies', 'length', 'rock permeability',
                                                                   'permeability rock', 'pressure')]))
    out.append(('facet_type', [dict(facet_type = v) for v in ('direction', 'what', 'netgross') + SPECIAL]))
    out.append(('facet', [dict(facet = v) for v in ('I', 'K', 'oil', 'gas') + SPECIAL]))
    out.append(('time_series_uuid', [dict(time_series_uuid = v) for v in tuple(z['series']) + SPECIAL]))
    out.append(('time_index', [dict(time_index = v) for v in (0, 1, 2, 7) + SPECIAL]))
    out.append(('uom', [dict(uom = v) for v in ('m', 'ft', 'furlongs', 'mD', 'cm') + SPECIAL]))
    out.append(('string_lookup_uuid', [dict(string_lookup_uuid = v) for v in (z['cat'], z['cat2']) + SPECIAL]))
    out.append(('const_value', [dict(const_value = v) for v in (0, 1, 0.0, 1.0, 3) + SPECIAL]))
    out.append(('citation_title', [dict(citation_title = 'P')] +
                [dict(citation_title = p, title_mode = mode) for p in ('P', 'X') for mode in ('is', 'starts', 'ends', 'contains', 'is not', 'does not start',
                                                                                             'does not end', 'does not contain')]))
    out.append(('related_uuid', [dict(related_uuid = u) for u in (z['A'], z['B'], z['series'][1], z['cat'], z['kind'], z['crs'])]))
    out.append(('title', [dict(title = 'P'), dict(title = 'X', title_mode = 'starts')]))
    out.append(('uuid', [dict(uuid = k) for k in (0, 12, 30, 35)]))
    out.append(('extra', [dict(extra = e) for e in ({}, {'a': 'b'}, {'a': 'b', 'c': 'd'}, {'c': 'b'}, {'a': 'x'}, {'z': 'b'})]))
    return out


def passes(d, u, crit, z):
    for name, v in crit.items():
        if name == 'title_mode':
            continue
        if name in ('citation_title', 'title'):
            if not match_title(d['title'], v, crit.get('title_mode')):
                return False
            continue
        if name == 'uuid':
            if str(u) != str(v):
                return False
            continue
        if name == 'related_uuid':
            rel = {z[d['where']]}
            if d['time'] is not None:
                rel.add(z['series'][d['series']])
            if d['flavour'].startswith('cat'):
                rel.add(z[d['flavour']])
            if d['kind'] == 'my kind':
                rel.add(z['kind'])
            if str(v) not in {str(x) for x in rel}:
                return False
            continue
        if name == 'extra':
            if any(d['extra'].get(k) != x for k, x in v.items()):
                return False
            continue
        a = attribute(d, name, z)
        if isinstance(v, str) and v == '*':
            if a is None:
                return False
        elif isinstance(v, str) and v == 'none':
            if a is not None:
                return False
        elif name.endswith('uuid'):
            if a is None or str(a) != str(v):
                return False
        elif name == 'property_kind':
            if {a, v} != {a} and {a, v} != {'rock permeability', 'permeability rock'}:
                return False
        elif name in ('const_value', 'realization', 'time_index'):
            if a is None or a != v:
                return False
        elif a != v:
            return False
    return True


def _select(ctx, n, share, of):
    ctx.run((n, share), _select_all, ctx, n, share, of)


def _select_all(ctx, n, share, of):
    import resqpy.property as rqp
    m, z = build(ctx.path('p.epc'))
    members = []
    for k, v in enumerate(VARIANTS):
        members.append((dict(BASE, **v), add(m, z, v, k)))
    m.store_epc()
    rq.close(m)
    m = rq.open_model(m.epc_file)
    whole = rqp.PropertyCollection()
    whole.model = m
    for _, u in members:
        whole.add_part_to_dict(m.part(uuid = u))
    for (d, u) in members:
        p = m.part(uuid = u)
        expect(str(whole.support_uuid_for_part(p)) == str(z[d['where']]), 'supporting representation of', d, 'is', whole.support_uuid_for_part(p))
    onA = [(d, u) for d, u in members if d['where'] == 'A']
    forA = rqp.GridPropertyCollection()
    forA.set_grid(m.grid(uuid = z['A'], find_properties = False))
    for _, u in onA:
        forA.add_part_to_dict(m.part(uuid = u))
    cr = criteria(z)
    todo = [c for k in range(n + 1) for c in itertools.combinations(cr, k)]
    for i, cs in enumerate(todo):
        if i % of != share:
            continue
        if sum(c[0] in ('citation_title', 'title') for c in cs) > 1:
            continue
        for vs in itertools.product(*[c[1] for c in cs]):
            crit = {}
            for v in vs:
                crit.update(v)
            if 'uuid' in crit:
                crit['uuid'] = members[crit['uuid']][1]
            with about(tuple(crit.items())):
                for coll, mem in ((whole, members), (forA, onA)):
                    check_select(m, coll, mem, crit, z, deep = len(cs) < 2)
            ctx.step()
    ctx.state((n, share))
    rq.close(m)


def check_select(m, coll, mem, crit, z, deep):
    import resqpy.property as rqp
    if coll.support_uuid is not None and 'support_uuid' in crit and str(coll.support_uuid) != str(crit['support_uuid']):
        return
    want = [m.part(uuid = u) for d, u in mem if passes(d, u, crit, z)]
    view = rqp.selective_version_of_collection(coll, **crit)
    expect(view.parts() == want, 'selected', [whatis(coll, p) for p in view.parts() if p not in want], 'not selected',
           [whatis(coll, p) for p in want if p not in view.parts()])
    expect(view.number_of_parts() == len(want) and [str(u) for u in view.uuids()] == [str(coll.uuid_for_part(p)) for p in want], 'uuids of the view')
    if 'extra' not in crit and 'uuid' not in crit:
        got = coll.selective_parts_list(**crit)
        expect(got == want, 'selective_parts_list', len(got), 'should be', len(want))
    if 'extra' not in crit:
        if len(want) > 1:
            e = rq.raises(coll.singleton, **crit)
            expect(isinstance(e, AssertionError), 'singleton of', len(want), 'does not raise an assertion error')
            expect(coll.singleton(multiple_handling = 'first', **crit) == want[0], 'first of several')
            expect(coll.singleton(multiple_handling = 'none', **crit) is None, 'none of several')
        else:
            got = coll.singleton(**crit)
            expect(got == (want[0] if want else None), 'singleton', got)
    if deep:
        other = rqp.PropertyCollection()
        c = dict(crit)
        if 'title' in c:
            c['citation_title'] = c.pop('title')
        if 'title_mode' in c:
            c['citation_title_match_mode'] = c.pop('title_mode')
        other.inherit_parts_selectively_from_other_collection(coll, **c)
        expect(other.parts() == want, 'inherited', len(other.parts()), 'should be', len(want))
        if want and len(want) == 1 and 'extra' not in crit and not coll.points_for_part(want[0]) and 'const_value' not in crit:
            sup = rqp.PropertyCollection()
            sup.set_support(support_uuid = coll.support_uuid_for_part(want[0]), model = m)
            sup.add_part_to_dict(want[0])
            got = sup.single_array_ref(**{k: v for k, v in crit.items() if k != 'support_uuid'})
            expect(same(got, sup.cached_part_array_ref(want[0])), 'single array')


def whatis(coll, p):
    return (coll.title_for_part(p), coll.property_kind_for_part(p), coll.uom_for_part(p), coll.facet_for_part(p), coll.realization_for_part(p),
            coll.time_index_for_part(p))


# ---- stacks -------------------------------------------------------------------------------------------------------
FLAVOURS = [('float', {}), ('int', dict(flavour = 'int', kind = 'region initialization')), ('columns', dict(ie = 'columns')),
            ('points', dict(flavour = 'points', kind = 'length')), ('const', dict(const = 2.5)), ('count', dict(count = 2)),
            ('cat', dict(flavour = 'cat', kind = 'facies')), ('bool', dict(flavour = 'bool', kind = 'region initialization'))]
NUMBERS = [0, 1, 2, 4]


def _stacks(ctx, what):
    for name, v in FLAVOURS:
        if what == 'facet' and name == 'points':
            continue
        ctx.run((what, name), _stacks_case, ctx, what, name, v)


def _stacks_case(ctx, what, name, v):
    import resqpy.property as rqp
    m, z = build(ctx.path('p.epc'))
    facets = [('direction', f) for f in ('I', 'J', 'K', 'IJ')]
    members = []
    for n, k in enumerate(NUMBERS):
        extra = {'realization': dict(realization = k), 'time': dict(time = k), 'facet': dict(facet = facets[n])}[what]
        if what == 'time' and k == 4:
            extra['time'] = 3
        if what == 'facet':
            extra['ie'] = v.get('ie', 'cells')
        d = dict(BASE, **v, **{a: b for a, b in extra.items() if a not in v})
        u = add(m, z, d, n)
        a = values(d['flavour'], SHAPES['A', d['ie']] + ((d['count'],) if d['count'] > 1 else ()), n)
        if d['const'] is not None:
            a = np.full(SHAPES['A', d['ie']], d['const'])
        members.append((extra['facet'][1] if what == 'facet' else extra['realization' if what == 'realization' else 'time'], u, a, d))
    numeric = dict(members = members)
    assert numeric
    for r in range(1, 5):
        for order in itertools.permutations(range(4), r):
            pc = rqp.PropertyCollection()
            pc.set_support(support_uuid = z['A'], model = m)
            for i in order:
                pc.add_part_to_dict(m.part(uuid = members[i][1]))
            with about((what, name, [members[i][0] for i in order])):
                check_stack(pc, what, sorted(order, key = lambda i: members[i][0]), members, ctx)
    ctx.state((what, name))
    rq.close(m)


def check_stack(pc, what, order, members, ctx):
    held = {p: pc.cached_part_array_ref(p).copy() for p in pc.parts()}
    keys = [members[i][0] for i in order]
    sample = members[order[0]][2]
    floating = sample.dtype.kind == 'f'
    for bits32, fill, value in itertools.product((False, True), (False, True) if what != 'facet' else (False,), (None, -9)):
        if what == 'facet' and value is not None:
            continue
        kw = dict(use_32_bit = bits32)
        if what != 'facet':
            kw.update(fill_missing = fill, fill_value = value)
        fn = {'realization': pc.realizations_array_ref, 'time': pc.time_series_array_ref, 'facet': pc.facets_array_ref}[what]
        got = fn(**kw)
        if fill:
            want = np.full((max(keys) + 1,) + sample.shape, (np.nan if floating else -1) if value is None else value, dtype = float if floating else int)
            for i, k in zip(order, keys):
                want[k] = members[i][2]
        else:
            want = np.stack([members[i][2] for i in order])
        expect(got.shape == want.shape and rq.near(got, want), kw, 'combined array is', got.shape, got.flatten()[:8], 'should be', want.shape,
               want.flatten()[:8])
        expect(got.dtype == {(True, True): np.float32, (True, False): np.float64, (False, True): np.int32,
                             (False, False): np.int64}[floating, bits32], kw, 'type of combined array is', got.dtype)
        for p, h in held.items():
            expect(same(pc.cached_part_array_ref(p), h), kw, 'array of a member has changed')
        ctx.step()
    lst = {'realization': pc.realization_list, 'time': pc.time_index_list, 'facet': pc.facet_list}[what]
    expect(lst() == sorted(keys) and sorted(lst(sort_list = False)) == sorted(keys), 'list of', what, lst())


# ---- histories ----------------------------------------------------------------------------------------------------
HISTORY = {
    'a': dict(realization = 0),
    'b': dict(realization = 1),
    'c': dict(kind = 'depth', realization = 1, time = 0),
    'd': dict(uom = 'ft', ie = 'columns', time = 0),
    'e': dict(flavour = 'int', kind = 'region initialization', time = 1),
    's': dict(where = 'B', realization = 0),
}
OPS = ['a', 'b', 'c', 'd', 'e', 's', '-a', '-c', 'ask', 'inherit c', 'inherit all']


def _history(ctx, first, depth):
    ctx.run(first, _history_all, ctx, first, depth)


def _history_all(ctx, first, depth):
    m, z = build(ctx.path('p.epc'))
    us = {k: add(m, z, v, n) for n, (k, v) in enumerate(HISTORY.items())}
    parts = {k: m.part(uuid = u) for k, u in us.items()}
    for rest in itertools.product(OPS, repeat = depth - 1):
        seq = (first,) + rest
        if not legal(seq):
            continue
        with about(seq):
            play(ctx, m, z, parts, seq)
    rq.close(m)


def legal(seq):
    have = set()
    for op in seq:
        if op in HISTORY:
            if op in have:
                return False
            have.add(op)
        elif op[0] == '-':
            have.discard(op[1:])
        elif op == 'inherit c':
            have |= {'c'}
        elif op == 'inherit all':
            have |= {'a', 'c', 'd'}
    return True


def play(ctx, m, z, parts, seq):
    import resqpy.property as rqp
    pc = rqp.PropertyCollection()
    pc.model = m
    have = []
    for op in seq:
        if op in HISTORY:
            pc.add_part_to_dict(parts[op])
            have.append(op)
        elif op[0] == '-':
            pc.remove_part_from_dict(parts[op[1:]])
            if op[1:] in have:
                have.remove(op[1:])
        elif op == 'ask':
            check_description(pc, m, z, parts, have)
        else:
            if 's' in have:
                return
            other = rqp.PropertyCollection()
            other.set_support(support_uuid = z['A'], model = m)
            for k in ('a', 'c', 'd'):
                other.add_part_to_dict(parts[k])
            if op == 'inherit c':
                pc.inherit_parts_selectively_from_other_collection(other, property_kind = 'depth', ignore_clashes = True)
                new = ['c']
            else:
                pc.inherit_parts_from_other_collection(other, ignore_clashes = True)
                new = ['a', 'c', 'd']
            have += [k for k in new if k not in have]
    check_description(pc, m, z, parts, have)
    ctx.step(len(seq))
    ctx.state((tuple(have), seq[-1] == 'ask'))


def check_description(pc, m, z, parts, have):
    ds = [dict(BASE, **HISTORY[k]) for k in have]
    expect(pc.parts() == [parts[k] for k in have] and pc.number_of_parts() == len(have), 'members')
    for k, d in zip(have, ds):
        p = parts[k]
        expect(pc.part_in_collection(p), 'part_in_collection')
        for name, fn in (('realization', pc.realization_for_part), ('continuous', pc.continuous_for_part), ('points', pc.points_for_part),
                         ('count', pc.count_for_part), ('indexable', pc.indexable_for_part), ('property_kind', pc.property_kind_for_part),
                         ('facet_type', pc.facet_type_for_part), ('facet', pc.facet_for_part), ('time_index', pc.time_index_for_part),
                         ('uom', pc.uom_for_part)):
            expect(fn(p) == attribute(d, name, z), name, 'of member', k, 'is', fn(p), 'should be', attribute(d, name, z))
        expect(str(pc.support_uuid_for_part(p)) == str(z[d['where']]), 'support of member', k, 'is', pc.support_uuid_for_part(p))
    for k in HISTORY:
        if k not in have:
            expect(not pc.part_in_collection(parts[k]) and pc.uom_for_part(parts[k]) is None and pc.realization_for_part(parts[k]) is None,
                   'describes part which is not a member')
    kinds = {d['kind'] for d in ds}
    expect(pc.has_single_property_kind() == (len(kinds) < 2), 'has_single_property_kind is', pc.has_single_property_kind(), kinds)
    ies = {d['ie'] for d in ds}
    expect(pc.has_single_indexable_element() == (len(ies) < 2), 'has_single_indexable_element is', pc.has_single_indexable_element(), ies)
    uoms = {attribute(d, 'uom', z) for d in ds}
    expect(pc.has_single_uom() == (len(uoms) < 2), 'has_single_uom is', pc.has_single_uom(), uoms)
    rs = {d['realization'] for d in ds} - {None}
    expect(pc.has_multiple_realizations() == (len(rs) > 1), 'has_multiple_realizations is', pc.has_multiple_realizations(), rs)
    times = {d['time'] for d in ds}
    single = len(times) == 1 and None not in times
    if ds:
        expect(pc.time_set_kind() == ('single time' if single else 'not a time set'), 'time_set_kind is', pc.time_set_kind(), times)
    expect(pc.all_continuous() == ({d['flavour'] for d in ds} == {'float'}) and pc.all_discrete() == ({d['flavour'] for d in ds} == {'int'}),
           'all continuous or discrete')
    expect(pc.realization_list() == sorted(rs) and pc.property_kind_list() == sorted(kinds) and pc.uom_list() == sorted(uoms - {None}) and
           pc.time_index_list() == sorted(times - {None}), 'lists of unique values')
    expect(sorted(pc.titles()) == sorted(d['title'] for d in ds), 'titles')


# ---- property sets ------------------------------------------------------------------------------------------------
def _sets(ctx):
    names = ['a', 'b', 'c', 'd', 'e']
    for r in range(1, 6):
        ctx.run(r, _sets_case, ctx, names, r)


def _sets_case(ctx, names, r):
    import resqpy.property as rqp
    m, z = build(ctx.path('p.epc'))
    us = {k: add(m, z, HISTORY[k], n) for n, k in enumerate(names)}
    sets = {}
    for chosen in itertools.permutations(names, r) if r < 3 else itertools.combinations(names, r):
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = z['A'], model = m)
        for k in chosen:
            pc.add_part_to_dict(m.part(uuid = us[k]))
        node = pc.create_property_set_xml('set ' + ''.join(chosen))
        sets[chosen] = node.attrib['uuid']
        with about(chosen):
            check_set(m, z, us, chosen, sets[chosen])
    m.store_epc()
    rq.close(m)
    rq.Stored(m.epc_file).check_wellformed()
    m = rq.open_model(m.epc_file)
    for chosen, u in sets.items():
        with about((chosen, 're-read')):
            check_set(m, z, us, chosen, u)
        ctx.state(chosen)
    rq.close(m)


def check_set(m, z, us, chosen, u):
    import resqpy.property as rqp
    root = m.root(uuid = u)
    expect(root is not None, 'property set is missing')
    g = m.grid(uuid = z['A'], find_properties = False)
    pc = rqp.PropertyCollection(support = g, property_set_root = root)
    expect([str(x) for x in pc.uuids()] == [str(us[k]) for k in chosen], 'members of the set')
    check_description(pc, m, z, {k: m.part(uuid = x) for k, x in us.items()} | {'s': None}, list(chosen))
    g = rqp.GridPropertyCollection(grid = m.grid(uuid = z['A'], find_properties = False), property_set_root = root)
    expect([str(x) for x in g.uuids()] == [str(us[k]) for k in chosen], 'members of the set as a grid property collection')
    expect({str(x) for x in m.uuids(related_uuid = u)} == {str(us[k]) for k in chosen}, 'relationships of the set')


# ---- families -----------------------------------------------------------------------------------------------------
def _families(ctx):
    ctx.run('families', _families_case, ctx)


def _families_case(ctx):
    import resqpy.property as rqp
    m, z = build(ctx.path('p.epc'))
    members = []
    n = 0
    for title, facet, r, t, fl in itertools.product(('P', 'Q'), (None, ('direction', 'I'), ('direction', 'K')), (None, 0, 1), (None, 0, 1), ('float', 'int')):
        d = dict(BASE, title = title, facet = facet, realization = r, time = t, flavour = fl, kind = 'thickness' if fl == 'float' else 'region initialization',
                 count = 1, const = n)
        members.append((d, add(m, z, d, n)))
        n += 1
    whole = rqp.PropertyCollection()
    whole.set_support(support_uuid = z['A'], model = m)
    parts = []
    for d, u in members:
        p = m.part(uuid = u)
        whole.add_part_to_dict(p)
        parts.append(p)
    for (d, u), p in zip(members, parts):
        for family, free in (('time_series', ('time',)), ('realizations', ('realization',)), ('facets', ('facet',))):
            if family == 'time_series' and d['time'] is None:
                continue
            pc = rqp.PropertyCollection()
            getattr(pc, f'inherit_similar_parts_for_{family}_from_other_collection')(whole, p)
            # attributes which the example lacks do not restrict the family
            want = [q for (e, _), q in zip(members, parts)
                    if all(a in free or d[a] is None or e[a] == d[a] for a in ('title', 'facet', 'realization', 'time', 'flavour')) and
                    not (family == 'time_series' and e['time'] is None)]
            expect(pc.parts() == want, (family, d), 'family is', [whatis(whole, q) for q in pc.parts()], 'should be', [whatis(whole, q) for q in want])
            ctx.step()
        if d['time'] is not None:
            v = rqp.property_over_time_series_from_collection(whole, p)
            expect(p in v.parts() and all(whole.time_series_uuid_for_part(q) is not None for q in v.parts()), 'over time series')
    ctx.state('families')
    rq.close(m)


# ---- sampling -----------------------------------------------------------------------------------------------------
def _sampling(ctx):
    for name, v in FLAVOURS + [('nulls', dict(flavour = 'int', kind = 'region initialization', realization = 3)), ('time', dict(time = 1)),
                               ('facet', dict(facet = ('direction', 'K')))]:
        ctx.run(name, _sampling_case, ctx, v)


def _sampling_case(ctx, v):
    """Properties of one grid sampled on to another of as many cells as there are indices."""
    import resqpy.grid as grr
    import resqpy.property as rqp
    m, z = build(ctx.path('p.epc'))
    d = dict(BASE, **v)
    u = add(m, z, d, 0)
    src = rqp.PropertyCollection()
    src.set_support(support_uuid = z['A'], model = m)
    src.add_part_to_dict(m.part(uuid = u))
    a = src.cached_part_array_ref(m.part(uuid = u)).copy()
    ext = {'cells': (1, 1, 2), 'columns': (1, 1, 2)}[d['ie']]
    small = grr.RegularGrid(m, extent_kji = ext, dxyz = (1.0, 1.0, 1.0), crs_uuid = z['crs'], title = 'small')
    small.create_xml()
    n = int(np.prod(SHAPES['A', d['ie']]))
    for i, j in itertools.product(range(n), range(n)):
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = small.uuid, model = m)
        pc.add_to_imported_list_sampling_other_collection(src, np.array([i, j]))
        pc.write_hdf5_for_imported_list()
        w = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
        p = rqp.Property(m, uuid = w, support_uuid = small.uuid)
        flat = a.reshape((n,) + a.shape[len(SHAPES['A', d['ie']]):])
        shape = {'cells': (1, 1, 2), 'columns': (1, 2)}[d['ie']]
        want = flat[[i, j]].reshape(shape + flat.shape[1:])
        expect(same(p.array_ref(), want), 'elements', i, j, 'sampled as', p.array_ref().tolist(), 'should be', want.tolist())
        q = rqp.Property(m, uuid = u, support_uuid = z['A'])
        for fn in ('is_continuous', 'is_points', 'is_categorical', 'null_value', 'count', 'indexable_element', 'property_kind', 'facet_type', 'facet',
                   'time_series_uuid', 'time_index', 'uom', 'realization', 'string_lookup_uuid'):
            x, y = getattr(p, fn)(), getattr(q, fn)()
            expect(str(x) == str(y), fn, 'of sampled property is', x, 'of the original', y)
        ctx.step()
        m.remove_part(m.part(uuid = w))
    ctx.state(repr(v))
    rq.close(m)


def jobs(tier):
    out = []
    n = 3 if tier == 'thorough' else 2
    of = 32 if tier == 'thorough' else 8
    for share in range(of):
        out.append((f'select {share}', _select, dict(n = n, share = share, of = of)))
    for what in ('realization', 'time', 'facet'):
        out.append((f'stacks {what}', _stacks, dict(what = what)))
    for op in OPS:
        out.append((f'history {op}', _history, dict(first = op, depth = 6 if tier == 'thorough' else 5)))
    out.append(('sets', _sets, {}))
    out.append(('families', _families, {}))
    out.append(('sampling', _sampling, {}))
    return out
