"""C13: arrays and attributes of properties survive storage.

(supports) every class of supporting representation x indexable element x flavour of array x count x way of writing: the values
read back, in the session and after re-opening, by every way of reading, are those given;  (meta) every pair of choices of
attributes;  (lists) every sequence of arrays of various flavours written together;  (similar) every attribute inherited or
overridden in a similar property;  (slices) every slice of an array read and overwritten;  (views) masks, normalised arrays,
face orderings over every small array of an alphabet of values."""

import itertools
import warnings

import numpy as np

from mc import rq, zoo
from mc.core import about, expect
from mc.rq import same

ID = 'C13'
TITLE = 'arrays and attributes of properties survive storage'
BOUNDS = {
    'quick': '18 supporting representations, all indexable elements, 12 flavours of array (types, nan, nulls, constants, points, packed '
             'bits), count 1 and 2, 2 ways of writing, 5 of reading; every pair of choices over 13 attributes; all sequences of up to '
             '3 arrays (9 flavours, packed or not, expanded constants or not) written together; every attribute overridden in a similar property; '
             'every slice of a 2x3x2 array; masks and normalised arrays over all arrays of 3 values of 6',
    'thorough': '3 ways of writing; every triple of attributes; sequences of 4 arrays; masks and normalised arrays of 4 values'
}


def warm(tier):
    import resqpy.property  # noqa: F401
    import resqpy.model  # noqa: F401
    import resqpy.grid  # noqa: F401
    import resqpy.unstructured  # noqa: F401
    import resqpy.lines  # noqa: F401
    warnings.simplefilter('ignore')


# ---- supports -----------------------------------------------------------------------------------------------------
# name of support in the zoo, indexable element, extra arguments, expected shape
PLACES = [
    ('regular_grid', 'cells', {}, (2, 3, 2)),
    ('regular_grid', 'columns', {}, (3, 2)),
    ('regular_grid', 'layers', {}, (2,)),
    ('regular_grid', 'faces', dict(facet_type = 'direction', facet = 'I'), (2, 3, 3)),
    ('regular_grid', 'faces', dict(facet_type = 'direction', facet = 'J'), (2, 4, 2)),
    ('regular_grid', 'faces', dict(facet_type = 'direction', facet = 'K'), (3, 3, 2)),
    ('regular_grid', 'faces', {}, (3 * 3 * 2 + 2 * 4 * 2 + 2 * 3 * 3,)),
    ('regular_grid', 'column edges', {}, (3 * 3 + 4 * 2,)),
    ('regular_grid', 'edges per column', {}, (3, 2, 4)),
    ('regular_grid', 'faces per cell', {}, (2, 3, 2, 6)),
    ('regular_grid', 'nodes per cell', {}, (2, 3, 2, 2, 2, 2)),
    ('regular_grid', 'nodes', {}, (3, 4, 3)),
    ('regular_grid', 'I0', {}, (2, 3)),
    ('regular_grid', 'J0', {}, (2, 2)),
    ('split_grid', 'cells', {}, (2, 2, 2)),
    ('split_grid', 'nodes', {}, (3, 12)),
    ('unsplit_grid', 'nodes', {}, (3, 3, 3)),
    ('hexa_grid', 'cells', {}, (8,)),
    ('hexa_grid', 'nodes', {}, (27,)),
    ('hexa_grid', 'faces per cell', {}, (48,)),
    ('tetra_grid', 'cells', {}, (12,)),
    ('mesh', 'cells', {}, (1, 1)),
    ('mesh', 'nodes', {}, (2, 2)),
    ('mesh_regular', 'cells', {}, (2, 1)),
    ('mesh_regular', 'nodes', {}, (3, 2)),
    ('mesh_ref', 'nodes', {}, (3, 2)),
    ('surface', 'triangles', {}, (2,)),
    ('surface', 'faces', {}, (2,)),
    ('surface', 'nodes', {}, (4,)),
    ('point_set', 'nodes', {}, (4,)),
    ('polyline', 'nodes', {}, (3,)),
    ('polyline', 'intervals', {}, (3,)),
    ('polyline2', 'nodes', {}, (2,)),
    ('polyline2', 'intervals', {}, (1,)),
    ('polyline_set', 'nodes', {}, (5,)),
    ('polyline_set', 'intervals', {}, (4,)),
    ('wellbore_frame', 'nodes', {}, (3,)),
    ('wellbore_frame', 'intervals', {}, (2,)),
    ('marker_frame', 'nodes', {}, (2,)),
    ('blocked_well', 'cells', {}, None),
    ('blocked_well', 'intervals', {}, None),
    ('blocked_well', 'nodes', {}, None),
    ('gcs', 'faces', {}, (5,)),
]
DEFAULT = {'regular_grid': 'cells', 'hexa_grid': 'cells', 'mesh': 'cells', 'surface': 'triangles', 'point_set': 'nodes',
           'polyline': 'intervals', 'polyline_set': 'intervals', 'wellbore_frame': 'nodes', 'marker_frame': 'nodes',
           'blocked_well': 'cells', 'gcs': 'faces'}

CYCLES = {
    'float': [0.0, -1.5, np.nan, 3.25, 1.0e30, -0.1],
    'inf': [np.inf, 1.0, -np.inf, 7.5],
    'nan': [np.nan],
    'float32': [0.5, -1.25, np.nan, 1.0e-20],
    'int': [0, -7, 3, 2**31 - 1, -1, 5],
    'int32': [0, -7, 3, 2**30, -1],
    'int8': [0, -7, 3, 100],
    'uint8': [0, 7, 200, 1],
    'null': [-1, 4, 0, -1, 9],
    'zero null': [0, 4, 0, 2, 9],
    'bool': [True, False, True, True],
    'pack': [True, False, True, True],
    'cat': [2, 0, 1, -1],
}
NP = dict(float = float, inf = float, nan = float, float32 = np.float32, int = np.int64, int32 = np.int32, int8 = np.int8, uint8 = np.uint8,
          null = np.int64, bool = bool, pack = bool, cat = np.int64)
NP['zero null'] = np.int64
FLAVOURS = list(CYCLES) + ['points', 'const float', 'const int', 'const zero', 'const expanded']


def is_const(f):
    return f.startswith('const')


def array_for(f, shape, count = 1):
    if count > 1:
        shape = tuple(shape) + (count,)
    if f == 'points':
        return np.arange(np.prod(shape) * 3, dtype = float).reshape(tuple(shape) + (3,)) * 1.25 - 7.0
    if is_const(f):
        v = {'const float': 0.1, 'const int': -3, 'const zero': 0, 'const expanded': 2.5}[f]
        return np.full(shape, v)
    c = CYCLES[f]
    n = int(np.prod(shape))
    return np.array([c[i % len(c)] for i in range(n)], dtype = NP[f]).reshape(shape)


def arguments(f, z):
    """Keyword arguments describing the flavour: for adding, for writing, for making xml."""
    discrete = f not in ('float', 'inf', 'nan', 'float32', 'points', 'const float', 'const expanded')
    add = dict(discrete = discrete)
    h5, xml = {}, {}
    if f == 'points':
        add.update(points = True, property_kind = 'length')
    elif discrete:
        add.update(property_kind = 'region initialization')
    else:
        add.update(property_kind = 'thickness', uom = 'm')
    if f == 'null':
        add['null_value'] = -1
    if f == 'zero null':
        add['null_value'] = 0
    if f == 'cat':
        add['null_value'] = -1
        xml['string_lookup_uuid'] = z['lookup']
        add['property_kind'] = 'facies'
    if f == 'float32':
        h5['dtype'] = np.float32
    if f in ('int8', 'uint8', 'int32'):
        h5['dtype'] = NP[f]
    if f == 'pack':
        h5['use_pack'] = True
    if is_const(f):
        add['const_value'] = {'const float': 0.1, 'const int': -3, 'const zero': 0, 'const expanded': 2.5}[f]
    if f == 'const expanded':
        h5['expand_const_arrays'] = xml['expand_const_arrays'] = True
    return add, h5, xml


def write(m, way, support_uuid, a, title, ie, add, h5, xml, count = 1, extra = None):
    import resqpy.property as rqp
    add = dict(add, indexable_element = ie, count = count, **(extra or {}))
    if 'const_value' in add:
        a = None
    if way == 'from_array':
        return rqp.Property.from_array(m, a, 'source of ' + title, title, support_uuid, **{**add, **h5, **xml}).uuid
    if way == 'stepwise':
        p = rqp.Property(m, title = title, support_uuid = support_uuid)
        p.prepare_import(a, 'source of ' + title, title, **add)
        p.write_hdf5(**h5)
        p.create_xml(support_uuid = support_uuid, **xml)
        return p.uuid
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = support_uuid, model = m)
    pc.add_cached_array_to_imported_list(a, 'source of ' + title, title, **add)
    pc.write_hdf5_for_imported_list(**h5)
    return pc.create_xml_for_imported_list_and_add_parts_to_model(**xml)[0]


def kind_of(a):
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'i'}[np.asarray(a).dtype.kind]


def expected(f, a):
    if f == 'bool' or f == 'pack':
        return a.astype(np.int64)
    return a


def check_values(p, f, a, what):
    """p is a Property holding the flavour f of array a."""
    if f == 'pack':
        got = p.array_ref(dtype = bool)
        expect(got.dtype == bool and same(got, a), what, ': packed array read as', got, 'was', a)
        return
    got = p.array_ref()
    want = expected(f, a)
    expect(same(got, want), what, ': array read as', got, 'was', want)
    expect(kind_of(got) == ('f' if p.is_continuous() or p.is_points() else 'i'), what, ': type of array is', got.dtype)
    if f == 'bool':
        q = read_again(p)
        got = q.array_ref(dtype = bool)
        expect(got.dtype == bool and same(got, a), what, ': boolean array read as', got, 'was', a)


def read_again(p):
    import resqpy.property as rqp
    return rqp.Property(p.model, uuid = p.uuid)


def limits(f, a, null = None):
    if f == 'points':
        return None, None
    v = np.asarray(a)
    if v.dtype.kind == 'f':
        v = v[~np.isnan(v)]
    elif null is not None:
        v = v[v != null]
    if v.size == 0:
        return None, None
    return v.min(), v.max()


def _supports(ctx, names, ways, flavours):
    for place in [p for p in PLACES if p[0] in names]:
        for count in (1, 2):
            ctx.run((place[0], place[1], sorted(place[2].values()), count), _supports_case, ctx, place, count, ways, flavours)


def section_of(name):
    for s in zoo.SECTIONS:
        z = {'regular_grid': 'grid', 'split_grid': 'grid', 'unsplit_grid': 'unstructured', 'hexa_grid': 'unstructured',
             'tetra_grid': 'unstructured', 'mesh': 'surface', 'mesh_regular': 'surface', 'mesh_ref': 'surface', 'surface': 'surface',
             'point_set': 'surface', 'polyline': 'lines', 'polyline2': 'lines', 'polyline_set': 'lines', 'wellbore_frame': 'well',
             'marker_frame': 'well', 'blocked_well': 'well', 'gcs': 'gcs'}[name]
        if s == z:
            return ['grid', 'unstructured'] if z == 'unstructured' else ['organize', 'grid', 'well'] if z == 'well' else \
                ['grid', 'gcs'] if z == 'gcs' else [z]


def _supports_case(ctx, place, count, ways, flavours):
    import resqpy.property as rqp
    name, ie, extra, shape = place
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = zoo.build(m, section_of(name))
    lut = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal'}, title = 'table')
    lut.create_xml()
    z['lookup'] = lut.uuid
    sup = z[name]
    if shape is None:
        import resqpy.well as rqw
        bw = rqw.BlockedWell(m, uuid = sup)
        shape = ({'cells': bw.cell_count, 'intervals': bw.node_count - 1, 'nodes': bw.node_count}[ie],)
    made = []
    for f, way in itertools.product(flavours, ways):
        if count > 1 and f in ('pack',):
            continue  # reading of packed bits relies on the shape of the supporting representation
        if f == 'points' and extra:
            continue  # points with facets are not catered for
        if f == 'const expanded' and way == 'stepwise':
            continue
        a = array_for(f, shape, count)
        add, h5, xml = arguments(f, z)
        title = f'{f} {way}'
        held = a.copy()
        ies = [ie] + ([None] if DEFAULT.get(name) == ie and way == 'from_array' else [])
        for e in ies:
            u = write(m, way, sup, a, title, e, add, h5, xml, count, extra)
            made.append((u, f, a, title, add))
            p = rqp.Property(m, uuid = u)
            check_values(p, f, a, (title, 'same session'))
            ctx.step()
        expect(same(a, held), title, ': array given was altered')
    m.store_epc()
    rq.close(m)
    st = rq.Stored(m.epc_file)
    for n in st.objects:
        if 'Property_' in n:
            d, f = n.rsplit('/', 1) if '/' in n else ('', n)
            rels = st.rels[(d + '/' if d else '') + '_rels/' + f + '.rels']
            expect(any(t == 'mlToExternalPartProxy' for t, _, _ in rels) == bool(st.h5_paths(n)), n, st.title(n),
                   ': relationship with hdf5 file', rels, 'arrays', st.h5_paths(n))
    m = rq.open_model(m.epc_file)
    pcs = rqp.PropertyCollection()
    pcs.set_support(support_uuid = sup, model = m)
    for u, f, a, title, add in made:
        what = (name, ie, title)
        p = rqp.Property(m, uuid = u, support_uuid = sup if is_const(f) or f == 'pack' else None)
        check_values(p, f, a, what)
        expect(p.count() == count and p.indexable_element() == ie, what, ': count or indexable element', p.count(), p.indexable_element())
        expect(p.is_points() == (f == 'points') and (f == 'points' or p.is_continuous() == (not add['discrete'])), what,
               ': class of property')
        expect(p.is_categorical() == (f == 'cat'), what, ': categorical')
        lo, hi = limits(f, a, add.get('null_value'))
        if f not in ('points', 'bool', 'pack', 'cat', 'null', 'zero null'):
            for got, want, word in ((p.minimum_value(), lo, 'minimum'), (p.maximum_value(), hi, 'maximum')):
                expect(got is None if want is None else got is not None and abs(got - want) <= 1.0e-6 * abs(want) or got == want,
                       what, ':', word, 'is', got, 'should be', want)
        elif f in ('null', 'zero null') and lo is not None:
            expect(p.minimum_value() is not None and p.minimum_value() <= lo and p.maximum_value() >= hi, what, ': limits do not enclose the values')
        if f in ('null', 'zero null', 'cat'):
            null = add['null_value']
            expect(p.null_value() == null, what, ': null value is', p.null_value())
            got = p.array_ref(masked = True, exclude_null = True)
            inact = getattr(pcs.support, 'inactive', None)
            mask = a == null
            expect(inact is None or inact.dtype == bool, 'inactive mask is', inact)
            if inact is not None and inact.shape == a.shape:
                mask = mask | inact
            expect(same(np.ma.getmaskarray(got), mask), what, ': null values masked', got)
        if is_const(f) and f != 'const expanded':
            expect(p.constant_value() == add['const_value'], what, ': constant value is', p.constant_value())
        else:
            expect(p.constant_value() is None, what, ': constant value is', p.constant_value())
        part = m.part(uuid = u)
        # other ways of reading
        pcs.add_part_to_dict(part)
        got = pcs.cached_part_array_ref(part, dtype = bool if f == 'pack' else None)
        expect(same(got, a if f == 'pack' else expected(f, a)), what, ': read by collection as', got)
        q = rqp.PropertyCollection()
        q.set_support(support_uuid = sup, model = m)
        q.add_part_to_dict(part)
        shp = q.shape_and_type_of_part(part)
        if f != 'pack':
            expect(tuple(shp[0]) == a.shape, what, ': shape_and_type_of_part is', shp, 'array shape is', a.shape)
            if not (is_const(f) and f != 'const expanded'):
                got = q.h5_slice(part, (slice(None),) * a.ndim)
                expect(same(np.asarray(got), a) or f in ('bool',) and same(np.asarray(got).astype(bool), a), what, ': read by slice as', got)
        if count == 1 and f != 'pack' and f != 'points':
            got = q.single_array_ref(uuid = u)
            expect(same(got, expected(f, a)), what, ': single_array_ref')
        ctx.step()
    expect(tuple(pcs.supporting_shape(indexable_element = ie, direction = extra.get('facet'))) == tuple(shape), (name, ie), 'supporting shape')
    ctx.outcome((name, ie, count, len(made)))
    ctx.state((name, ie, count, tuple(sorted(extra.items()))))
    rq.close(m)


# ---- attributes ---------------------------------------------------------------------------------------------------
AXES = {
    'title': ['P', 'a & b <c> "d"', 'é µ', '12'],
    'kind': ['thickness', 'permeability rock', 'my kind', 'continuous', 'saturation', 'made here'],
    'uom': ['m', 'Euc', 'furlongs', None, 'm3/m3', 'mD'],
    'facet': [None, ('direction', 'I'), ('what', 'oil'), ('netgross', 'net'), ('qualifier', '0')],
    'realization': [None, 0, 3],
    'time': [None, 0, 2],
    'source': ['s', None, '', 'a & b'],
    'extra': [{}, {'a': 'b'}, {'Uom': 'x', 'k': 'v & w'}],
    'flavour': ['float', 'int', 'zero null', 'const float', 'const zero', 'cat'],
    'ie': ['cells', 'columns', 'layers'],
    'count': [1, 3],
    'where': ['split_grid', 'regular_grid'],
    'lpk uuid': [False, True],
}


def build_meta(m):
    import resqpy.property as rqp
    z = zoo.build(m, ['grid', 'time'])
    lut = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal'}, title = 'table')
    lut.create_xml()
    z['lookup'] = lut.uuid
    pk = rqp.PropertyKind(m, title = 'my kind', parent_property_kind = 'continuous', example_uom = 'm')
    pk.create_xml()
    z['kind'] = pk.uuid
    return z


def _meta(ctx, combos, way):
    for n, part in enumerate(rq.chunks(combos, max(1, len(combos) // 12))):
        ctx.run((way, n), _meta_batch, ctx, part, way)


def _meta_batch(ctx, combos, way):
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = build_meta(m)
    made = []
    for c in combos:
        with about((way, c)):
            made.append((c, _meta_write(ctx, m, z, c, way)))
    m.store_epc()
    rq.close(m)
    m2 = rq.open_model(m.epc_file)
    for c, u in made:
        with about((way, c)):
            _meta_check(ctx, m2, z, c, u, 're-read')
    rq.close(m2)


def base(c):
    return {k: c.get(k, v[0]) for k, v in AXES.items()}


def meta_array(c):
    shape = {'split_grid': {'cells': (2, 2, 2), 'columns': (2, 2), 'layers': (2,)},
             'regular_grid': {'cells': (2, 3, 2), 'columns': (3, 2), 'layers': (2,)}}[c['where']][c['ie']]
    return array_for(c['flavour'], shape, c['count'])


def _meta_write(ctx, m, z, c, way):
    c = base(c)
    a = meta_array(c)
    add, h5, xml = arguments(c['flavour'], z)
    add['uom'] = c['uom']
    add['property_kind'] = c['kind']
    add['realization'] = c['realization']
    if c['time'] is not None:
        add['time_index'] = c['time']
        xml['time_series_uuid'] = z['time_series']
    if c['facet']:
        add['facet_type'], add['facet'] = c['facet']
    if c['lpk uuid']:
        add['local_property_kind_uuid'] = z['kind']
        add['property_kind'] = 'my kind'
    import resqpy.property as rqp
    if 'const_value' in add:
        a = None
    sup = z[c['where']]
    add.update(indexable_element = c['ie'], count = c['count'])
    if way == 'from_array':
        u = rqp.Property.from_array(m, a, c['source'], c['title'], sup, extra_metadata = c['extra'], **{**add, **h5, **xml}).uuid
    else:
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = sup, model = m)
        if way == 'collection at add':
            if 'string_lookup_uuid' in xml:
                add['string_lookup_uuid'] = xml.pop('string_lookup_uuid')
            if 'time_series_uuid' in xml:
                add['time_series_uuid'] = xml.pop('time_series_uuid')
        pc.add_cached_array_to_imported_list(a, c['source'], c['title'], **add)
        pc.write_hdf5_for_imported_list(**h5)
        u = pc.create_xml_for_imported_list_and_add_parts_to_model(extra_metadata = c['extra'], **xml)[0]
    _meta_check(ctx, m, z, c, u, 'same session')
    return u


def _meta_check(ctx, m, z, c, u, when):
    import resqpy.property as rqp
    c = base(c)
    p = rqp.Property(m, uuid = u, support_uuid = z[c['where']])
    a = meta_array(c)
    what = (when,)
    check_values(p, c['flavour'], a, what)
    expect(p.title == c['title'], what, 'title is', p.title)
    kind = 'my kind' if c['lpk uuid'] else c['kind']
    if kind == 'continuous':
        kind = c['title']
    if kind == 'permeability rock':
        kind = 'rock permeability'
    expect(p.property_kind() == kind, what, 'kind is', p.property_kind(), 'should be', kind)
    expect((p.local_property_kind_uuid() is not None) == (kind not in ('thickness', 'rock permeability', 'saturation')), what,
           'local kind is', p.local_property_kind_uuid())
    if c['lpk uuid'] or kind == 'my kind':
        expect(str(p.local_property_kind_uuid()) == str(z['kind']), what, 'local kind is', p.local_property_kind_uuid())
    discrete = c['flavour'] in ('int', 'zero null', 'const zero', 'cat')
    if not discrete:
        if c['uom']:
            expect(p.uom() == c['uom'] or c['uom'] == 'Euc' and c['extra'].get('Uom') == p.uom(), what, 'uom is', p.uom())
    else:
        expect(p.is_categorical() == (c['flavour'] == 'cat'), what, 'is categorical')
        if c['flavour'] == 'cat':
            expect(str(p.string_lookup_uuid()) == str(z['lookup']), what, 'string lookup is', p.string_lookup_uuid())
            expect(p.string_lookup().get_string(2) == 'coal', what, 'string lookup')
    expect(p.is_continuous() == (not discrete), what, 'is continuous')
    f = c['facet'] or (None, None)
    expect((p.facet_type(), p.facet()) == f, what, 'facet is', p.facet_type(), p.facet())
    expect(p.realization() == c['realization'], what, 'realization is', p.realization())
    expect(p.time_index() == c['time'], what, 'time index is', p.time_index())
    expect((str(p.time_series_uuid()) == str(z['time_series'])) == (c['time'] is not None), what, 'time series is', p.time_series_uuid())
    for k, v in c['extra'].items():
        if not (k == 'Uom' and c['uom'] == 'furlongs'):
            expect(p.extra_metadata.get(k) == v, what, 'extra metadata is', p.extra_metadata)
    part = m.part(uuid = u)
    got = p.collection.source_for_part(part)
    expect(got == c['source'] or not c['source'] and not got, what, 'source is', got)
    expect(p.count() == c['count'] and p.indexable_element() == c['ie'], what, 'count or indexable element')
    expect(str(p.collection.support_uuid_for_part(part)) == str(z[c['where']]), what, 'support is', p.collection.support_uuid_for_part(part))
    rel = m.uuids(related_uuid = u)
    want = {str(z[c['where']])}
    if c['time'] is not None:
        want.add(str(z['time_series']))
    if c['flavour'] == 'cat':
        want.add(str(z['lookup']))
    expect(want <= {str(x) for x in rel}, what, 'relationships', rel)
    ctx.state(tuple(sorted(c.items(), key = str)).__repr__())


def combos(n):
    out = []
    seen = set()
    for k in range(n + 1):
        for names in itertools.combinations(AXES, k):
            for vals in itertools.product(*[AXES[a][1:] for a in names]):
                c = dict(zip(names, vals))
                out.append(c)
    return out


# ---- arrays written together --------------------------------------------------------------------------------------
TOGETHER = ['float', 'int', 'bool', 'points', 'const float', 'const zero', 'cat', 'null', 'count 2']


def _lists(ctx, seqs):
    for n, part in enumerate(rq.chunks(seqs, max(1, len(seqs) // 12))):
        ctx.run(n, _lists_batch, ctx, part)


def _lists_batch(ctx, seqs):
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = build_meta(m)
    for seq in seqs:
        for opts in ({}, dict(use_pack = True), dict(expand_const_arrays = True), dict(dtype = np.float32), dict(use_pack = True, chunks = 'auto', compression = 'gzip')):
            with about((seq, opts)):
                _lists_case(ctx, m, z, seq, opts)
    rq.close(m)


def _lists_case(ctx, m, z, seq, opts):
    import resqpy.property as rqp
    if 'dtype' in opts and set(seq) - {'float', 'points', 'const float', 'count 2'}:
        return
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = z['regular_grid'], model = m)
    want = []
    xml = dict(expand_const_arrays = True) if opts.get('expand_const_arrays') else {}
    for n, f in enumerate(seq):
        count, g = (2, 'float') if f == 'count 2' else (1, f)
        add, _, x = arguments(g, z)
        a = array_for(g, (2, 3, 2), count) if n % 2 == 0 or g != 'float' else array_for('float', (2, 3, 2), count)[::-1].copy()
        if 'string_lookup_uuid' in x:
            add['string_lookup_uuid'] = x['string_lookup_uuid']
        pc.add_cached_array_to_imported_list(None if is_const(g) else a, 's', f'{n}', indexable_element = 'cells', count = count, **add)
        want.append((g, a))
    pc.write_hdf5_for_imported_list(**opts)
    us = pc.create_xml_for_imported_list_and_add_parts_to_model(**xml)
    expect(len(us) == len(seq) and pc.number_of_imports() == 0 and pc.number_of_parts() == len(seq), 'number of properties')
    for k, (u, (g, a)) in enumerate(zip(us, want)):
        p = rqp.Property(m, uuid = u, support_uuid = z['regular_grid'])
        expect(p.title == str(k), 'order of the properties')
        if opts.get('dtype') is not None and not is_const(g):
            a = a.astype(np.float32)
        if g == 'bool' and opts.get('use_pack'):
            g = 'pack'
        if is_const(g) and opts.get('expand_const_arrays'):
            expect(p.constant_value() is None, 'constant was not expanded')
            a = a.astype(opts.get('dtype') or a.dtype)
        check_values(p, g, a, ('member', k, 'of', seq))
        part = m.part(uuid = u)
        got = pc.cached_part_array_ref(part, dtype = bool if g == 'pack' else None)
        if opts.get('dtype') is not None and not is_const(g):
            got = got.astype(np.float32)  # arrays remain as given in the collection they were imported to
        expect(same(got, expected(g, a) if g != 'pack' else a), 'member', k, 'read from the collection as', got)
    ctx.state((seq, repr(sorted(opts.items(), key = str))))
    for u in us:
        m.remove_part(m.part(uuid = u))


# ---- what is said of all arrays of a list, and of each -------------------------------------------------------------
OWN = [(), ('time series',), ('lookup',), ('kind',), ('time series', 'lookup', 'kind'), ('no time',)]


def _defaults(ctx, share):
    for common in itertools.chain(*[itertools.combinations(('time series', 'lookup', 'kind', 'extra', 'reduced', 'support'), k) for k in range(4)]):
        if 'reduced' in common and 'time series' not in common or len(repr(common)) % 8 != share:
            continue
        ctx.run(common, _defaults_case, ctx, common)


def _defaults_case(ctx, common):
    import resqpy.property as rqp
    import resqpy.time_series as rts
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = build_meta(m)
    ts, lut, kind = [], [], []
    for n in range(2):
        t = rts.TimeSeries(m, first_timestamp = f'200{n}-01-01T00:00:00Z', yearly = 4, title = f'ts{n}')
        t.create_xml()
        ts.append(t.uuid)
        s = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale' * (n + 1)}, title = f'lut{n}')
        s.create_xml()
        lut.append(s.uuid)
        k = rqp.PropertyKind(m, title = f'special {n}', parent_property_kind = 'continuous', example_uom = 'm')
        k.create_xml()
        kind.append(k.uuid)
    want = {}
    for way, pairs in enumerate(itertools.product(OWN, repeat = 2)):
        pc = rqp.PropertyCollection()
        pc.set_support(support_uuid = z['regular_grid'], model = m)
        xml = {}
        if 'time series' in common:
            xml['time_series_uuid'] = ts[0]
        if 'lookup' in common:
            xml['string_lookup_uuid'] = lut[0]
        if 'kind' in common:
            xml['property_kind_uuid'] = kind[0]
        if 'extra' in common:
            xml['extra_metadata'] = {'k': 'v', 'z': '0'}
        if 'reduced' in common:
            xml['selected_time_indices_list'] = [1, 3]
        if 'support' in common:
            xml['support_uuid'] = z['regular_grid']
        if 'reduced' in common and any('time series' in own for own in pairs):
            continue
        mine = []
        for n, (own, discrete) in enumerate(itertools.product(pairs, (False, True))):
            a = np.full((2, 3, 2), n + way, dtype = int if discrete else float)
            add = {}
            if 'time series' in own:
                add['time_series_uuid'] = ts[1]
            if 'lookup' in own:
                add['string_lookup_uuid'] = lut[1]
            if 'kind' in own:
                add['local_property_kind_uuid'] = kind[1]
            if 'no time' not in own:
                add['time_index'] = 3
            pc.add_cached_array_to_imported_list(a, 's', f'{n}', discrete = discrete, uom = None if discrete else 'm', indexable_element = 'cells', **add)
            use_lut = None if not discrete else lut[1] if 'lookup' in own else lut[0] if 'lookup' in common else None
            use_kind = kind[1] if 'kind' in own else kind[0] if 'kind' in common else None
            use_ts = ts[1] if 'time series' in own else ts[0] if 'time series' in common else None
            if 'no time' in own:
                use_ts = None
            mine.append(dict(string_lookup_uuid = use_lut, local_property_kind_uuid = use_kind, time_series_uuid = use_ts,
                             time_index = None if use_ts is None else 1 if 'reduced' in common else 3,
                             property_kind = m.title(uuid = use_kind) if use_kind is not None else f'{n}', is_categorical = use_lut is not None, a = a))
        pc.write_hdf5_for_imported_list()
        us = pc.create_xml_for_imported_list_and_add_parts_to_model(**xml)
        expect(len(us) == len(mine), 'number of properties')
        want.update({str(u): (pairs, w) for u, w in zip(us, mine)})
    path = m.epc_file
    for again in (False, True):
        if again:
            m.store_epc()
            rq.close(m)
            rq.Stored(path).check_wellformed()
            m = rq.open_model(path)
        for u, (pairs, w) in want.items():
            p = rqp.Property(m, uuid = u)
            with about((pairs, 're-read' if again else 'session')):
                w = dict(w)
                if w['local_property_kind_uuid'] is None and p.local_property_kind_uuid() is not None:
                    # a kind is made for a keyword which is not recognized
                    expect(m.title(uuid = p.local_property_kind_uuid()) == w['property_kind'], 'title of local property kind', m.title(uuid = p.local_property_kind_uuid()), w['property_kind'])
                    w['local_property_kind_uuid'] = p.local_property_kind_uuid()
                for k, v in w.items():
                    if k != 'a':
                        expect(str(getattr(p, k)()) == str(v), k, 'is', getattr(p, k)(), 'should be', v)
                expect(same(p.array_ref(), w['a']), 'values', p.array_ref())
                em = dict(p.extra_metadata or {})
                expect(em.pop('source', 's') == 's', 'source')
                expect(em == ({'k': 'v', 'z': '0'} if 'extra' in common else {}), 'extra metadata', em)
                rel = {str(x) for x in m.uuids(related_uuid = u)} - {str(m.h5_uuid())}
                expect(rel == {str(z['regular_grid'])} | {str(w[k]) for k in ('string_lookup_uuid', 'local_property_kind_uuid', 'time_series_uuid')
                                                          if w[k] is not None}, 'related objects', len(rel))
            ctx.step()
    ctx.state(common)
    rq.close(m)


# ---- similar properties -------------------------------------------------------------------------------------------
SOURCES = ['float', 'int', 'cat', 'plain', 'points', 'columns']


def _similar(ctx):
    for name in SOURCES:
        ctx.run(name, _similar_all, ctx, name)


def _similar_all(ctx, name):
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = build_meta(m)
    import resqpy.property as rqp
    full = dict(uom = 'm', property_kind = 'thickness', facet_type = 'netgross', facet = 'net', realization = 2, indexable_element = 'cells')
    a = array_for('float', (2, 3, 2))
    ai = array_for('null', (2, 3, 2))
    src = {
        'float': rqp.Property.from_array(m, a, 'src', 'like me', z['regular_grid'], time_index = 1, time_series_uuid = z['time_series'], **full).uuid,
        'int': rqp.Property.from_array(m, ai, 'src', 'like me', z['regular_grid'], discrete = True, null_value = -1,
                                       **dict(full, uom = None)).uuid,
        'cat': rqp.Property.from_array(m, ai, 'src', 'like me', z['regular_grid'], discrete = True, null_value = -1, string_lookup_uuid = z['lookup'],
                                       **dict(full, uom = None)).uuid,
        'plain': rqp.Property.from_array(m, a, None, 'like me', z['regular_grid'], property_kind = 'thickness', uom = 'm').uuid,
        'points': rqp.Property.from_array(m, array_for('points', (2, 3, 2)), 'src', 'like me', z['regular_grid'], property_kind = 'length', points = True).uuid,
        'columns': rqp.Property.from_array(m, array_for('float', (3, 2), 2), 'src', 'like me', z['regular_grid'], property_kind = 'thickness',
                                           uom = 'ft', count = 2, indexable_element = 'columns').uuid,
    }
    over = [{}, dict(keyword = 'new'), dict(title = 'new'), dict(uom = 'ft'), dict(time_index = 0), dict(time_index = 'none', time_series_uuid = 'none'),
            dict(null_value = 7), dict(property_kind = 'depth'), dict(facet_type = 'none', facet = 'none'), dict(facet = 'gross'),
            dict(realization = 0), dict(realization = 5), dict(realization = 'none'), dict(source_info = 'elsewhere')]
    for k in range(2):
        for oo in itertools.combinations(over, k + 1):
            o = {}
            for x in oo:
                o.update(x)
            with about((name, o)):
                _similar_case(ctx, m, z, name, src[name], o)
    rq.close(m)


def _similar_case(ctx, m, z, name, u, o):
    import resqpy.property as rqp
    s = rqp.Property(m, uuid = u)
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = z['regular_grid'], model = m)
    old = s.array_ref()
    a = old[::-1].copy()
    if 'time_index' in o and name != 'float' and o['time_index'] != 'none':
        o = dict(o, time_series_uuid = z['time_series'])
    if name == 'points' and 'facet' in o and o['facet'] != 'none':
        return
    if 'facet' in o and o['facet'] == 'gross' and (name in ('plain', 'columns') or 'facet_type' in o):
        return
    if 'uom' in o and name in ('int', 'cat', 'points'):
        return
    pc.add_similar_to_imported_list(u, a, **o)
    pc.write_hdf5_for_imported_list()
    v = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
    p = rqp.Property(m, uuid = v)
    expect(same(p.array_ref(), a), 'array is', p.array_ref())

    def want(key, inherited):
        x = o.get(key)
        return None if x == 'none' else inherited if x is None else x

    for key, get in (('uom', 'uom'), ('time_index', 'time_index'), ('property_kind', 'property_kind'), ('facet_type', 'facet_type'),
                     ('facet', 'facet'), ('realization', 'realization')):
        expect(getattr(p, get)() == want(key, getattr(s, get)()), key, 'is', getattr(p, get)(), 'of the original', getattr(s, get)())
    expect(p.title == o.get('keyword', o.get('title', s.title)), 'title is', p.title)
    expect(str(p.time_series_uuid()) == str(want('time_series_uuid', s.time_series_uuid())), 'time series is', p.time_series_uuid())
    expect(str(p.string_lookup_uuid()) == str(s.string_lookup_uuid()), 'string lookup is', p.string_lookup_uuid(), 'of the original',
           s.string_lookup_uuid())
    expect((p.is_continuous(), p.is_points(), p.is_categorical(), p.count(), p.indexable_element()) ==
           (s.is_continuous(), s.is_points(), s.is_categorical(), s.count(), s.indexable_element()), 'class, count or indexable element')
    if not s.is_continuous() and not s.is_points():
        expect(p.null_value() == want('null_value', s.null_value()), 'null value is', p.null_value())
    ctx.state((name, repr(sorted(o.items(), key = str))))
    m.remove_part(m.part(uuid = v))


# ---- slices -------------------------------------------------------------------------------------------------------
def _slices(ctx, which):
    ctx.run(which, _slices_all, ctx, which)


def _slices_all(ctx, which):
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = build_meta(m)
    ex = (2, 3, 2)
    per = [list(range(n)) + [slice(i, j) for i in range(n) for j in range(i + 1, n + 1)] for n in ex]
    for t in itertools.product(*per):
        with about((which, t)):
            _slice_case(ctx, m, z, which, t)
    rq.close(m)


def _slice_case(ctx, m, z, which, t):
    import resqpy.property as rqp
    a = array_for(which, (2, 3, 2))
    if not hasattr(m, '_mc_slice'):
        add, h5, xml = arguments(which, z)
        m._mc_slice = (write(m, 'collection', z['regular_grid'], a, 'sl', 'cells', add, h5, xml), a)
    u, cur = m._mc_slice
    pc = rqp.PropertyCollection()
    pc.set_support(support_uuid = z['regular_grid'], model = m)
    part = m.part(uuid = u)
    pc.add_part_to_dict(part)
    expect(same(pc.h5_slice(part, t), cur[t]), 'slice is', pc.h5_slice(part, t))
    for cached, update in itertools.product((False, True), (False, True)):
        q = rqp.PropertyCollection()
        q.set_support(support_uuid = z['regular_grid'], model = m)
        q.add_part_to_dict(part)
        if cached:
            q.cached_part_array_ref(part)
        new = np.asarray(cur[t]) * 0 + (3 if which == 'int' else 2.5) + update
        q.h5_overwrite_slice(part, t, new, update_cache = update)
        cur = cur.copy()
        cur[t] = new
        expect(same(q.cached_part_array_ref(part), cur), 'after overwriting, array in the collection is', q.cached_part_array_ref(part))
        expect(same(rqp.Property(m, uuid = u).array_ref(), cur), 'after overwriting, array read is', rqp.Property(m, uuid = u).array_ref())
        ctx.step()
    m._mc_slice = (u, cur)
    ctx.state((which, repr(t)))


# ---- views --------------------------------------------------------------------------------------------------------
def _views(ctx, n, first):
    ctx.run(first, _views_all, ctx, n, first)


def _views_all(ctx, n, first):
    import resqpy.property as rqp
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = zoo.build(m, [])
    import resqpy.grid as grr
    g = grr.RegularGrid(m, extent_kji = (1, 1, n), dxyz = (1.0, 1.0, 1.0), crs_uuid = z['crs'], title = 'row')
    g.create_xml()
    fs, ns = [np.nan, -2.0, 0.0, 1.0, 5.0, 100.0], [-1, 0, 1, 2, 9]
    for vals in itertools.product([fs[first]], *[fs] * (n - 1)):
        with about(vals):
            _view_case(ctx, m, g, np.array(vals).reshape((1, 1, n)), None)
    for vals in itertools.product(ns[first:first + 1], *[ns] * (n - 1)):
        for null in (None, -1, 0, 2):
            with about((vals, 'null', null)):
                _view_case(ctx, m, g, np.array(vals).reshape((1, 1, n)), null)
    rq.close(m)


def _view_case(ctx, m, g, a, null):
    import resqpy.property as rqp
    discrete = a.dtype.kind == 'i'
    pc = rqp.PropertyCollection()
    pc.set_support(support = g, model = m)
    pc.add_cached_array_to_imported_list(a, 's', 'v', discrete = discrete, uom = None if discrete else 'm',
                                         property_kind = 'region initialization' if discrete else 'thickness', null_value = null,
                                         indexable_element = 'cells')
    pc.write_hdf5_for_imported_list()
    u = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
    part = m.part(uuid = u)
    inact = np.zeros(a.shape, dtype = bool)
    for k, flags in enumerate(itertools.product((False, True), repeat = a.size)):
        inact = np.array(flags).reshape(a.shape)
        g.inactive = inact if any(flags) else None
        for ex in ((False, True) if discrete else (False,)):
            got = pc.cached_part_array_ref(part, masked = True, exclude_null = ex)
            mask = inact | (a == (-1 if null is None else null) if ex else np.zeros(a.shape, dtype = bool))
            expect(same(np.ma.getmaskarray(got), mask) and same(np.asarray(got.data), a), 'masked array is', got, 'mask should be', mask)
        # normalised
        for log, zero in ((False, None), (True, None), (False, 0.0), (False, 1.0), (False, 0.25)):
            for masked in (False, True):
                check_normal(pc, part, a, inact if masked else None, log, zero)
        if discrete:
            n, lo, hi = pc.normalized_part_array(part, discrete_cycle = 3)
            expect(rq.near(n, (a % 3) / 2.0) and lo == 0 and hi == 2, 'cycled', n, lo, hi)
    g.inactive = None
    expect(same(pc.cached_part_array_ref(part), a), 'array altered by views of it', pc.cached_part_array_ref(part))
    ctx.state((repr(a.tolist()), null))
    m.remove_part(part)


def check_normal(pc, part, a, inact, log, zero):
    v = a.astype(float).copy()
    live = ~np.isnan(v) & (~inact if inact is not None else True)
    n, lo, hi = pc.normalized_part_array(part, masked = inact is not None, use_logarithm = log, fix_zero_at = zero)
    what = ('normalised array: log', log, 'zero at', zero, 'mask', inact)
    if not live.any():
        expect(n is None or np.all(np.isnan(np.ma.filled(n, np.nan))), what, 'of no values is', n)
        return
    expect(n is not None, what, 'is None')
    w = v[live]
    w0, w1 = w.min(), w.max()
    if log:
        if w0 <= 0.0:
            w = np.maximum(w, 0.0001)
        w = np.log10(w)
        w0, w1 = w.min(), w.max()
    if zero is not None:
        if zero <= 0.0:
            w = np.maximum(w, 0.0)
            w0 = 0.0
        elif zero >= 1.0:
            w = np.minimum(w, 0.0)
            w1 = 0.0
        else:
            up, down = w1 / (1.0 - zero), -w0 / zero
            if up >= down:
                w0 = -up * zero
                w = np.maximum(w, w0)
            else:
                w1 = down * (1.0 - zero)
                w = np.minimum(w, w1)
    if zero is not None and w1 < w0:
        return  # all values the wrong side of zero: no sensible range
    want = np.full(w.shape, 0.5) if w1 == w0 else (w - w0) / (w1 - w0)
    got = np.ma.filled(n.astype(float), np.nan)[live]
    if inact is not None:
        expect(np.all(np.ma.getmaskarray(n)[inact]), what, 'is not masked', n)
    expect(rq.near(got, want), what, 'is', got, 'should be', want, 'array', a)
    expect(rq.near(lo, w0) and rq.near(hi, w1), what, 'limits', lo, hi, 'should be', w0, w1)
    if log:
        return
    expect(np.all((got >= -1e-9) & (got <= 1.0 + 1e-9)), what, 'out of range', got)


def _faces(ctx):
    ctx.run('faces', _faces_case, ctx)
    for n in range(16):
        ctx.run(('edges', n), _edges_case, ctx, n)


def _faces_case(ctx):
    import resqpy.property as rqp
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    z = zoo.build(m, ['grid'])
    pc = rqp.GridPropertyCollection(m.grid(uuid = z['regular_grid']))
    # RESQML: K-, K+, J-, I+, J+, I-;  resqpy: axis (kji), polarity
    where = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0)]
    for dtype in (float, int, bool):
        for lead in ((), (2,), (2, 3, 2)):
            n = int(np.prod(lead, dtype = int))
            for f in range(6):
                a = np.zeros(lead + (6,), dtype = dtype)
                a[..., f] = np.arange(1, n + 1).reshape(lead)
                b = pc.combobulated_face_array(a)
                want = np.zeros(lead + (3, 2), dtype = dtype)
                want[..., where[f][0], where[f][1]] = a[..., f]
                expect(b.dtype == a.dtype and same(b, want), 'face', f, 'goes to', b)
                c = pc.discombobulated_face_array(want)
                expect(c.dtype == a.dtype and same(c, a), 'face', f, 'comes back as', c)
                ctx.step()
    ctx.state('faces')


def _edges_case(ctx, bits):
    from resqpy.property import property_common as rqp_c
    flags = [bool(bits >> k & 1) for k in range(4)]
    a = np.zeros((2, 3, 2, 2))
    for n, (axis, pol) in enumerate(itertools.product(range(2), range(2))):
        if flags[n]:
            a[..., axis, pol] = np.arange(6).reshape((2, 3)) + 10 * (n + 1)
    # resqml: I-, J+, I+, J-   (resqpy axis 0 is J, 1 is I)
    r = rqp_c.reformat_column_edges_to_resqml_format(a)
    back = rqp_c.reformat_column_edges_from_resqml_format(r)
    expect(r.shape == (2, 3, 4), 'shape', r.shape)
    expect(same(np.sort(r.reshape(6, 4)), np.sort(a.reshape(6, 4))), 'edge values lost', r)
    expect(same(back, a), 'column edges return as', back)
    ctx.state(bits)


def jobs(tier):
    ways = ['from_array', 'collection'] + (['stepwise'] if tier == 'thorough' else [])
    out = []
    names = list(dict.fromkeys(p[0] for p in PLACES))
    for g in (['regular_grid'], ['split_grid', 'unsplit_grid', 'hexa_grid', 'tetra_grid'], ['mesh', 'mesh_regular', 'mesh_ref', 'surface', 'point_set'],
              ['polyline', 'polyline2', 'polyline_set', 'gcs'], ['wellbore_frame', 'marker_frame', 'blocked_well']):
        assert not set(g) - set(names)
        out.append(('supports ' + g[0], _supports, dict(names = g, ways = ways, flavours = FLAVOURS)))
    cs = combos(3 if tier == 'thorough' else 2)
    for way in ('from_array', 'collection at xml', 'collection at add'):
        if way != 'from_array':
            cs2 = [c for c in cs if len(c) < 2 or tier == 'thorough' or set(c) & {'time', 'flavour', 'lpk uuid'}]
        else:
            cs2 = cs
        for n, part in enumerate(rq.chunks(cs2, max(2, len(cs2) // 200))):
            out.append((f'meta {way} {n}', _meta, dict(combos = part, way = way)))
    seqs = [s for k in range(1, 5 if tier == 'thorough' else 4) for s in itertools.product(TOGETHER, repeat = k)]
    for n, part in enumerate(rq.chunks(seqs, max(8, len(seqs) // 150))):
        out.append((f'lists {n}', _lists, dict(seqs = part)))
    for share in range(8):
        out.append((f'defaults {share}', _defaults, dict(share = share)))
    out.append(('similar', _similar, {}))
    for w in ('float', 'int'):
        out.append(('slices ' + w, _slices, dict(which = w)))
    for first in range(6):
        out.append((f'views {first}', _views, dict(n = 4 if tier == 'thorough' else 3, first = first)))
    out.append(('faces', _faces, {}))
    return out
