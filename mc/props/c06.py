"""C06: consolidation while copying merges equivalent objects, only those, and re-points everything that refers to them.

(pairs) for every consolidatable class, every pair of resident and immigrant choices of attributes;  (subsets) a source with all
kinds of references to consolidatable objects, copied into targets holding every closed subset of equivalents, and each
near miss;  (orders) the same objects copied one by one in every order;  (chain) two sources copied into one target, in both
orders;  (forced) every assignment of forced equivalences."""

import itertools
import os
import uuid as pyuuid

import numpy as np

from mc import objs, rq
from mc.core import expect
from mc.props import c05

ID = 'C06'
TITLE = 'consolidation of equivalent objects'
BOUNDS = {
    'quick': '21 classes x all pairs of resident and immigrant choices within one attribute of a base; every immigrant against residents of all other choices at once; 432 closed subsets of 10 resident '
             'equivalents and near misses of each, against a source of 17 parts; all orders of copying 4 of 6 objects for 5 '
             'targets; two sources into one target in both orders; forced equivalences for all pairs of 4',
    'thorough': 'all orders of copying all 6 objects for 12 targets; subsets with every single near miss'
}
CLASSES = ['OrganizationFeature', 'GeobodyFeature', 'BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature',
           'FluidBoundaryFeature', 'RockFluidUnitFeature', 'TectonicBoundaryFeature', 'GeneticBoundaryFeature',
           'WellboreFeature', 'FaultInterpretation', 'EarthModelInterpretation', 'HorizonInterpretation',
           'GeobodyBoundaryInterpretation', 'GeobodyInterpretation', 'WellboreInterpretation', 'Crs', 'TimeSeries',
           'GeologicTimeSeries', 'StringLookup', 'PropertyKind']


NO_REUSE_ARG = ()


def warm(tier):
    from mc.props import c10, c05
    c05.warm(tier)
    c10.warm(tier)


# ---- generic comparison -------------------------------------------------------------------------------------------
def image(m, u):
    """Uuid (int) in the target of the source object, or None."""
    if u in m.uuid_part_dict:
        return u
    seen = set()
    while m.consolidation is not None and u in m.consolidation.map and u not in seen:
        seen.add(u)
        u = m.consolidation.map[u]
    return u if u in m.uuid_part_dict else None


def verify(m, before, src, merged, what, copied = None):
    """m: target after copying;  before: snapshot of the target before;  src: snapshot of the source;  merged: source uuid ->
    resident uuid expected;  copied: source uuids expected to be represented (default: all)."""
    copied = set(src) if copied is None else copied
    expected = set(before) | {u for u in copied if u not in merged}
    got = {u.int for u in m.uuids()}
    expect(got == expected, what, ': extra', [m.part_for_uuid(pyuuid.UUID(int = u)) for u in got - expected], 'missing',
           [(src.get(u) or before.get(u))[0] for u in expected - got])
    f = {u: merged.get(u, u) for u in copied}
    for u in copied:
        expect(image(m, u) == f[u], what, ':', src[u][0], 'is represented by', image(m, u))
        if u in merged or u in before:
            continue
        uu = pyuuid.UUID(int = u)
        refs = {x for x in c05.refs_of(m, uu) if not c05.is_ext(m, x)}
        expect(refs == {f[x] for x in src[u][3]}, what, ': references of', src[u][0])
        for n in m.root_for_uuid(uu).iter():
            if rq.local(n.tag) == 'UUID' and n.getparent() is not None and rq.local(n.getparent().tag) != 'HdfProxy':
                r = pyuuid.UUID(n.text).int
                expect(r in expected, what, ': reference in the xml of', src[u][0], 'to an object that is not in the model')
                expect(r in refs, what, ': xml reference of', src[u][0], 'disagrees with relationships')
        expect(sorted(pyuuid.UUID(n.text).int for n in m.root_for_uuid(uu).iter() if rq.local(n.tag) == 'UUID' and
                      rq.local(n.getparent().tag) != 'HdfProxy') == sorted(f[x] for x in src_refs(src, u)), what,
               ': xml references of', src[u][0])
    for u in copied:
        for x in src[u][5]:
            if x in copied and f[x] != f[u] and not (u in before and x in before):
                a, b = pyuuid.UUID(int = f[u]), f[x]
                expect(b in (m.uuids_as_int_related_to_uuid(a) or ()), what, ': soft relationship between', src[u][0], 'and',
                       src[x][0], 'lost')
    m.check_catalogue_dictionaries()
    if m.consolidation is not None:
        m.consolidation.check_map_integrity()
    return f


def src_refs(src, u):
    """Uuids referred to by the xml of a source object, with repetition."""
    out = []

    def walk(c):
        if c[0] == 'HdfProxy':
            return
        for ch in c[3]:
            if ch[0] == 'UUID':
                out.append(pyuuid.UUID(ch[1]).int)
            walk(ch)

    walk(src[u][2])
    return out


def residents_unchanged(m, h5, before, what):
    now = c05.snapshot(m, h5)
    for u in before:
        expect(now[u][:4] == before[u][:4], what, ': resident changed', before[u][0])
        expect(before[u][5] <= now[u][5], what, ': resident lost a relationship', before[u][0])


# ---- pairs --------------------------------------------------------------------------------------------------------
def _pairs(ctx, name):
    sp = objs.SPECS[name]
    for c in sp.choices(1):
        ctx.run((name, {a: v for a, v in c.items() if objs.freeze(v) != objs.freeze(sp.base[a])}), _pair_case, ctx, sp, c)


def _pair_case(ctx, sp, c):
    for d in sp.choices(1):
        if c.get('occurred') or d.get('occurred'):
            if c.get('occurred') != d.get('occurred'):
                continue
        pa, pb = ctx.path('a.epc'), ctx.path('b.epc')
        a, b = rq.new_model(pa, h5 = True), rq.new_model(pb, h5 = True)
        for p in (pa, pb):
            c05.open_h5(None, p)
        oa, ob = sp.make(a, c), sp.make(b, d)
        oa.create_xml()
        ob.create_xml()
        n = len(a.parts())
        u = a.copy_uuid_from_other_model(b, ob.uuid, consolidate = True)
        want = sp.equivalent(c, d) and not c.get('occurred')
        what = (sp.name, c, 'then', d)
        expect(u is not None and (str(u) == str(oa.uuid)) is want and (str(u) == str(ob.uuid)) is (not want), what, ': returned',
               'resident' if str(u) == str(oa.uuid) else 'immigrant' if str(u) == str(ob.uuid) else u)
        t = a.type_of_uuid(oa.uuid)
        same_type = a.type_of_uuid(u) == t
        expect(len(a.uuids(obj_type = t[4:])) == (1 if want or not same_type else 2), what, ': objects after copying',
               len(a.uuids(obj_type = t[4:])))
        if want:
            expect(len(a.parts()) == n, what, ': parts added', len(a.parts()) - n)
            expect(a.consolidation.map[ob.uuid.int] == oa.uuid.int, 'consolidation map')
            expect(a.copy_uuid_from_other_model(b, ob.uuid).int == oa.uuid.int, 'second copy')
        a.check_catalogue_dictionaries()
        a.consolidation.check_map_integrity()
        ctx.step()
        ctx.outcome((sp.name, want))
    ctx.state((sp.name, sorted((k, repr(v)) for k, v in c.items())))


def _crowd(ctx, name):
    sp = objs.SPECS[name]
    for i in range(len(sp.choices(1))):
        for present in (False, True):
            for rev in (False, True):
                ctx.run((name, i, present, rev), _crowd_case, ctx, sp, i, present, rev)


def _crowd_case(ctx, sp, i, present, rev):
    """Residents of all choices at once (in either order, with or without that of the immigrant)."""
    cs = [c for c in sp.choices(1) if not c.get('occurred')]
    if i >= len(cs):
        return
    pa, pb = ctx.path('a.epc'), ctx.path('b.epc')
    a, b = rq.new_model(pa, h5 = True), rq.new_model(pb, h5 = True)
    for p in (pa, pb):
        c05.open_h5(None, p)
    residents = [(c, sp.make(a, c)) for j, c in list(enumerate(cs))[::-1 if rev else 1] if j != i or present]
    for _, o in residents:
        o.create_xml(**({} if sp.name in NO_REUSE_ARG else dict(reuse = False)))
    o = sp.make(b, cs[i])
    o.create_xml()
    u = a.copy_uuid_from_other_model(b, o.uuid, consolidate = True)
    equal = [str(r.uuid) for c, r in residents if sp.equivalent(c, cs[i])]
    if equal:
        expect(str(u) in equal, sp.name, cs[i], ': among', len(residents), 'residents was not merged with any of', len(equal))
    else:
        expect(str(u) == str(o.uuid), sp.name, cs[i], ': merged although none of', len(residents), 'residents is equivalent')
    ctx.step()
    ctx.state((sp.name, i, present, rev))
    ctx.outcome((sp.name, 'crowd', bool(equal)))


# ---- population ---------------------------------------------------------------------------------------------------
PARENTS = dict(i = 'f', r = 'b', e = 'o')
SHARED = 'cfiklbrtoe'


def make(m, names, alter = None):
    """Creates the named consolidatable objects (and what they refer to); alter: name of one made with a difference."""
    import resqpy.crs as rqc
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.time_series as rqts
    z = {}

    def x(n, *v):
        return v[1] if n == alter else v[0]

    if 'c' in names:
        z['c'] = rqc.Crs(m, title = 'c', x_offset = x('c', 10.0, 11.0), z_inc_down = False)
    if 'f' in names or 'i' in names:
        z['f'] = rqo.TectonicBoundaryFeature(m, kind = x('f', 'fault', 'fracture'), feature_name = 'f')
    if 'i' in names:
        z['f'].create_xml()
        z['i'] = rqo.FaultInterpretation(m, title = 'i', tectonic_boundary_feature = z['f'], is_normal = True,
                                         maximum_throw = x('i', None, 5.0))
    if 'k' in names:
        z['k'] = rqp.PropertyKind(m, title = 'k', example_uom = 'm', parent_property_kind = x('k', 'continuous', 'length'))
    if 'l' in names:
        z['l'] = rqp.StringLookup(m, int_to_str_dict = {0: 'u', 1: x('l', 'v', 'w')}, title = 'l')
    if 't' in names:
        z['t'] = rqts.TimeSeries(m, first_timestamp = x('t', '2000-01-01T00:00:00Z', '2000-01-02T00:00:00Z'), yearly = 2, title = 't')
    if 'b' in names or 'r' in names:
        z['b'] = rqo.FluidBoundaryFeature(m, kind = x('b', 'gas oil contact', 'water oil contact'), feature_name = 'b')
    if 'r' in names:
        z['b'].create_xml()
        z['r'] = rqo.RockFluidUnitFeature(m, phase = x('r', 'oil column', 'aquifer'), feature_name = 'r', top_boundary_feature = z['b'],
                                          base_boundary_feature = z['b'])
    if 'o' in names or 'e' in names:
        z['o'] = rqo.OrganizationFeature(m, feature_name = 'o', organization_kind = x('o', 'earth model', 'fluid'))
    if 'e' in names:
        z['o'].create_xml()
        z['e'] = rqo.EarthModelInterpretation(m, title = 'e', organization_feature = z['o'], domain = x('e', 'depth', 'mixed'))
    for o in z.values():
        o.create_xml()
    return {n: o.uuid for n, o in z.items()}


def source(ctx, name = 's.epc', tag = ''):
    import resqpy.lines as rql
    import resqpy.organize as rqo
    import resqpy.property as rqp
    import resqpy.surface as rqs
    path = ctx.path(name)
    m = rq.new_model(path, h5 = True)
    z = make(m, SHARED)
    a = rql.Polyline(m, set_coord = np.arange(9.0).reshape((3, 3)), set_crs = z['c'], is_closed = True, title = 'a' + tag,
                     rep_int_root = m.root_for_uuid(z['i']))
    a.write_hdf5()
    a.create_xml()
    s = rqs.PointSet(m, points_array = np.arange(6.0).reshape((2, 3)), crs_uuid = z['c'], title = 's' + tag)
    s.write_hdf5()
    s.create_xml()
    p = rqp.Property.from_array(m, np.array([1.5, 2.5]), 'src', 'p' + tag, s.uuid, local_property_kind_uuid = z['k'],
                                property_kind = 'k', uom = 'm', indexable_element = 'nodes', time_series_uuid = z['t'],
                                time_index = 1)
    q = rqp.Property.from_array(m, np.array([1, 0]), 'src', 'q' + tag, s.uuid, property_kind = 'discrete', discrete = True,
                                indexable_element = 'nodes', string_lookup_uuid = z['l'])
    # a part that is not consolidatable, with two references to shared objects
    r2 = rqo.RockFluidUnitFeature(m, phase = 'seal', feature_name = 'r2' + tag,
                                  top_boundary_feature = rqo.FluidBoundaryFeature(m, uuid = z['b']),
                                  base_boundary_feature = rqo.FluidBoundaryFeature(m, uuid = z['b']))
    r2.create_xml(reuse = False)
    soft = [('f', 't'), ('r', a.uuid), ('l', 'i'), ('o', s.uuid), ('c', 'k')]
    for x, y in soft:
        m.create_reciprocal_relationship(m.root_for_uuid(z.get(x, x)), 'destinationObject', m.root_for_uuid(z.get(y, y)),
                                         'sourceObject')
    z.update(a = a.uuid, s = s.uuid, p = p.uuid, q = q.uuid, w = r2.uuid)
    m.store_epc()
    m.h5_release()
    q = rq.open_model(path)
    return dict(m = q, path = path, u = z, snap = c05.snapshot(q, path[:-4] + '.h5'))


def closed(names):
    return all(PARENTS[n] in names for n in names if n in PARENTS)


def target(ctx, names, alter = None, name = 't.epc'):
    path = ctx.path(name)
    m = rq.new_model(path, h5 = True)
    z = make(m, names, alter)
    c05.open_h5(m, path)
    return m, path, z, c05.snapshot(m, path[:-4] + '.h5')


def expected_merge(s, z, alter):
    """Source uuid -> resident uuid for the objects that have an equivalent resident."""
    out = {}
    for n, u in z.items():
        if alter is not None and (n == alter or PARENTS.get(n) == alter):
            continue
        out[s['u'][n].int] = u.int
    return out


def with_source(ctx, fn):
    s = source(ctx)
    keep = list(ctx._dirs)
    ctx._dirs = []
    fn(s)
    import shutil
    for d in keep:
        shutil.rmtree(d, ignore_errors = True)


def subsets():
    return [''.join(c) for k in range(len(SHARED) + 1) for c in itertools.combinations(SHARED, k) if closed(c)]


def _subsets(ctx, part, parts, thorough):

    def go(s):
        for i, names in enumerate(subsets()):
            if i % parts == part:
                ctx.run((names, ''), _subset_case, ctx, s, names, None)
                for alter in names if thorough or len(names) in (1, 2, 9, 10) else '':
                    ctx.run((names, alter), _subset_case, ctx, s, names, alter)

    with_source(ctx, go)


def _subset_case(ctx, s, names, alter):
    m, path, z, before = target(ctx, names, alter)
    merged = expected_merge(s, z, alter)
    m.copy_all_parts_from_other_model(s['m'])
    verify(m, before, s['snap'], merged, 'copy of everything')
    m.copy_all_parts_from_other_model(s['m'])
    verify(m, before, s['snap'], merged, 'copy of everything, twice')
    m.store_epc()
    m.h5_release()
    q = rq.open_model(path)
    q.consolidation = m.consolidation
    verify(q, before, s['snap'], merged, 're-opened')
    residents_unchanged(q, path[:-4] + '.h5', before, 're-opened')
    q.h5_release()
    # and without consolidation everything is copied
    m, path, z, before = target(ctx, names, alter, 'u.epc')
    m.copy_all_parts_from_other_model(s['m'], consolidate = False)
    verify(m, before, s['snap'], {}, 'without consolidation')
    ctx.step(3)
    ctx.state((names, alter))


ORDER = 'aspqwe'


def _orders(ctx, names, depth):

    def go(s):
        for seq in itertools.permutations(ORDER, depth):
            ctx.run((names, seq), _order_case, ctx, s, names, seq)

    with_source(ctx, go)


def _order_case(ctx, s, names, seq):
    m, path, z, before = target(ctx, names)
    merged = expected_merge(s, z, None)
    done = set()
    for x in seq:
        u = m.copy_uuid_from_other_model(s['m'], s['u'][x])
        expect(u.int == merged.get(s['u'][x].int, s['u'][x].int), 'copy of', x, 'returned', u)
        # what is referred to by a merged object is not needed
        todo = [s['u'][x].int]
        while todo:
            y = todo.pop()
            if y in done:
                continue
            done.add(y)
            if y not in merged:
                todo += s['snap'][y][3]
        verify(m, before, {k: v[:5] + ({w for w in v[5] if w in done},) + v[6:] for k, v in s['snap'].items()},
               merged, ('after', x), done)
        ctx.step()
    m.copy_all_parts_from_other_model(s['m'])
    verify(m, before, s['snap'], merged, 'finally')
    ctx.state((names, seq))


def _chain(ctx):
    for names in ('', 'c', 'fi', 'cfiklbrtoe', 'br', 'klt'):
        for swap in (False, True):
            ctx.run((names, swap), _chain_case, ctx, names, swap)


def _chain_case(ctx, names, swap):
    b, c = source(ctx, 'b.epc', ' of b'), source(ctx, 'c.epc', ' of c')
    if swap:
        b, c = c, b
    m, path, z, before = target(ctx, names)
    m.copy_all_parts_from_other_model(b['m'])
    merged = expected_merge(b, z, None)
    verify(m, before, b['snap'], merged, 'first source')
    h5 = path[:-4] + '.h5'
    mid = c05.snapshot(m, h5)
    m.copy_all_parts_from_other_model(c['m'])
    merged2 = {c['u'][n].int: merged.get(b['u'][n].int, b['u'][n].int) for n in SHARED}
    verify(m, mid, c['snap'], merged2, 'second source')
    residents_unchanged(m, h5, mid, 'second source')
    m.store_epc()
    q = rq.open_model(path)
    q.consolidation = m.consolidation
    verify(q, mid, c['snap'], merged2, 're-opened')
    # a model consolidated with a copy of itself is unchanged
    n = len(q.parts())
    q.copy_all_parts_from_other_model(rq.open_model(b['path']))
    expect(len(q.parts()) == n, 'a third copy added parts')
    ctx.step(4)
    ctx.state((names, swap))


def _forced(ctx):
    for x, y in itertools.product('fbko', repeat = 2):
        for form in ('uuid', 'str', 'part', 'int', 'model'):
            ctx.run((x, y, form), _forced_case, ctx, x, y, form)
    for x in 'fiboe':
        for extra in (False, True):
            ctx.run(('class', x, extra), _class_case, ctx, x, extra)
    for cut in ('c', 'i', 'k', 't', 'l', 'b'):
        ctx.run(('cut', cut), _cut_case, ctx, cut)


def _forced_case(ctx, x, y, form):
    """An object of the source is declared equivalent to a (different) resident one before copying what refers to it."""
    import resqpy.olio.consolidation as cons
    s = source(ctx)
    # residents differ from the source objects in name, so that they are not equivalent by themselves
    m, path, z, before = target(ctx, x, x)
    imm, res = s['u'][x], z[x]
    m.consolidation = cons.Consolidation(m)
    if form == 'uuid':
        m.consolidation.force_uuid_equivalence(imm, res)
    elif form == 'str':
        m.consolidation.force_uuid_equivalence(str(imm), str(res))
    elif form == 'int':
        m.consolidation.force_uuid_int_equivalence(imm.int, res.int)
    elif form == 'part':
        m.consolidation.force_part_equivalence(s['m'].part_for_uuid(imm), m.part_for_uuid(res))
    else:
        m.consolidation = None
        m.force_consolidation_uuid_equivalence(imm, res)
    m.consolidation.force_uuid_equivalence(res, res)
    expect(m.consolidation.map == {imm.int: res.int}, 'map', m.consolidation.map)
    bad = rq.raises(m.consolidation.force_uuid_equivalence, res, pyuuid.uuid4())
    expect(bad is not None and m.consolidation.map == {imm.int: res.int}, 'a resident was itself mapped to another object')
    m.copy_all_parts_from_other_model(s['m'])
    verify(m, before, s['snap'], {imm.int: res.int}, 'after forced equivalence')
    ctx.step()
    ctx.state((x, y, form))


def _class_case(ctx, x, extra):
    """Equivalence forced for all objects of a class which differ in extra metadata only; reference nodes follow."""
    import resqpy.organize as rqo
    s = source(ctx)
    cls = dict(f = rqo.TectonicBoundaryFeature, i = rqo.FaultInterpretation, b = rqo.FluidBoundaryFeature,
               o = rqo.OrganizationFeature, e = rqo.EarthModelInterpretation)[x]
    names = x + PARENTS.get(x, '')
    m, path, z, before = target(ctx, names)
    if extra:
        m.parts_forest  # extra metadata differs from that of the source object
        node = m.root_for_uuid(z[x])
        import resqpy.olio.xml_et as rqet
        rqet.create_metadata_xml(node, {'k': 'v'})
        before = c05.snapshot(m, path[:-4] + '.h5')
    m.force_consolidation_equivalence_for_class_ignoring_extra_metadata(s['m'], cls)
    imm, res = s['u'][x], z[x]
    expect(m.consolidation is not None and m.consolidation.map == {imm.int: res.int}, 'map')
    ref = m.create_ref_node(m.type_of_uuid(res, strip_obj = True), 'title', imm)
    node = m.referenced_node(ref, consolidate = True)
    expect(node is m.root_for_uuid(res) and ref.find('{*}UUID').text == str(res), 'node for consolidated reference')
    m.copy_all_parts_from_other_model(s['m'])
    verify(m, before, s['snap'], expected_merge(s, z, None), 'after forced equivalence of class')
    ctx.step(3)
    ctx.state(('class', x, extra))


def _cut_case(ctx, cut):
    """References which are cut do not disturb consolidation of what is cut."""
    s = source(ctx)
    m, path, z, before = target(ctx, SHARED)
    for x in ('a', 'p', 'q', 'w'):
        u = m.copy_uuid_from_other_model(s['m'], s['u'][x], cut_refs_to_uuids = [s['u'][cut]])
        expect(u is not None, 'copy of', x)
        refs = {x for x in c05.refs_of(m, u) if not c05.is_ext(m, x)}
        merged = expected_merge(s, z, None)
        want = {merged.get(y, y) for y in s['snap'][u.int][3] if y != s['u'][cut].int}
        xml = {pyuuid.UUID(n.text).int for n in m.root_for_uuid(u).iter()
               if rq.local(n.tag) == 'UUID' and rq.local(n.getparent().tag) != 'HdfProxy'}
        expect(xml == want, 'references of', x, 'after cutting those to', cut)
        expect(refs == want, 'relationships of', x, 'after cutting those to', cut)
    ctx.step(4)
    ctx.state(('cut', cut))


def jobs(tier):
    t = tier == 'thorough'
    js = [(f'pairs:{c}', _pairs, dict(name = c)) for c in CLASSES]
    js += [(f'crowd:{c}', _crowd, dict(name = c)) for c in CLASSES]
    js += [(f'subsets:{i}', _subsets, dict(part = i, parts = 16, thorough = t)) for i in range(16)]
    for names in ['', 'c', 'fi', 'br', SHARED] + (['klt', 'f', 'b', 'oe', 'cfi', 'cfib', 'lt'] if t else []):
        js.append((f'orders:{names}', _orders, dict(names = names, depth = 6 if t else 4)))
    js.append(('chain', _chain, {}))
    js.append(('forced', _forced, {}))
    return js
