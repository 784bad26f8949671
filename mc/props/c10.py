"""C10: a metadata object read back from the model has the attributes it was created with.

(specs) every metadata class x every choice of attributes differing from a base in up to two attributes: written, read back
in the same model, after storing and re-opening, and by a second generation (the re-read object written into another
model);  (columns) stratigraphic columns over all small structures of ranks, units and contacts;  (lookup) every history of
operations on a string lookup table against a dictionary."""

import itertools

from mc import objs, rq
from mc.core import expect

ID = 'C10'
TITLE = 'metadata objects keep their attributes'
BOUNDS = {
    'quick': '26 classes x all choices differing from the base in up to 2 attributes (values per attribute 2 to 10), 3 generations; '
             'columns of up to 3 ranks of up to 3 units with all contact options; all lookup histories of up to 3 operations '
             'over 6 initial tables',
    'thorough': 'choices differing in up to 3 attributes; lookup histories of 4 operations'
}


def warm(tier):
    import resqpy.model, resqpy.organize, resqpy.crs, resqpy.property, resqpy.strata, resqpy.time_series, resqpy.well  # noqa


def check(sp, o, c, what):
    got = sp.read(o)
    for a, v in c.items():
        w = sp_expected(sp, a, v, c)
        if w is SKIP:
            continue
        g = got[a]
        ok = objs.freeze(g) == objs.freeze(w) and (not isinstance(w, (bool, type(None))) or g is w)
        if isinstance(w, float) and not isinstance(g, bool):
            ok = g is not None and abs(g - w) < 1.0e-9
        expect(ok, what, ':', sp.name, a, 'is', repr(g), 'expected', repr(w))


SKIP = object()


def sp_expected(sp, a, v, c):
    if a == 'thickness_uom' and c['min_thickness'] is None and c['max_thickness'] is None:
        return SKIP  # nowhere to be written
    return v


def _spec(ctx, name, changes):
    sp = objs.SPECS[name]
    for part in rq.chunks(sp.choices(changes), max(1, len(sp.choices(changes)) // 60 + 1)):
        ctx.run((name, [diff(sp, c) for c in part[:1]], len(part)), _spec_case, ctx, sp, part)


def diff(sp, c):
    return {a: v for a, v in c.items() if objs.freeze(v) != objs.freeze(sp.base[a])}


def _spec_case(ctx, sp, part):
    path = ctx.path()
    m = rq.new_model(path)
    us = []
    for c in part:
        o = sp.make(m, c)
        check(sp, o, c, 'before writing')
        n = len(m.parts())
        node = create(o)
        expect(node is not None and node is m.root_for_uuid(o.uuid), 'node returned by create_xml()')
        expect(len(m.parts()) == n + 1, 'parts added by create_xml()', len(m.parts()) - n)
        expect(m.type_of_uuid(o.uuid, strip_obj = True) == sp_type(sp, c), 'type of part', m.type_of_uuid(o.uuid))
        check(sp, o, c, 'after writing')
        us.append(o.uuid)
        ctx.step()
    for u, c in zip(us, part):
        check(sp, objs.load(m, sp, u), c, 'read back')
    m.store_epc()
    q = rq.open_model(path)
    again = []
    for u, c in zip(us, part):
        o = objs.load(q, sp, u)
        check(sp, o, c, 're-opened')
        expect(o.title == m.title(uuid = u), 'title', o.title)
        again.append(o)
        ctx.step()
        ctx.state((sp.name, sorted((k, repr(v)) for k, v in c.items())))
    # second generation: the re-read objects written anew
    for o, c in zip(again, part):
        import resqpy.olio.uuid as bu
        o.uuid = bu.new_uuid()
        create(o)
        check(sp, objs.load(q, sp, o.uuid), c, 'second generation')
        ctx.step()


def create(o):
    import resqpy.well as rqw
    return o.create_xml() if isinstance(o, rqw.MdDatum) else o.create_xml(reuse = False)


def sp_type(sp, c):
    if sp.name == 'Crs':
        return 'LocalDepth3dCrs' if c['time_units'] is None else 'LocalTime3dCrs'
    return sp.type


# ---- stratigraphic columns ----------------------------------------------------------------------------------------
MODES = (None, 'baselap', 'erosion', 'extended', 'proportional')


def _columns(ctx):
    for ranks in range(1, 4):
        for units in itertools.product((1, 2, 3), repeat = ranks):
            for domain in ('depth', 'time'):
                ctx.run((units, domain), _column, ctx, units, domain)
    for older, younger in itertools.product(MODES, MODES):
        ctx.run(('contacts', older, younger), _contacts, ctx, older, younger)


def strata_model(ctx, n = 3):
    import resqpy.organize as rqo
    import resqpy.strata as rqst
    path = ctx.path()
    m = rq.new_model(path)
    of = objs.made(rqo.OrganizationFeature(m, feature_name = 'o', organization_kind = 'stratigraphic'))
    units, horizons = [], []
    for i in range(n):
        f = objs.made(rqst.StratigraphicUnitFeature(m, title = f'unit {i}'))
        units.append(objs.made(rqst.StratigraphicUnitInterpretation(m, title = f'unit {i}', stratigraphic_unit_feature = f)))
        h = objs.made(rqo.GeneticBoundaryFeature(m, kind = 'horizon', feature_name = f'horizon {i}'))
        horizons.append(objs.made(rqo.HorizonInterpretation(m, title = f'horizon {i}', genetic_boundary_feature = h)))
    return m, path, of, units, horizons


def _column(ctx, units, domain):
    import resqpy.strata as rqst
    m, path, of, us, hs = strata_model(ctx)
    expected = []
    for order in (range(len(units)), reversed(range(len(units)))):
        ranks = {}
        for i in order:
            seq = [us[(i + k) % 3].uuid for k in range(units[i])]
            r = rqst.StratigraphicColumnRank(m, rank_index = i, domain = domain, earth_model_feature_uuid = of.uuid,
                                             strata_uuid_list = seq, title = f'rank {i}')
            r.set_contacts_from_horizons([h.uuid for h in hs[:units[i] - 1]])
            r.create_xml(reuse = False)
            ranks[i] = (r.uuid, seq)
        c = rqst.StratigraphicColumn(m, rank_uuid_list = [ranks[i][0] for i in ranks], title = 'col')
        c.create_xml(reuse = False)
        expected.append((c.uuid, ranks))
    m.store_epc()
    for mm in (m, rq.open_model(path)):
        for cu, ranks in expected:
            c = rqst.StratigraphicColumn(mm, uuid = cu)
            expect([str(r.uuid) for r in c.iter_ranks()] == [str(ranks[i][0]) for i in sorted(ranks)], 'ranks of column')
            for i, r in enumerate(c.iter_ranks()):
                expect(r.index == i and r.domain == domain and r.title == f'rank {i}', 'rank', r.index, r.domain, r.title)
                expect([str(u.uuid) for u in r.iter_units()] == [str(x) for x in ranks[i][1]], 'units of rank')
                expect(str(r.feature_uuid) == str(of.uuid), 'feature of rank')
                for k, x in enumerate(ranks[i][1]):
                    expect(str(r.unit_for_unit_index(k).uuid) == str(x), 'unit for index')
                expect(r.unit_for_unit_index(len(ranks[i][1])) is None, 'unit for index beyond')
                cs = list(r.iter_contacts())
                expect([x.index for x in cs] == list(range(units[i] - 1)), 'contact indices')
                for k, x in enumerate(cs):
                    expect(str(x.subject_uuid) == str(ranks[i][1][k]) and str(x.direct_object_uuid) == str(ranks[i][1][k + 1]) and
                           str(x.part_of_uuid) == str(hs[k].uuid), 'contact', k)
            ctx.step()
    ctx.state((units, domain))


def _contacts(ctx, older, younger):
    import resqpy.strata as rqst
    m, path, of, us, hs = strata_model(ctx)
    r = rqst.StratigraphicColumnRank(m, rank_index = 0, earth_model_feature_uuid = of.uuid,
                                     strata_uuid_list = [u.uuid for u in us], title = 'r')
    r.set_contacts_from_horizons([hs[0].uuid, hs[1].uuid], older_contact_mode = older, younger_contact_mode = younger)
    r.create_xml()
    m.store_epc()
    for mm in (m, rq.open_model(path)):
        cs = list(rqst.StratigraphicColumnRank(mm, uuid = r.uuid).iter_contacts())
        expect(len(cs) == 2, 'contacts', len(cs))
        for c in cs:
            expect(c.subject_contact_mode == older and c.direct_object_contact_mode == younger, 'contact modes',
                   c.subject_contact_mode, c.direct_object_contact_mode)
            expect(c.subject_contact_side == 'older' and c.direct_object_contact_side == 'younger', 'contact sides')
            expect(c.contact_relationship == 'stratigraphic unit to stratigraphic unit' and c.verb == 'stops at', 'contact kind')
        ctx.step()
    ctx.state((older, younger))


# ---- string lookup ------------------------------------------------------------------------------------------------
TABLES = [{}, {0: 'a', 1: 'b'}, {0: 'a', 3: 'b'}, {5: 'a'}, {-1: 'a', 1: 'b'}, {0: 'a', 70: 'b'}]
SETS = [(0, 'x'), (1, 'x'), (2, 'x'), (3, 'y'), (60, 'y'), (-3, 'z'), (70, 'w')]


def _lookups(ctx, table, depth):
    for k in range(depth + 1):
        for ops in itertools.product(range(len(SETS)), repeat = k):
            ctx.run((table, ops), _lookup, ctx, TABLES[table], [SETS[i] for i in ops])


def _lookup(ctx, table, ops):
    import resqpy.property as rqp
    m = rq.new_model(ctx.path())
    o = rqp.StringLookup(m, int_to_str_dict = dict(table) or None, title = 't')
    ref = dict(table)
    agree(o, ref)
    for k, v in ops:
        o.set_string(k, v)
        ref[k] = v
        agree(o, ref)
        ctx.step()
    if ref:
        o.create_xml()
        agree(rqp.StringLookup(m, uuid = o.uuid), ref)
    ctx.state(tuple(sorted(ref.items())))


def agree(o, ref):
    expect(o.as_dict() == ref, 'as_dict', o.as_dict(), ref)
    for k in range(-4, 73):
        expect(o.get_string(k) == ref.get(k), 'get_string', k, o.get_string(k), ref.get(k))
    for s in ['a', 'b', 'x', 'y', 'z', 'w', 'none']:
        got = o.get_index_for_string(s)
        want = {k for k, v in ref.items() if v == s}
        expect((got is None and not want) or got in want, 'get_index_for_string', s, got, want)


def jobs(tier):
    n = 3 if tier == 'thorough' else 2
    js = [(f'spec:{s}', _spec, dict(name = s, changes = n)) for s in objs.SPECS]
    js.append(('columns', _columns, {}))
    js += [(f'lookup:{i}', _lookups, dict(table = i, depth = 4 if n == 3 else 3)) for i in range(len(TABLES))]
    return js
