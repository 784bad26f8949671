"""C28: frames, markers and logs along a well hold what they were given.

All short patterns of measured depths, sequences of markers and collections of logs on the real code, each compared with
the rows and curves given, before storage, after, and by way of data frames and LAS text."""

import io
import itertools

import numpy as np

from mc import rq
from mc.core import about, expect

ID = 'C28'
TITLE = 'Frames, markers and logs along a well hold what they were given'
BOUNDS = dict(quick = 'all increasing sequences of 2-5 of 6 depths x all half steps; all sequences of up to 2 of 9 markers x 5 kinds of table; all sequences of up to 3 of 6 curves',
              thorough = 'all increasing sequences of 2-7 of 7 depths x all quarter steps; all sequences of up to 3 of 10 markers x 5 kinds of table; all sequences of up to 3 of 7 curves')

FT = 0.3048


def well(m, name = 'W', interp = True, uom = 'm', crs = None):
    """A straight deviated well from md 0 to 400."""
    import pandas as pd
    import resqpy.organize as rqo
    from resqpy.well import MdDatum, Trajectory
    crs = crs or rq.add_crs(m)
    d = MdDatum(m, crs_uuid = crs.uuid, location = (10.0, 20.0, 0.0), md_reference = 'kelly bushing')
    d.create_xml()
    i = None
    if interp:
        f = rqo.WellboreFeature(m, feature_name = name)
        f.create_xml()
        i = rqo.WellboreInterpretation(m, wellbore_feature = f, is_drilled = True)
        i.create_xml()
    md = np.array([0.0, 100.0, 250.0, 400.0])
    t = Trajectory(m, md_datum = d, data_frame = pd.DataFrame(dict(MD = md, X = 10.0 + 0.6 * md, Y = np.full(4, 20.0), Z = 0.8 * md)), length_uom = uom,
                   represented_interp = i, well_name = name)
    t.write_hdf5()
    t.create_xml(title = name)
    return t


def at(md):
    return np.array((10.0 + 0.6 * md, 20.0, 0.8 * md))


# frames

MDS = (0.0, 50.0, 75.5, 100.0, 300.25, 400.0, 500.0)


def frame_case(ctx, mds, interp, kind):
    from resqpy.well import WellboreFrame
    path = ctx.path('w.epc')
    m = rq.new_model(path, h5 = True)
    t = well(m, interp = interp)
    given = {'array': lambda: np.array(mds), 'list': lambda: list(mds), 'tuple': lambda: tuple(mds), 'int': lambda: np.array(mds)}[kind]()
    ri = t.wellbore_interpretation if interp else None
    f = WellboreFrame(m, trajectory = t, mds = given, represented_interp = ri, title = 'f', extra_metadata = {'a': 'b'})
    o = WellboreFrame(m, trajectory = t, mds = np.array((1.0, 2.0, 3.0)), represented_interp = ri)
    if kind == 'list' and not interp:
        f.create_feature_and_interpretation()
    for x in (f, o):
        x.write_hdf5()
        x.create_xml()
    if kind == 'array':
        given[:] = 0.0

    def check(f):
        expect(f.node_count == len(mds) and rq.near(f.node_mds, mds, 1.0e-9), 'mds', f.node_mds)
        expect(str(f.trajectory.uuid) == str(t.uuid) and str(f.extract_crs_uuid()) == str(t.crs_uuid), 'trajectory')
        expect(f.title == 'f', 'title', f.title)
        ip = f.wellbore_interpretation
        if interp:
            expect(ip is not None and str(ip.uuid) == str(ri.uuid), 'interpretation', ip)
        elif kind == 'list':
            expect(ip is not None and ip.title == 'f', 'interpretation made', ip)
        else:
            expect(ip is None, 'interpretation', ip)
        step = 0.25 if ctx.tier == 'thorough' else 0.5
        for a, b in zip((mds[0] - 10.0,) + mds, mds + (mds[-1] + 10.0,)):
            for s in np.arange(0.0, 1.0, step):
                md = a + s * (b - a)
                n, fr = f.interval_for_md(md)
                if md < mds[0]:
                    expect((n, fr) == (-1, 0.0), 'above', md, n, fr)
                elif md > mds[-1]:
                    expect((n, fr) == (-1, 1.0), 'below', md, n, fr)
                else:
                    expect(0 <= n < len(mds) - 1 and 0.0 <= fr <= 1.0 and abs(mds[n] + fr * (mds[n + 1] - mds[n]) - md) < 1.0e-9, 'interval for', md, n, fr)
                ctx.step(1)
        n, fr = f.interval_for_md(mds[-1])
        expect(n == len(mds) - 2 and fr == 1.0, 'interval for last', n, fr)

    check(f)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    expect(len(m.uuids(obj_type = 'WellboreFrameRepresentation')) == 2, 'frames')
    expect(sorted(map(str, m.uuids(obj_type = 'WellboreFrameRepresentation', related_uuid = t.uuid))) == sorted((str(f.uuid), str(o.uuid))), 'related to trajectory')
    h = WellboreFrame(m, uuid = f.uuid)
    expect(h.extra_metadata == {'a': 'b'}, 'metadata', h.extra_metadata)
    check(h)
    expect(list(WellboreFrame(m, uuid = o.uuid).node_mds) == [1.0, 2.0, 3.0], 'other frame')
    ctx.state((mds, interp, kind))
    ctx.outcome((len(mds), interp))
    rq.close(m)


def frames(ctx, n):
    for mds in itertools.combinations(MDS[:7 if ctx.tier == 'thorough' else 6], n):
        for interp, kind in ((True, 'array'), (False, 'list'), (False, 'tuple')):
            ctx.run((mds, interp, kind), frame_case, ctx, mds, interp, kind)


# markers

ROWS = [('horizon', 'Top A', 'A'), ('horizon', 'Top B', 'B'), ('fault', 'F at well', 'A'), ('geobody', 'salt top', 'salt'), ('gas oil contact', 'GOC', None),
        ('water up to', 'WUT', None), ('Horizon', 'Top A again', 'A'), ('seal', 'S', None), ('FAULT', 'G cut', 'G'), ('geobody', 'salt base', 'salt')]
TYPES = {'horizon': 'HorizonInterpretation', 'fault': 'FaultInterpretation', 'geobody': 'GeobodyBoundaryInterpretation'}


def marker_case(ctx, rows, table, existing):
    import pandas as pd
    import resqpy.organize as rqo
    from resqpy.well import WellboreMarkerFrame
    path = ctx.path('w.epc')
    m = rq.new_model(path, h5 = True)
    t = well(m)
    had = {}
    for kind, name in existing:
        if kind == 'fault':
            x = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = name)
            x.create_xml()
            i = rqo.FaultInterpretation(m, tectonic_boundary_feature = x, is_normal = True)
        else:
            x = rqo.GeneticBoundaryFeature(m, kind = kind if kind == 'horizon' else 'geobody boundary', feature_name = name)
            x.create_xml()
            i = (rqo.HorizonInterpretation if kind == 'horizon' else rqo.GeobodyBoundaryInterpretation)(m, genetic_boundary_feature = x)
        i.create_xml()
        had[(kind, name)] = str(i.uuid)
    mds = [40.0 + 90.5 * n for n in range(len(rows))]
    d = dict(MD = mds, Boundary_Feature_Type = [r[0] for r in rows], Marker_Citation_Title = [r[1] for r in rows], Interp_Citation_Title = [r[2] for r in rows])
    index = list(range(len(rows)))
    args = dict()
    if table == 'names':
        d = dict(depth = d['MD'], kind = d['Boundary_Feature_Type'], marker = d['Marker_Citation_Title'], interp = d['Interp_Citation_Title'])
        args = dict(md_col = 'depth', boundary_feature_type_col = 'kind', marker_citation_title_col = 'marker', interp_citation_title_col = 'interp')
    elif table == 'no interp':
        d.pop('Interp_Citation_Title')
    elif table == 'index':
        index = [f'r{n}' for n in index]
    elif table == 'part':
        index = [3 * n + 1 for n in index][::-1]
    elif table == 'extra':
        d['MD2'] = [0.0] * len(rows)
        args = dict(title = 'picks', extra_metadata = {'from': 'core'})
    df = pd.DataFrame(d, index = index)
    before = df.copy()
    f = WellboreMarkerFrame.from_dataframe(m, t.uuid, df, **args)
    expect(df.equals(before), 'table changed', df)
    want_interp = [r[2] if table != 'no interp' else None for r in rows]

    def check(f, m):
        expect(f.node_count == len(rows) and rq.near(f.node_mds, mds, 1.0e-9), 'mds', f.node_mds)
        expect(f.title == ('picks' if table == 'extra' else f.title), 'title', f.title)
        df = f.dataframe()
        expect(list(df['MD']) == mds, 'MD column', list(df['MD']))
        expect(rq.near(df[['X', 'Y', 'Z']].to_numpy().reshape((-1, 3)), np.array([at(x) for x in mds]).reshape((-1, 3)), 1.0e-6), 'xyz', df)
        expect(list(df['Boundary_Feature_Type']) == [r[0].lower() for r in rows], 'kinds', list(df['Boundary_Feature_Type']))
        expect(list(df['Marker_Citation_Title']) == [r[1] for r in rows], 'titles', list(df['Marker_Citation_Title']))
        expect(list(df['Interp_Citation_Title']) == want_interp, 'interpretations', list(df['Interp_Citation_Title']))
        seen = {}
        for n, r in enumerate(rows):
            mk = f.find_marker_from_index(n)
            expect(mk is f.marker_list[n] and mk.marker_index == n and mk.title == r[1], 'marker', n, mk.title, mk.marker_index)
            u = mk.interpretation_uuid
            if want_interp[n] is None:
                expect(u is None, 'interpretation of marker', n)
                continue
            key = (r[0].lower(), r[2])
            expect(m.type_of_uuid(u, strip_obj = True) == TYPES[key[0]] and m.title(uuid = u) == r[2], 'interpretation of marker', n, m.type_of_uuid(u))
            expect(seen.setdefault(key, str(u)) == str(u), 'interpretation of marker', n, 'is not shared')
            if key in had:
                expect(str(u) == had[key], 'existing interpretation not used for marker', n)
            expect(f.find_marker_index_from_interp(u) == [(x[0].lower(), x[2]) for x in rows].index(key), 'marker for interpretation')
            expect(f.find_marker_index_from_interp(str(u)) == [(x[0].lower(), x[2]) for x in rows].index(key), 'marker for interpretation as string')
        expect(f.find_marker_from_index(len(rows)) is None, 'marker beyond end')
        expect(f.find_marker_index_from_interp(t.uuid) is None, 'marker for something else')
        kinds = {(r[0].lower(), r[2]) for r, w in zip(rows, want_interp) if w is not None} | set(had)
        for k, ty in TYPES.items():
            expect(sorted(m.titles(obj_type = ty)) == sorted(n for q, n in kinds if q == k), 'interpretations in model', ty, m.titles(obj_type = ty))
        ctx.step(1)

    check(f, m)
    f.write_hdf5()
    f.create_xml()
    check(f, m)
    g = WellboreMarkerFrame.from_dataframe(m, t.uuid, df, **args)  # again: nothing new is needed
    check(g, m)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    h = WellboreMarkerFrame(m, uuid = f.uuid)
    check(h, m)
    expect([str(x.uuid) for x in h.marker_list] == [str(x.uuid) for x in f.marker_list], 'marker uuids')
    if table == 'extra':
        expect(h.extra_metadata == {'from': 'core'}, 'metadata', h.extra_metadata)
    rel = set(map(str, m.uuids(related_uuid = f.uuid)))
    want = {str(t.uuid)} | {str(x.interpretation_uuid) for x in f.marker_list if x.interpretation_uuid is not None}
    expect(want <= rel, 'related', rel)
    # the table of one frame makes an equal frame
    k = WellboreMarkerFrame.from_dataframe(m, t.uuid, h.dataframe(), title = 'picks')
    check(k, m)
    ctx.state((tuple(rows), table, existing))
    ctx.outcome((tuple(r[0] for r in rows), table))
    rq.close(m)


def lacking_case(ctx, row):
    import pandas as pd
    from resqpy.well import WellboreMarkerFrame
    m = rq.new_model(ctx.path('w.epc'), h5 = True)
    t = well(m)
    df = pd.DataFrame(dict(MD = [50.0], Boundary_Feature_Type = [row[0]], Marker_Citation_Title = [row[1]], Interp_Citation_Title = [row[2]]))
    n = len(m.parts())
    e = rq.raises(WellboreMarkerFrame.from_dataframe, m, t.uuid, df, create_organizing_objects_where_needed = False)
    expect((e is not None) == (row[2] is not None), 'missing interpretation', e)
    expect(len(m.parts()) == n, 'parts made', m.parts())
    WellboreMarkerFrame.from_dataframe(m, t.uuid, df)
    e = rq.raises(WellboreMarkerFrame.from_dataframe, m, t.uuid, df, create_organizing_objects_where_needed = False)
    expect(e is None, 'existing interpretation', e)
    ctx.state(row)
    ctx.outcome(row[0])
    rq.close(m)


def markers(ctx, first, table):
    rows = ROWS if ctx.tier == 'thorough' else ROWS[:9]
    todo = [(ROWS[first],)] + [(ROWS[first], r) for r in rows]
    if ctx.tier == 'thorough':
        todo += [(ROWS[first], a, b) for a, b in itertools.product(rows[:8], repeat = 2)]
    else:
        todo += [(ROWS[first], ROWS[(first + 4) % 9], ROWS[(first + 7) % 9], ROWS[(first + 6) % 9])]
    for rs in todo:
        # titles within a frame are made different
        for ex in ((), (('horizon', 'A'), ('fault', 'G'), ('geobody', 'salt'))) if table in ('plain', 'names') else ((),):
            ctx.run((tuple(r[1] for r in rs), table, len(ex)), marker_case, ctx, rs, table, ex)


def lacking(ctx):
    for row in ROWS:
        ctx.run(row, lacking_case, ctx, row)


# logs

CURVES = [('GR', 'gAPI', (10.0, 55.5, np.nan, 80.25), False), ('PHI', 'm3/m3', (0.1, 0.2, 0.3, 0.15), False), ('DT', 'us/ft', (90.0, 80.0, 85.5, 100.125), False),
          ('FACIES', 'Euc', (1, 2, 1, 0), True), ('porosity', '%', (10.0, np.nan, np.nan, 12.5), False), ('RT', 'ohm.m', (0.5, 200.0, 1999.75, 3.0), False),
          ('TVD', 'ft', (0.0, 1.0, 2.0, 3.0), False)]
LMDS = (50.0, 60.5, 71.25, 300.0)


def units(u):
    import resqpy.weights_and_measures as wam
    return wam.rq_uom(u)


def check_logs(c, curves, mds, how, exact = True):
    tol = 1.0e-6 if exact else 1.0e-4
    logs = list(c.iter_logs())
    expect([x.title for x in logs] == [x[0] for x in curves] if how == 'in order' else sorted(x.title for x in logs) == sorted(x[0] for x in curves), 'logs', [x.title for x in logs])
    for x in logs:
        w = [y for y in curves if y[0] == x.title][0]
        expect(rq.same(np.asarray(x.values(), dtype = float), np.array(w[2], dtype = float), tol) if hasattr(rq, 'samenan') else
               np.allclose(np.asarray(x.values(), dtype = float), np.array(w[2], dtype = float), rtol = tol, atol = tol, equal_nan = True), 'values of', x.title, x.values())
        if not w[3]:
            expect(x.uom == units(w[1]), 'uom of', x.title, x.uom)
    for inc in (False, True):
        df = c.to_df(include_units = inc)
        expect(rq.near(np.array(df.index, dtype = float), mds, 1.0e-6), 'index', df.index)
        expect(len(df.columns) == len(curves), 'columns', df.columns)
        for w in curves:
            col = w[0] + (f' ({units(w[1])})' if inc and not w[3] else '')
            expect(col in df.columns or (w[3] and any(str(q).startswith(w[0]) for q in df.columns)), 'column', col, list(df.columns))
            if col in df.columns:
                expect(np.allclose(df[col].to_numpy(dtype = float), np.array(w[2], dtype = float), rtol = tol, atol = tol, equal_nan = True), 'column', col)


def check_las(las, curves, mds, md_uom, name):
    expect(str(las.well.WELL.value) == name, 'well in las', las.well.WELL.value)
    expect(rq.near(np.array(las.index, dtype = float), mds, 1.0e-4), 'depths in las', las.index)
    expect(units(las.curves[0].unit) == md_uom, 'depth unit in las', las.curves[0].unit)
    expect(sorted(c.mnemonic.upper() for c in las.curves[1:]) == sorted(c[0].upper() for c in curves), 'curves in las', [c.mnemonic for c in las.curves])
    for w in curves:
        q = [x for x in las.curves if x.mnemonic.upper() == w[0].upper()][0]
        expect(np.allclose(np.array(q.data, dtype = float), np.array(w[2], dtype = float), rtol = 1.0e-4, atol = 1.0e-4, equal_nan = True), 'curve in las', w[0], q.data)
        if not w[3]:
            expect(units(q.unit) == units(w[1]), 'unit in las', w[0], q.unit)


def log_case(ctx, curves, how, realization):
    from resqpy.property import WellLogCollection
    from resqpy.well import WellboreFrame
    path = ctx.path('w.epc')
    m = rq.new_model(path, h5 = True)
    t = well(m)
    f = WellboreFrame(m, trajectory = t, mds = np.array(LMDS), represented_interp = t.wellbore_interpretation, title = 'f')
    f.write_hdf5()
    f.create_xml()
    c = WellLogCollection(frame = f, realization = realization)
    for k, (title, unit, data, disc) in enumerate(curves):
        e = rq.raises(c.add_log, title, list(data) + [1.0], unit)
        expect(e is not None, 'log of another length taken')
        r = c.add_log(title, data if k % 2 else np.array(data), unit, discrete = disc, realization = realization, write = how != 'later')
        expect((r is None) == (how == 'later') and (r is None or len(r) == 1), 'uuids', r)
    if how == 'later':
        c.write_hdf5_for_imported_list()
        c.create_xml_for_imported_list_and_add_parts_to_model()
    check_logs(c, curves, LMDS, 'in order')
    las = c.to_las()
    check_las(las, curves, LMDS, 'm', t.wellbore_interpretation.title)
    if how == 'other':
        o = WellboreFrame(m, trajectory = t, mds = np.array((1.0, 2.0)), represented_interp = t.wellbore_interpretation, title = 'o')
        o.write_hdf5()
        o.create_xml()
        oc = WellLogCollection(frame = o)
        oc.add_log('GR', np.array((7.0, 8.0)), 'gAPI')
        expect(len(list(oc.iter_logs())) == 1 and len(list(c.iter_logs())) == len(curves), 'logs of other frame')
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    f = WellboreFrame(m, uuid = f.uuid)
    check_logs(f.logs, curves, LMDS, 'any')
    check_logs(f.extract_log_collection(), curves, LMDS, 'any')
    check_logs(f.extract_log_collection(refresh = True), curves, LMDS, 'any')
    check_logs(WellLogCollection(frame = f, realization = realization), curves, LMDS, 'any')
    if realization is not None:
        expect(len(list(WellLogCollection(frame = f, realization = realization + 1).iter_logs())) == 0, 'logs of another realization')
    check_las(f.logs.to_las(), curves, LMDS, 'm', t.wellbore_interpretation.title)
    # extended in a later session
    c = WellLogCollection(frame = f)
    c.add_log('CALI', np.array((8.0, 8.5, 9.0, 8.25)), 'in')
    more = tuple(curves) + (('CALI', 'in', (8.0, 8.5, 9.0, 8.25), False),)
    check_logs(c, more, LMDS, 'any')
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    check_logs(WellboreFrame(m, uuid = f.uuid).logs, more, LMDS, 'any')
    ctx.state((tuple(c[0] for c in curves), how, realization))
    ctx.outcome((len(curves), how, realization))
    rq.close(m)


def las_case(ctx, curves, las_uom, md_uom, realization, text, interp):
    import lasio
    from resqpy.property import WellLogCollection
    from resqpy.well import Trajectory, WellboreFrame, add_las_to_trajectory
    path = ctx.path('w.epc')
    m = rq.new_model(path, h5 = True)
    t = well(m, uom = md_uom, interp = interp)
    name = t.wellbore_interpretation.title if interp else t.title
    las = lasio.LASFile()
    las.well.WELL = name
    mds = np.array(LMDS)
    u = dict(m = 1.0, ft = FT, M = 1.0, FT = FT, F = FT)
    las.append_curve('DEPT', mds, unit = las_uom)
    for title, unit, data, disc in curves:
        las.append_curve(title, np.array(data, dtype = float), unit = unit)
    if text:
        s = io.StringIO()
        las.write(s, version = 2.0)
        las = lasio.read(io.StringIO(s.getvalue()))
    before = np.array(las.index).copy()
    c, f = add_las_to_trajectory(las, t, realization = realization, check_well_name = True)
    expect(np.array_equal(before, las.index), 'las depths changed', las.index)
    want = mds * u[las_uom] / u[md_uom]
    expect(rq.near(f.node_mds, want, 1.0e-6), 'mds', f.node_mds, 'should be', want)
    check_logs(c, curves, want, 'in order', not text)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    f = WellboreFrame(m, uuid = f.uuid)
    if interp:
        expect(str(f.wellbore_interpretation.uuid) == str(t.wellbore_interpretation.uuid), 'interpretation')
    expect(rq.near(f.node_mds, want, 1.0e-6), 'mds read back', f.node_mds)
    check_logs(f.logs, curves, want, 'any', not text)
    if realization is not None:
        expect(all(f.logs.realization_for_part(p) == realization for p in f.logs.parts()), 'realization')
    out = f.logs.to_las()
    check_las(out, curves, want, md_uom, name)
    s = io.StringIO()
    out.write(s, version = 2.0)
    back = lasio.read(io.StringIO(s.getvalue()))
    check_las(back, curves, want, md_uom, name)
    # logs of the text added to the well again
    c2, f2 = add_las_to_trajectory(back, Trajectory(m, uuid = t.uuid))
    expect(rq.near(f2.node_mds, want, 1.0e-3), 'mds second time', f2.node_mds)
    ctx.state((tuple(c[0] for c in curves), las_uom, md_uom, realization, text))
    ctx.outcome((las_uom, md_uom, text))
    rq.close(m)


def sequences(tier):
    cs = CURVES if tier == 'thorough' else CURVES[:6]
    return [p for n in (1, 2, 3) for p in itertools.permutations(range(len(cs)), n)]


def logs(ctx, first, how, realization):
    for p in sequences(ctx.tier):
        if p[0] == first:
            ctx.run((p, how, realization), log_case, ctx, tuple(CURVES[n] for n in p), how, realization)


def lases(ctx, las_uom, md_uom):
    for n in (1, 2, 3) if ctx.tier == 'thorough' else (1, 2):
        for p in itertools.permutations([0, 1, 2, 4, 5, 6], n):
            for text in (False, True):
                for realization in (None, 0, 3) if n == 1 else (None,):
                    for interp in (True, False) if n == 1 else (True,):
                            cs = tuple((CURVES[k][0].upper(),) + CURVES[k][1:] for k in p)
                            ctx.run((p, las_uom, md_uom, text, realization, interp), las_case, ctx, cs, las_uom, md_uom, realization, text, interp)


def jobs(tier):
    out = []
    for n in range(2, 8 if tier == 'thorough' else 6):
        out.append((f'frames of {n}', frames, dict(n = n)))
    for table in ('plain', 'names', 'no interp', 'index', 'part', 'extra'):
        for first in range(10 if tier == 'thorough' else 9):
            out.append((f'markers {table} {first}', markers, dict(first = first, table = table)))
    out.append(('interpretations lacking', lacking, dict()))
    for how in ('now', 'later', 'other'):
        for first in range(7 if tier == 'thorough' else 6):
            out.append((f'logs {how} {first}', logs, dict(first = first, how = how, realization = {'now': None, 'later': 0, 'other': 2}[how])))
    for a in ('m', 'ft', 'M', 'FT'):
        for b in ('m', 'ft'):
            out.append((f'las {a} {b}', lases, dict(las_uom = a, md_uom = b)))
    return out
