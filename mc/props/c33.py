"""C33: tables of numbers: data frames, time tables and relative permeability tables."""

import itertools
import os

import numpy as np

from mc import core, rq
from mc.core import expect

ID = 'C33'
TITLE = 'Tables of numbers are stored, found, interpolated and written as they are'
BOUNDS = {
    'quick': 'all tables of 1 - 3 rows and columns x units x realizations x kinds; all sequences of 3 realizations x sessions; all pairs of kinds of '
             'table for searches; all relative permeability columns, orders, gaps and directions; all sequences of 3 values; all pairs of texts',
    'thorough': 'tables up to 4 x 4; sequences of 4 realizations; triples of kinds; sequences of 4 values; triples of texts'
}
about = core.about


def warm(tier):
    import resqpy.olio.dataframe, resqpy.olio.relperm, resqpy.time_series, resqpy.model, resqpy.surface  # noqa


def near(a, b, tol = 1.0e-6):
    a, b = np.asarray(a, dtype = float), np.asarray(b, dtype = float)
    if a.shape != b.shape:
        return False
    n = np.isnan(b)
    return bool(np.all(np.isnan(a) == n)) and bool(np.all(np.abs(a[~n] - b[~n]) <= tol * np.maximum(1.0, np.abs(b[~n]))))


NAMES = ['COP', 'CWP', 'Pressure (avg)', 'x']
UNITS = ['m3', 'ft3', 'psi', 'm']


def values(nr, nc, salt = 0, gap = False):
    a = np.array([[100.25 * (r + 1) - 7.5 * c * c + 1000.0 * salt + 0.1 * r * c for c in range(nc)] for r in range(nr)])
    a[nr // 2, nc - 1] = 0.0
    if gap:
        a[nr - 1, 0] = np.nan
    return a


def table(nr, nc, salt = 0, gap = False):
    import pandas as pd
    return pd.DataFrame(values(nr, nc, salt, gap), columns = NAMES[:nc])


def series(model, n, year = 2020):
    import resqpy.time_series as rqts
    ts = rqts.time_series_from_list([f'{year}-0{1 + i}-1{i}' for i in range(n)])
    ts.set_model(model)
    ts.create_xml()
    return ts


def check_table(t, vals, names, units, what, stamps = None):
    nr, nc = vals.shape
    expect((t.n_rows, t.n_cols) == (nr, nc), what, 'has rows and columns', t.n_rows, t.n_cols, 'not', nr, nc)
    df = t.dataframe()
    expect(list(df.columns) == list(names), what, 'has columns', list(df.columns), 'not', list(names))
    expect(near(df.to_numpy(), vals), what, 'holds', df.to_numpy().tolist(), 'not', vals.tolist())
    expect(t.uom_list == units, what, 'has units', t.uom_list, 'not', units)
    for c in range(nc):
        want = 'Euc' if units is None else units[c]
        about(f'{what}: unit of a column')
        got = t.column_uom(c)
        expect(got == want, what, 'has unit', got, 'for column', c, 'not', want)
    if stamps is not None:
        expect(list(t.time_series().timestamps) == list(stamps), what, 'has times', t.time_series().timestamps, 'not', stamps)


# ------------------------------------------------------------------------------------------------ single tables


def one_table(ctx, nr, nc, units, realization, kind, gap, crs):
    import resqpy.olio.dataframe as rqdf
    path = ctx.path('t.epc')
    m = rq.new_model(path, crs = crs, h5 = True)
    df = table(nr, nc, 0, gap)
    vals, names = df.to_numpy().copy(), list(df.columns)
    ul = None if units is None else UNITS[:nc]
    kw = {'df': df, 'title': 'a table', 'realization': realization}
    if units == 'list':
        kw['uom_list'] = ul
    elif units is not None:
        import resqpy.property as rqp
        sl = rqp.StringLookup(m, int_to_str_dict = dict(enumerate(ul)), title = 'dataframe units')
        sl.create_xml()
        kw['uom_lookup_uuid'] = sl.uuid
        if units == 'both':
            kw['uom_list'] = list(ul)
    stamps = None
    if kind == 'time':
        ts = series(m, nr)
        stamps = list(ts.timestamps)
        about('making a time table')
        t = rqdf.TimeTable(m, time_series = ts, **kw)
    else:
        about('making a data frame')
        if kind == 'extra':
            kw['extra_metadata'] = {'source': 'simulator', 'case': '7'}
        t = rqdf.DataFrame(m, **kw)
    check_table(t, vals, names, ul, 'the table made', stamps)
    about('writing the table')
    t.write_hdf5_and_create_xml()
    check_table(t, vals, names, ul, 'the table after writing', stamps)
    expect(near(df.to_numpy(), vals) and list(df.columns) == names, 'the data frame given was changed to', df.to_numpy().tolist())
    uuid = t.mesh.uuid
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    cls = rqdf.TimeTable if kind == 'time' else rqdf.DataFrame
    for how in ('uuid', 'realization', 'title'):
        about(f'reading the table by {how}')
        if how == 'uuid':
            t = cls(m, uuid = uuid)
        elif how == 'realization':
            t = cls(m, uuid = uuid, realization = realization)
        else:
            f = rqdf.timetable_for_title if kind == 'time' else rqdf.dataframe_for_title
            t = f(m, 'a table', realization = realization)
        expect(t.title == 'a table', 'table read has title', t.title)
        check_table(t, vals, names, ul, 'the table read by ' + how, stamps)
        if kind == 'extra':
            for k, v in (('source', 'simulator'), ('case', '7'), ('dataframe', 'true')):
                expect(t.extra_metadata.get(k) == v, 'extra metadata', k, 'of the table read is', t.extra_metadata.get(k), 'not', v)
    expect(rqdf.dataframe_for_title(m, 'another') is None and rqdf.timetable_for_title(m, 'another') is None, 'a table was found for a title not used')
    rq.close(m)


def job_one(ctx, kind, top):
    for nr, nc in itertools.product(range(1, top + 1), repeat = 2):
        ctx.state(('one', kind, nr, nc))
        for units in (None, 'list', 'lookup', 'both'):
            for realization in (None, 0, 3):
                for gap, crs in ((False, False), (True, True)):
                    ctx.run((kind, nr, nc, units, realization, gap, crs), one_table, ctx, nr, nc, units, realization, kind, gap, crs)


# ------------------------------------------------------------------------------------------------ ensembles


def ensemble(ctx, nr, nc, order, reopen, units, kind):
    import resqpy.olio.dataframe as rqdf
    path = ctx.path('e.epc')
    m = rq.new_model(path, h5 = True)
    cls = rqdf.TimeTable if kind == 'time' else rqdf.DataFrame
    ul = UNITS[:nc] if units else None
    uuid = stamps = None
    for i, r in enumerate(order):
        df = table(nr, nc, r + 1)
        about(f'adding realization {r}')
        if uuid is None:
            kw = {}
            if kind == 'time':
                kw['time_series'] = series(m, nr)
                stamps = list(kw['time_series'].timestamps)
            t = cls(m, df = df, realization = r, uom_list = ul, title = 'ensemble', **kw)
        else:
            t = cls(m, uuid = uuid, df = df, realization = r)
        t.write_hdf5_and_create_xml()
        check_table(t, table(nr, nc, r + 1).to_numpy(), NAMES[:nc], ul, f'realization {r} after writing', stamps)
        uuid = t.mesh.uuid
        if reopen:
            m.store_epc()
            rq.close(m)
            m = rq.open_model(path)
    if not reopen:
        m.store_epc()
        rq.close(m)
        m = rq.open_model(path)
    for r in order:
        about(f'reading realization {r}')
        t = cls(m, uuid = uuid, realization = r)
        check_table(t, table(nr, nc, r + 1).to_numpy(), NAMES[:nc], ul, f'realization {r} of {order}', stamps)
        t = (rqdf.timetable_for_title if kind == 'time' else rqdf.dataframe_for_title)(m, 'ensemble', realization = r)
        expect(t is not None, 'ensemble is not found by its title')
        check_table(t, table(nr, nc, r + 1).to_numpy(), NAMES[:nc], ul, f'realization {r} of {order} by title', stamps)
        expect(rq.raises(cls, m, uuid = uuid, df = table(nr, nc), realization = r), 'realization', r, 'was accepted a second time')
    expect(rq.raises(cls, m, uuid = uuid, df = table(nr, nc)), 'a table without a realization number was accepted for an ensemble')
    expect(rq.raises(cls, m, uuid = uuid, df = table(nr + 1, nc), realization = 99), 'a table with another number of rows was accepted')
    expect(rq.raises(cls, m, uuid = uuid, df = table(nr, nc + 1), realization = 99), 'a table with another number of columns was accepted')
    if len(order) > 1:
        expect(rq.raises(cls, m, uuid = uuid), 'an ensemble was read without a realization number')
    parts = [p for p in m.parts(obj_type = 'ContinuousProperty')]
    expect(len(parts) == len(order), 'there are', len(parts), 'properties for', len(order), 'realizations')
    expect(len(m.parts(obj_type = 'PropertyKind')) <= 1, 'property kinds stored:', len(m.parts(obj_type = 'PropertyKind')))
    rq.close(m)


def job_ensemble(ctx, kind, length):
    for n in range(1, length + 1):
        for order in itertools.permutations((0, 2, 5, 7)[:max(n, 3)], n):
            for nr, nc in ((2, 2), (3, 2), (1, 3)):
                ctx.state(('ensemble', order, nr, nc))
                for reopen in (False, True):
                    for units in (False, True):
                        ctx.run((kind, order, nr, nc, reopen, units), ensemble, ctx, nr, nc, order, reopen, units, kind)


# ------------------------------------------------------------------------------------------------ shared lookups and searches


KINDS = ('frame', 'time', 'real', 'relperm', 'mesh')


def several(ctx, kinds, titles, share):
    """Tables of several kinds in one model, sharing lookups and time series or not: each is found and read as itself."""
    import resqpy.olio.dataframe as rqdf
    import resqpy.olio.relperm as rqrp
    import resqpy.surface as rqs
    path = ctx.path('s.epc')
    m = rq.new_model(path, crs = True, h5 = True)
    made = []
    cols = units = ts = None
    for i, (k, title) in enumerate(zip(kinds, titles)):
        about(f'making a {k}')
        if k == 'mesh':
            mesh = rqs.Mesh(m,
                            mesh_flavour = 'reg&z',
                            ni = 2,
                            nj = 2,
                            dxyz_dij = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]),
                            origin = (0.0, 0.0, 0.0),
                            z_values = np.zeros((2, 2)),
                            crs_uuid = m.crs_uuid)
            mesh.write_hdf5()
            mesh.create_xml(title = title)
            made.append((k, title, mesh.uuid, None, None, None))
            continue
        if k == 'relperm':
            t = rqrp.RelPerm(m, df = rp_frame('water-oil', 'Sw', 'Kw', 'none', True, 3, i), phase_combo = 'water-oil', title = title)
            want = t.dataframe().to_numpy().copy()
            t.write_hdf5_and_create_xml()
            made.append((k, title, t.mesh.uuid, want, None, None))
            continue
        df = table(3, 2, i)
        ul = UNITS[:2] if (share or i % 2 == 0) else UNITS[2:4]
        if not share:
            df.columns = [f'{c}{i}' for c in df.columns]
        kw = {'df': df, 'title': title}
        if share and cols is not None:
            kw['column_lookup_uuid'], kw['uom_lookup_uuid'] = cols, units
        else:
            kw['uom_list'] = list(ul)
        stamps = None
        if k == 'time':
            if ts is None or not share:
                ts = series(m, 3, 2020 + i)
            stamps = list(ts.timestamps)
            t = rqdf.TimeTable(m, time_series = ts, **kw)
        else:
            t = rqdf.DataFrame(m, realization = 4 if k == 'real' else None, **kw)
        t.write_hdf5_and_create_xml()
        cols, units = t.column_lookup_uuid, t.uom_lookup_uuid
        made.append((k, title, t.mesh.uuid, df.to_numpy().copy(), ul, (list(df.columns), stamps)))
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    for title in (None,) + tuple(sorted(set(titles))) + ('another',):
        pick = [x for x in made if title is None or x[1] == title]
        uu = lambda parts: sorted(str(m.uuid_for_part(p)) for p in parts)
        for what, parts, want in (('data frames', rqdf.dataframe_parts_in_model(m, title = title), ('frame', 'time', 'real', 'relperm')),
                                  ('data frames which are not time tables', rqdf.dataframe_parts_in_model(m, timetables = False, title = title),
                                   ('frame', 'real', 'relperm')), ('time tables', rqdf.timetable_parts_in_model(m, title = title), ('time',)),
                                  ('relative permeability tables', rqrp.relperm_parts_in_model(m, title = title), ('relperm',))):
            expect(uu(parts) == sorted(str(x[2]) for x in pick if x[0] in want), what, 'found for title', title, 'are', uu(parts), 'of',
                   [(x[0], x[1], str(x[2])) for x in made])
    for k, title, uuid, vals, ul, more in made:
        if k == 'mesh':
            continue
        about(f'reading a {k} of {kinds}')
        cls = {'time': rqdf.TimeTable, 'relperm': rqrp.RelPerm}.get(k, rqdf.DataFrame)
        t = cls(m, uuid = uuid)
        check_table(t, vals, more[0] if more else ['Sw', 'Krw', 'Kro'], ul, f'the {k} of {kinds}', more[1] if more else None)
    if share and 'relperm' not in kinds:
        n = len([k for k in kinds if k in ('frame', 'time', 'real')])
        got = len(m.parts(obj_type = 'StringTableLookup'))
        expect(got == (2 if n else 0), 'there are', got, 'lookup tables stored for', kinds)
    rq.close(m)


def job_several(ctx, first, length):
    for n in range(1, length + 1):
        for rest in itertools.product(KINDS, repeat = n - 1):
            kinds = (first,) + rest
            for titles in sorted(set([tuple('ab'[i % 2] for i in range(n)), ('a',) * n])):
                for share in (False, True):
                    ctx.state(('several', kinds))
                    ctx.run((kinds, titles, share), several, ctx, kinds, titles, share)


# ------------------------------------------------------------------------------------------------ relative permeability


PHASES = {'water-oil': ('w', 'o'), 'gas-oil': ('g', 'o'), 'gas-water': ('g', 'w')}


def rp_frame(combo, sat, first, pc, up, n, salt = 0):
    """A valid table: saturation column, the two permeabilities in either order, capillary pressure complete, with gaps or absent."""
    import pandas as pd
    a, b = PHASES[combo]
    s = sat[-1]
    other = b if s == a else a
    f = np.linspace(0.0, 1.0, n)
    sv = 0.125 + 0.75 * f ** 1.5 + 0.0625 * (salt % 3) * f
    own = np.round(f ** 2, 6)
    opp = np.round((1.0 - f) ** 3, 6)
    pcv = 10.0 - 4.0 * f - f ** 2
    if pc == 'gaps':
        pcv[1:-1] = np.nan
    cols = {'S' + s: sv, 'Kr' + s: own, 'Kr' + other: opp}
    order = ['S' + s] + ['Kr' + (s if (first == 'K' + s) else other), 'Kr' + (other if (first == 'K' + s) else s)]
    if pc != 'none':
        cols['Pc'] = pcv
        order.append('Pc')
    df = pd.DataFrame({c: (v if up else v[::-1]) for c, v in cols.items()})[order]
    return df


def check_interp(t, df, what):
    s = df.columns[0]
    for c in df.columns[1:]:
        d = df[[s, c]].dropna().sort_values(by = s)
        x, y = d[s].to_numpy(), d[c].to_numpy()
        for name in (c, c.upper(), c.lower()):
            for i in range(len(x)):
                about(f'{what}: interpolation of {name}')
                got = t.interpolate_point(float(x[i]), name)
                expect(near(got, (x[i], y[i])), what, 'gives', got, 'for', name, 'at saturation', x[i], 'not', y[i])
            for i in range(len(x) - 1):
                for w in (0.25, 0.5):
                    q = float(x[i] * (1.0 - w) + x[i + 1] * w)
                    got = t.interpolate_point(q, name)
                    expect(near(got, (q, y[i] * (1.0 - w) + y[i + 1] * w)), what, 'gives', got, 'for', name, 'at', q, 'between', (x[i], y[i]),
                           (x[i + 1], y[i + 1]))
        for q in (x[0] - 0.01, x[-1] + 0.01):
            expect(rq.raises(t.interpolate_point, float(q), c), what, 'extrapolates', c, 'to', q)
    for bad in (s, 'Krx', 'Sx'):
        expect(rq.raises(t.interpolate_point, float(df[s].iloc[0]), bad), what, 'interpolates', bad)


def kw_line(combo, low):
    return {'water-oil': 'WOTABLE', 'gas-oil': 'GOTABLE', 'gas-water': 'GWTABLE'}[combo] + (' (LOW_SAL)' if low and combo == 'water-oil' else '')


def check_text(ctx, t, combo, low, df, what):
    import resqpy.olio.relperm as rqrp
    d = ctx.dir()
    about(what + ': writing as text')
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        t.df_to_text(d, 'kr')
    text = open(os.path.join(d, 'kr.dat')).read()
    expect(text.split('\n')[0].strip() == kw_line(combo, low), what, 'is written under', text.split('\n')[0], 'not', kw_line(combo, low))
    for src, is_file in ((os.path.join(d, 'kr.dat'), True), (text, False)):
        about(what + ': reading the text written')
        back = rqrp.text_to_relperm_dict(src, is_file = is_file)
        expect(list(back) == ['relperm_table1'], what, 'text holds tables', list(back))
        check_read(back['relperm_table1'], combo, df, what + ' read from text')
    return d


def check_read(got, combo, df, what):
    expect(got['phase_combo'] == combo, what, 'has phases', got['phase_combo'], 'not', combo)
    expect(list(got['df'].columns) == list(df.columns), what, 'has columns', list(got['df'].columns), 'not', list(df.columns))
    expect(near(got['df'].to_numpy(), df.to_numpy(), 1.0e-5), what, 'holds', got['df'].to_numpy().tolist(), 'not', df.to_numpy().tolist())


def one_relperm(ctx, combo, sat, first, pc, up, n, given, low, index, case):
    import resqpy.olio.relperm as rqrp
    path = ctx.path('r.epc')
    m = rq.new_model(path, h5 = True)
    want = rp_frame(combo, sat, first, pc, up, n)
    df = want.copy()
    df.columns = [{'upper': c.upper(), 'lower': c.lower(), 'title': c}[case] for c in df.columns]
    if pc == 'gaps' and case == 'upper':
        df[df.columns[-1]] = [('None' if np.isnan(v) else v) for v in df[df.columns[-1]]]
    before = df.copy(deep = True)
    pcombo = {'given': combo, 'swapped': '-'.join(reversed(combo.split('-'))), 'none': None}[given]
    about('making a relative permeability table')
    t = rqrp.RelPerm(m, df = df, phase_combo = pcombo, low_sal = low, table_index = index, title = 'kr', uom_list = None)
    expect(list(df.columns) == list(before.columns) and df.equals(before), 'the data frame given was changed to', list(df.columns), df.to_numpy().tolist())
    told = pcombo or combo
    expect(t.phase_combo == told, 'phases of the table are', t.phase_combo, 'not', told)
    check_table(t, want.to_numpy(), list(want.columns), None, 'the table')
    check_interp(t, want, 'the table')
    check_text(ctx, t, combo, low, want, 'the table')
    t.write_hdf5_and_create_xml()
    uuid = t.mesh.uuid
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    about('reading a relative permeability table')
    t = rqrp.RelPerm(m, uuid = uuid)
    expect(t.phase_combo == told and str(t.low_sal).lower() == str(low).lower() and str(t.table_index) == str(index), 'table read is', t.phase_combo,
           t.low_sal, t.table_index, 'not', told, low, index)
    check_table(t, want.to_numpy(), list(want.columns), None, 'the table read')
    check_interp(t, want, 'the table read')
    check_text(ctx, t, combo, low, want, 'the table read')
    for pci, li, ii in itertools.product((None, told, 'gas-other'), (None, True, False), (None, 1, 2)):
        got = rqrp.relperm_parts_in_model(m, phase_combo = pci, low_sal = li, table_index = ii)
        yes = (pci in (None, told)) and (li is None or li == low) and (ii is None or ii == index)
        expect(len(got) == int(yes), 'tables found for', pci, li, ii, 'are', got, 'where there is', told, low, index)
    rq.close(m)


def job_relperm(ctx, combo, n):
    a, b = PHASES[combo]
    for s in (a, b):
        for first in ('K' + a, 'K' + b):
            for pc in ('none', 'full', 'gaps'):
                for up in (True, False):
                    ctx.state(('relperm', combo, s, first, pc, up))
                    for given, low, index, case in (('given', False, None, 'title'), ('swapped', True, 1, 'upper'), ('none', False, 2, 'lower'),
                                                    ('given', True, 2, 'upper'), ('none', True, None, 'title'), ('swapped', False, 1, 'lower')):
                        ctx.run((combo, s, first, pc, up, given, low, index, case), one_relperm, ctx, combo, 'S' + s, first, pc, up, n, given, low, index,
                                case)


def valid(cols, rows, combo):
    """Definition of an acceptable table of numbers (columns capitalized): phases, and monotonic within range."""
    s = cols[0]
    if s not in ('Sw', 'Sg', 'So') or len([c for c in cols if c[0] == 'S']) != 1:
        return False
    fits = [k for k, (x, y) in PHASES.items() if set(cols) == {s, 'Kr' + x, 'Kr' + y} | ({'Pc'} if 'Pc' in cols else set()) and s[-1] in (x, y)]
    if not fits or (combo is not None and combo not in fits):
        return False
    if 'Pc' in cols and cols[-1] != 'Pc':
        return False
    v = {c: [r[i] for r in rows] for i, c in enumerate(cols)}
    if any(np.isnan(x) for c in cols if c != 'Pc' for x in v[c]):
        return False
    if any(x < 0.0 or x > 1.0 for c in cols if c != 'Pc' for x in v[c]):
        return False
    inc = lambda c: all(x <= y for x, y in zip(v[c][:-1], v[c][1:]))
    dec = lambda c: all(x >= y for x, y in zip(v[c][:-1], v[c][1:]))
    own = 'Kr' + s[-1]
    opp = [c for c in cols if c[:2] == 'Kr' and c != own][0]
    if not ((inc(s) and inc(own) and dec(opp)) or (dec(s) and dec(own) and inc(opp))):
        return False
    if 'Pc' in cols:
        p = [x for x in v['Pc'] if not np.isnan(x)]
        up = all(x <= y for x, y in zip(p[:-1], p[1:]))
        down = all(x >= y for x, y in zip(p[:-1], p[1:]))
        if not (up or down):
            return False
    return True


def judged(ctx, m, cols, rows, combo):
    import pandas as pd
    import resqpy.olio.relperm as rqrp
    df = pd.DataFrame(np.array(rows, dtype = float), columns = list(cols))
    bad = bool(rq.raises(rqrp.RelPerm, m, df = df, phase_combo = combo))
    ok = valid(cols, rows, combo)
    expect(bad == (not ok), 'table with columns', cols, 'rows', rows, 'and phases', combo, 'was', 'refused' if bad else 'accepted')


def job_columns(ctx, first):
    m = rq.new_model(ctx.path('v.epc'))
    kr = {'Sw': {'Krw': 0, 'Kro': 1, 'Krg': 1}, 'So': {'Kro': 0, 'Krw': 1, 'Krg': 1}, 'Sg': {'Krg': 0, 'Kro': 1, 'Krw': 1}}
    base = {'S': (0.25, 0.5, 0.75), 0: (0.0, 0.25, 1.0), 1: (1.0, 0.25, 0.0), 'P': (3.0, 2.0, 1.0)}
    names = ('Sw', 'So', 'Sg', 'Krw', 'Kro', 'Krg', 'Pc')
    for n in (3, 4):
        for rest in itertools.permutations([x for x in names if x != first], n - 1):
            cols = (first,) + rest
            data = [base['S'] if c[0] == 'S' else base['P'] if c == 'Pc' else base[kr.get(first, kr['Sw'])[c]] for c in cols]
            rows = [list(r) for r in zip(*data)]
            for combo in (None, 'water-oil', 'gas-oil', 'gas-water'):
                ctx.state(('columns', cols, combo))
                ctx.run((cols, combo), judged, ctx, m, cols, rows, combo)


def job_values(ctx, combo, n):
    m = rq.new_model(ctx.path('v.epc'))
    a, b = PHASES[combo]
    nan = float('nan')
    seqs = list(itertools.product((0.0, 0.5, 1.0), repeat = n))
    edge = [(0.0, 0.5, 1.125), (-0.125, 0.5, 1.0), (0.0, nan, 1.0), (nan, 0.5, 1.0), (1.0, 0.5, -0.125), (1.125, 1.0, 0.0)]
    up, down = tuple(np.linspace(0.0, 1.0, n)), tuple(np.linspace(1.0, 0.0, n))
    for s, other in ((a, b), (b, a)):
        cols = ('S' + s, 'Kr' + s, 'Kr' + other)
        for d in (up, down):
            o = down if d is up else up
            for i in range(3):
                for q in seqs + ([e for e in edge] if n == 3 else []):
                    data = [d, d, o]
                    data[i] = q
                    ctx.state(('values', q, i))
                    ctx.run((combo, s, d is up, i, q), judged, ctx, m, cols, [list(r) for r in zip(*data)], combo)
            for q in seqs + [tuple(x if j != k else nan for j, x in enumerate(p)) for p in seqs for k in range(n)]:
                ctx.run((combo, s, d is up, 'Pc', q), judged, ctx, m, cols + ('Pc',), [list(r) for r in zip(d, d, o, q)], combo)
        for q in itertools.product(seqs, repeat = 2) if n == 3 else ():
            ctx.run((combo, s, 'two', q), judged, ctx, m, cols, [list(r) for r in zip(up, q[0], q[1])], combo)


# ------------------------------------------------------------------------------------------------ texts


def texts(ctx, which, style):
    """Texts of several tables, written by hand in different styles, or appended one after another by the code."""
    import contextlib
    import io
    import resqpy.olio.relperm as rqrp
    frames = [(c, low, rp_frame(c, 'S' + PHASES[c][0], 'K' + PHASES[c][k % 2], pc, True, 3 + k, k)) for k, (c, low, pc) in enumerate(which)]
    if style == 'written':
        m = rq.new_model(ctx.path('x.epc'))
        d = ctx.dir()
        for c, low, df in frames:
            t = rqrp.RelPerm(m, df = df.copy(), phase_combo = c, low_sal = low)
            about('appending a table to a text file')
            with contextlib.redirect_stdout(io.StringIO()):
                t.df_to_text(d, 'kr')
        text = open(os.path.join(d, 'kr.dat')).read()
    else:
        opp = {'water-oil': ('KRW', 'KROW', 'PCWO'), 'gas-oil': ('KRG', 'KROG', 'PCGO'), 'gas-water': ('KRG', 'KRWG', 'PCGW')}
        tail = ' ! as measured' if style == 'trailing' else ''
        out = ['! tables', ''] if style != 'plain' else []
        for c, low, df in frames:
            a, b = PHASES[c]
            ren = {'Kr' + a: opp[c][0], 'Kr' + b: opp[c][1], 'Pc': opp[c][2]}
            out.append(kw_line(c, low) + tail)
            cols = [ren.get(x, x.upper()) for x in df.columns]
            if style == 'comments':
                out.append('! ' + ' '.join(cols))
            sep = '  ' if style != 'tabs' else ' \t'
            out.append(sep.join(cols) + tail)
            for r in df.to_numpy():
                out.append(('   ' if style == 'comments' else '') + sep.join('NA' if np.isnan(v) else repr(float(v)) for v in r) + (' ! row' if style == 'trailing' else ''))
                if style == 'comments':
                    out.append('! next')
            if style != 'plain':
                out.append('')
        text = '\n'.join(out) + '\n'
    f = os.path.join(ctx.dir(), 'in.dat')
    with open(f, 'w') as h:
        h.write(text)
    about('reading relative permeability text')
    for src, is_file in ((f, True), (text, False)):
        got = rqrp.text_to_relperm_dict(src, is_file = is_file)
        expect(list(got) == [f'relperm_table{i + 1}' for i in range(len(frames))], 'tables read are', list(got), 'for', which)
        for i, (c, low, df) in enumerate(frames):
            check_read(got[f'relperm_table{i + 1}'], c, df, f'table {i + 1} of {which} in style {style}')


def job_texts(ctx, style, length):
    pieces = [(c, low, pc) for c in PHASES for low in (False, True) for pc in ('none', 'full', 'gaps') if not low or c == 'water-oil']
    for n in range(1, length + 1):
        for which in itertools.product(pieces, repeat = n):
            ctx.state(('texts', which))
            ctx.run((style, which), texts, ctx, which, style)


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for kind in ('frame', 'time', 'extra'):
        out.append((f'one/{kind}', job_one, {'kind': kind, 'top': 4 if t else 3}))
    for kind in ('frame', 'time'):
        out.append((f'ensemble/{kind}', job_ensemble, {'kind': kind, 'length': 4 if t else 3}))
    for k in KINDS:
        out.append((f'several/{k}', job_several, {'first': k, 'length': 4 if t else 3}))
    for c in PHASES:
        out.append((f'relperm/{c}', job_relperm, {'combo': c, 'n': 6 if t else 4}))
        out.append((f'values/{c}', job_values, {'combo': c, 'n': 3}))
        if t:
            out.append((f'values4/{c}', job_values, {'combo': c, 'n': 4}))
    for s in ('Sw', 'So', 'Sg', 'Krw', 'Pc'):
        out.append((f'columns/{s}', job_columns, {'first': s}))
    for s in ('plain', 'comments', 'tabs', 'trailing', 'written'):
        out.append((f'texts/{s}', job_texts, {'style': s, 'length': 3 if t else 2}))
    return out
