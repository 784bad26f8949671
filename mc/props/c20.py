"""C20: the path of a well is that which its deviation survey, table or control points define.

Deviation surveys: every combination of directions at three (thorough: four) stations, in the units and crs of every kind,
against the integral of the direction of the arc between stations, worked out by quadrature.  Trajectories: every way of
making one (arrays, table, text files of several wells, cells, spline), and the questions that can be asked of it."""

import itertools
import os

import numpy as np

from mc import rq
from mc.core import about, expect

ID = 'C20'
TITLE = 'A well path follows its survey or table, and measured depths lie along it'
BOUNDS = dict(quick = '11 directions at each of 3 stations, 16 kinds of crs and unit; all tables of up to 4 points from 6 moves',
              thorough = '11 directions at each of 4 stations for the default kind; all tables of up to 5 points from 6 moves')

DIRS = [(0.0, 0.0), (0.0, 75.0), (20.0, 0.0), (20.0, 75.0), (20.0, 200.0), (90.0, 0.0), (90.0, 75.0), (90.0, 340.0), (120.0, 200.0), (120.0, 0.0), (20.0, 435.0)]
FT = 0.3048
MDS = (100.0, 130.0, 137.5, 187.5)
FIRST = (500.0, 600.0, 70.0)


def direction(incl, az):
    """Unit vector east, north, down."""
    i, a = np.radians(incl), np.radians(az)
    return np.array((np.sin(i) * np.sin(a), np.sin(i) * np.cos(a), np.cos(i)))


def along_arc(d1, d2):
    """Mean direction over an arc of constant curvature, by Simpson's rule over small turns of d1 towards d2."""
    axis = np.cross(d1, d2)
    s = np.linalg.norm(axis)
    if s < 1.0e-12:
        return d1
    axis /= s
    theta = np.arctan2(s, np.dot(d1, d2))
    n = 64
    a = np.linspace(0.0, theta, n + 1)[:, None]
    t = d1 * np.cos(a) + np.cross(axis, d1) * np.sin(a)  # axis is at right angles to d1
    w = np.ones(n + 1)
    w[1:-1:2], w[2:-1:2] = 4.0, 2.0
    return (w[:, None] * t).sum(axis = 0) / (3.0 * n)


KINDS = [dict(md_uom = md, angle = an, crs = dict(xy_units = xy, z_units = z, z_inc_down = down))
         for md in ('m', 'ft') for an in ('dega', 'rad') for xy, z in (('m', 'm'), ('ft', 'm')) for down in (True, False)]


def expected_path(dirs, mds, kind):
    pts = [np.array(FIRST)]
    per_m = 1.0 if kind['md_uom'] == 'm' else FT
    sc = np.array([per_m / (1.0 if kind['crs']['xy_units'] == 'm' else FT)] * 2 + [per_m / (1.0 if kind['crs']['z_units'] == 'm' else FT)])
    if not kind['crs']['z_inc_down']:
        sc[2] = -sc[2]
    for k in range(1, len(dirs)):
        step = (mds[k] - mds[k - 1]) * along_arc(direction(*dirs[k - 1]), direction(*dirs[k]))
        pts.append(pts[-1] + step * sc)
    return np.array(pts)


def do_surveys(ctx, kinds, first, n):
    import pandas as pd
    from resqpy.well import DeviationSurvey, MdDatum, Trajectory
    for kn in kinds:
        kind = KINDS[kn]
        for d2 in DIRS:

            def case(kind = kind, d2 = d2):
                m = rq.new_model(ctx.path('s.epc'), h5 = True)
                crs = rq.add_crs(m, **kind['crs'])
                datum = MdDatum(m, crs_uuid = crs.uuid, location = FIRST)
                datum.create_xml()
                for rest in itertools.product(DIRS, repeat = n - 2):
                    dirs = (first, d2) + rest
                    mds = np.array(MDS[:n])
                    inc, az = (np.array([d[x] for d in dirs]) for x in (0, 1))
                    if kind['angle'] == 'rad':
                        inc, az = np.radians(inc), np.radians(az)
                    s = DeviationSurvey(m, title = 's', md_datum = datum, md_uom = kind['md_uom'], angle_uom = kind['angle'], measured_depths = mds,
                                        azimuths = az, inclinations = inc, first_station = FIRST, is_final = True)
                    want = expected_path(dirs, mds, kind)
                    t = Trajectory(m, deviation_survey = s, md_datum = datum, well_name = 't')
                    with about(('directions', dirs)):
                        expect(t.knot_count == n and rq.same(t.measured_depths, mds) and (t.start_md, t.finish_md) == (mds[0], mds[-1]) and t.md_uom == kind['md_uom'],
                               'measured depths', t.measured_depths)
                        expect(rq.near(t.control_points, want, 1.0e-6), 'path', t.control_points, 'not', want)
                        expect(rq.same(s.measured_depths, mds) and rq.same(s.azimuths, az) and rq.same(s.inclinations, inc), 'survey was changed')
                    ctx.step()
                    ctx.state((kind, dirs))
                ctx.outcome('followed')
                rq.close(m)

            ctx.run(dict(kind = kn, first = first, second = d2), case)


def do_survey_routes(ctx, kn):
    """Ways of making a survey, and of making the trajectory from it, before and after storing."""
    import pandas as pd
    from resqpy.organize import WellboreFeature, WellboreInterpretation
    from resqpy.well import DeviationSurvey, MdDatum, Trajectory
    kind = KINDS[kn]
    dirs = (DIRS[2], DIRS[4], DIRS[6])
    mds = np.array(MDS[:3])
    want = expected_path(dirs, mds, kind)
    for route, stored, interp, space, cols in itertools.product(('arrays', 'lists', 'table', 'text'), (False, True), (False, True), (False, True), (False, True)):
        if (space and route != 'text') or (cols and route not in ('table', 'text')):
            continue

        def case(route = route, stored = stored, interp = interp, space = space, cols = cols):
            path = ctx.path('r.epc')
            m = rq.new_model(path, h5 = True)
            rq.add_crs(m, title = 'other', xy_units = 'cm', z_units = 'cm')
            crs = rq.add_crs(m, title = 'used', **kind['crs'])
            datum = MdDatum(m, crs_uuid = crs.uuid, location = FIRST)
            datum.create_xml()
            wi = None
            if interp:
                wf = WellboreFeature(m, feature_name = 'w')
                wf.create_xml()
                wi = WellboreInterpretation(m, wellbore_feature = wf, is_drilled = True)
                wi.create_xml()
            inc, az = (np.array([d[x] for d in dirs]) for x in (0, 1))
            if kind['angle'] == 'rad':
                inc, az = np.radians(inc), np.radians(az)
            names = dict(md_col = 'DEPTH', azimuth_col = 'A', inclination_col = 'I', x_col = 'E', y_col = 'N', z_col = 'TV') if cols else {}
            df = pd.DataFrame({
                names.get('md_col', 'MD'): mds, names.get('azimuth_col', 'AZIM_GN'): az, names.get('inclination_col', 'INCL'): inc,
                names.get('x_col', 'X'): [FIRST[0], 1.0, 2.0], names.get('y_col', 'Y'): [FIRST[1], 1.0, 2.0], names.get('z_col', 'Z'): [FIRST[2], 1.0, 2.0]})
            kw = dict(title = 'surv', md_datum = datum, md_uom = kind['md_uom'], angle_uom = kind['angle'], represented_interp = wi)
            if route in ('arrays', 'lists'):
                f = np.array if route == 'arrays' else list
                s = DeviationSurvey(m, measured_depths = f(mds), azimuths = f(az), inclinations = f(inc), first_station = FIRST, is_final = True, **kw)
            elif route == 'table':
                s = DeviationSurvey.from_data_frame(m, df, **names, **kw)
            else:
                tx = ctx.path('s.txt')
                with open(tx, 'w') as fp:
                    fp.write('# a comment\n')
                    fp.write(df.to_csv(sep = ' ' if space else ',', index = False))
                s = DeviationSurvey.from_ascii_file(m, tx, space_separated_instead_of_csv = space, **names, **kw)
            if stored:
                s.write_hdf5()
                s.create_xml()
                m.store_epc()
                u, du = s.uuid, datum.uuid
                wu = None if wi is None else wi.uuid
                rq.close(m)
                m = rq.open_model(path)
                s = DeviationSurvey(m, uuid = u)
                expect(s.title == 'surv' and s.md_uom == kind['md_uom'] and s.is_final and s.station_count == 3, 'survey re-read', s.title, s.md_uom, s.is_final)
                expect(s.md_datum is not None and s.md_datum.uuid == du, 'datum of survey')
                expect((s.wellbore_interpretation is None) == (wi is None) and (wi is None or str(s.wellbore_interpretation.uuid) == str(wu)), 'interpretation of survey')
                expect(rq.near(s.azimuths, az) and rq.near(s.inclinations, inc) and rq.near(s.measured_depths, mds) and rq.near(s.first_station, FIRST), 'survey arrays')
            t = Trajectory(m, deviation_survey = s, md_datum = s.md_datum, well_name = 'w')
            expect(rq.near(t.control_points, want, 1.0e-6), 'path', t.control_points, 'not', want)
            expect(t.crs_uuid == s.md_datum.crs_uuid, 'crs of path')
            if stored:  # and the path stored as well, and the survey stored anew
                t.write_hdf5()
                t.create_xml()
                m.store_epc()
                tu = t.uuid
                rq.close(m)
                m = rq.open_model(path)
                t = Trajectory(m, uuid = tu)
                expect(rq.near(t.control_points, want, 1.0e-6) and rq.near(t.measured_depths, mds), 'path re-read', t.control_points)
                expect(t.deviation_survey is not None and t.deviation_survey.uuid == u, 'survey of path')
                t2 = Trajectory(m, well_name = 'again', deviation_survey = t.deviation_survey)
                expect(rq.near(t2.control_points, want, 1.0e-6), 'path from survey of re-read path', t2.control_points)
            ctx.state((kn, route, stored, interp, space, cols))
            ctx.outcome(route)
            rq.close(m)

        ctx.run(dict(kind = kn, route = route, stored = stored, interpretation = interp, space_separated = space, other_columns = cols), case)


# --------------------------------------------------------------------------------------------------------- trajectories

MOVES = [(0.0, 0.0, 10.0), (6.0, 0.0, 8.0), (0.0, -6.0, 8.0), (10.0, 0.0, 0.0), (-6.0, 0.0, -8.0), (3.0, 4.0, 12.0)]
TCRS = [dict(), dict(z_inc_down = False), dict(xy_units = 'ft', z_units = 'm'), dict(xy_units = 'm', z_units = 'ft', z_inc_down = False)]


def check_inclinations(t, cps, crs_kw):
    # inclinations of the intervals, from the vertical
    f = {'m': 1.0, 'ft': FT}
    v = np.diff(cps, axis = 0) * np.array([f[crs_kw.get('xy_units', 'm')]] * 2 + [f[crs_kw.get('z_units', 'm')] * (1.0 if crs_kw.get('z_inc_down', True) else -1.0)])
    want = np.degrees(np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2]))
    expect(rq.near(t.inclinations(), want, 1.0e-6), 'inclinations', t.inclinations(), 'not', want)


def check_questions(t, mds, cps, datum_xyz, crs_kw):
    n = len(mds)
    expect(t.knot_count == n and rq.near(t.measured_depths, mds) and rq.near(t.control_points, cps), 'knots', t.measured_depths, t.control_points)
    expect(np.isclose(t.start_md, mds[0]) and np.isclose(t.finish_md, mds[-1]), 'range of measured depth', t.start_md, t.finish_md)

    def at(md, want):
        got = t.xyz_for_md(md)
        expect(got is not None and np.allclose(np.array(got, dtype = float), want, atol = 1.0e-6), 'position at measured depth', md, 'is', got, 'not', want)

    for k in range(n):
        at(mds[k], cps[k])
        if k:
            for f in (0.25, 0.5, 0.9):
                at(mds[k - 1] + f * (mds[k] - mds[k - 1]), cps[k - 1] + f * (cps[k] - cps[k - 1]))
    if mds[0] > 0.0:
        for f in (0.0, 0.4):
            at(f * mds[0], datum_xyz + f * (cps[0] - datum_xyz))
    expect(t.xyz_for_md(mds[-1] + 0.01) is None and t.xyz_for_md(-0.01) is None, 'position beyond the path')
    check_inclinations(t, cps, crs_kw)
    df = t.dataframe()
    expect(list(df.columns) == ['MD', 'X', 'Y', 'Z'] and rq.near(df['MD'].values, mds) and rq.near(df[['X', 'Y', 'Z']].values, cps), 'table of the path')
    df = t.dataframe(md_col = None, x_col = 'E')
    expect(list(df.columns) == ['E', 'Y', 'Z'] and rq.near(df[['E', 'Y', 'Z']].values, cps), 'table of the path without depths')
    tv = t.set_tangents(force = True)
    expect(tv.shape == (n, 3) and np.allclose(np.sum(tv * tv, axis = 1), 1.0), 'tangents are not unit vectors')
    u = np.diff(cps, axis = 0)
    u /= np.sqrt(np.sum(u * u, axis = 1))[:, None]
    expect(np.allclose(tv[0], u[0]) and np.allclose(tv[-1], u[-1]), 'tangents at the ends', tv)
    for k in range(1, n - 1):
        expect(np.dot(tv[k], u[k - 1] + u[k]) > -1.0e-9 and abs(np.dot(tv[k], np.cross(u[k - 1], u[k]))) < 1.0e-9, 'tangent at a knot', tv[k], u[k - 1], u[k])


def do_tables(ctx, first, n):
    from resqpy.well import MdDatum, Trajectory
    import pandas as pd
    for combo in itertools.product(MOVES, repeat = n - 2):
        moves = (first,) + combo

        def case(moves = moves):
            if any(np.allclose(np.array(a) / np.linalg.norm(a), -np.array(b) / np.linalg.norm(b)) for a, b in zip(moves, moves[1:])):
                ctx.outcome('turns back')
                return  # tangent not defined
            for ci, (crs_kw, start, slack) in enumerate(itertools.product(TCRS, (0.0, 50.0), (1.0, 1.2))):
                m = rq.new_model(ctx.path('t.epc'), h5 = True)
                crs = rq.add_crs(m, **crs_kw)
                cps = np.cumsum(np.array([(400.0, 300.0, 20.0)] + list(moves)), axis = 0)
                lengths = np.sqrt(np.sum(np.diff(cps, axis = 0)**2, axis = 1)) * slack
                mds = start + np.concatenate(([0.0], np.cumsum(lengths)))
                datum_xyz = cps[0] - np.array((0.0, 3.0, start))
                if start == 0.0:
                    datum_xyz = cps[0]
                datum = MdDatum(m, crs_uuid = crs.uuid, location = tuple(datum_xyz))
                datum.create_xml()
                if ci % 2:
                    t = Trajectory(m, mds = mds, control_points = cps, md_datum = datum, length_uom = 'm', well_name = 'w')
                else:
                    t = Trajectory(m, data_frame = pd.DataFrame({'Z': cps[:, 2], 'MD': mds, 'X': cps[:, 0], 'Y': cps[:, 1], 'W': 'w'}), md_datum = datum, length_uom = 'm', well_name = 'w')
                with about((crs_kw, 'from', start)):
                    check_questions(t, mds, cps, datum_xyz, crs_kw)
                    s = t.splined_trajectory('sp', min_subdivisions = 2)
                    expect(rq.near(t.control_points, cps) and rq.near(t.measured_depths, mds), 'path is changed by making a spline from it')
                    check_spline(t, s, cps, mds)
                    # and with the datum in another crs
                    crs2 = rq.add_crs(m, xy_units = 'm', z_units = 'm' if crs_kw.get('xy_units') == 'ft' else 'ft', z_inc_down = not crs_kw.get('z_inc_down', True))
                    datum2 = MdDatum(m, crs_uuid = crs2.uuid, location = (0.0, 0.0, 0.0))
                    datum2.create_xml()
                    t = Trajectory(m, crs_uuid = crs.uuid, mds = mds, control_points = cps, md_datum = datum2, length_uom = 'm', well_name = 'w')
                    expect(t.crs_uuid == crs.uuid, 'crs given for the path')
                    check_inclinations(t, cps, crs_kw)
                ctx.state((moves, crs_kw, start, slack))
                rq.close(m)
            ctx.outcome('asked')

        ctx.run(dict(moves = moves), case)


def check_spline(t, s, cps, mds):
    expect(s.title == 'sp' and s.crs_uuid == t.crs_uuid and s.md_uom == t.md_uom and s.md_datum is t.md_datum and np.isclose(s.start_md, mds[0]), 'attributes of the spline')
    at = 0
    for k, p in enumerate(cps):  # original knots appear in order
        while at < s.knot_count and not np.allclose(s.control_points[at], p, atol = 1.0e-9):
            at += 1
        expect(at < s.knot_count, 'knot', k, 'of the path is not on the spline')
        if k == 0:
            expect(at == 0, 'spline does not begin at the first knot')
        elif k == len(cps) - 1:
            expect(at == s.knot_count - 1, 'spline does not end at the last knot')
    lengths = np.sqrt(np.sum(np.diff(s.control_points, axis = 0)**2, axis = 1))
    expect(s.knot_count >= 2 * (len(cps) - 1) + 1, 'spline has too few knots')
    expect(np.allclose(s.measured_depths, mds[0] + np.concatenate(([0.0], np.cumsum(lengths)))) and np.isclose(s.finish_md, s.measured_depths[-1]), 'measured depths of the spline')


def do_files(ctx):
    """Text files of several wells: every order and interleaving of the rows of 3 wells, and writing and reading again."""
    from resqpy.well import MdDatum, Trajectory, add_wells_from_ascii_file
    from resqpy.organize import WellboreFeature, WellboreInterpretation
    wells = {
        'A': [(0.0, 10.0, 20.0, 0.0), (5.0, 10.0, 20.0, 5.0), (15.0, 16.0, 20.0, 13.0)],
        'B 2': [(100.0, 50.0, 60.0, 95.0), (110.0, 50.0, 66.0, 103.0)],
        '7': [(0.0, -5.0, 1.0, -10.0), (20.0, -5.0, 1.0, 10.0), (21.0, -5.0, 1.5, 10.5), (25.0, -5.0, 2.0, 14.0)]
    }
    orders = sorted(set(itertools.permutations('AAABB777')))
    # whichever the interleaving, rows of one well stay in order
    for chunk in range(0, len(orders), 70):
        for space, well_col, other in ((False, 'WELL', False), (True, 'WELL', False), (False, 'Wellbore', True), (False, 'NAME', True)):

            def case(chunk = chunk, space = space, well_col = well_col, other = other):
                cols = dict(md_col = 'DEPTH', x_col = 'E', y_col = 'N', z_col = 'TVD') if other else dict(md_col = 'MD', x_col = 'X', y_col = 'Y', z_col = 'Z')
                for order in orders[chunk:chunk + 70:5]:
                    names = {'A': 'A', 'B': 'B_2' if space else 'B 2', '7': '7'}
                    its = {'A': iter(wells['A']), 'B': iter(wells['B 2']), '7': iter(wells['7'])}
                    sep = ' ' if space else ','
                    tx = ctx.path('w.txt')
                    with open(tx, 'w') as fp:
                        fp.write('# wells\n' + sep.join([well_col, cols['z_col'], cols['md_col'], 'OTHER', cols['x_col'], cols['y_col']]) + '\n')
                        for w in order:
                            md, x, y, z = next(its[w], (None,) * 4)
                            if md is None:
                                continue
                            fp.write(sep.join([names[w], str(z), str(md), '99', str(x), str(y)]) + '\n')
                    m = rq.new_model(ctx.path('f.epc'), h5 = True)
                    crs = rq.add_crs(m)
                    f, i, t, d = add_wells_from_ascii_file(m, crs.uuid, tx, space_separated_instead_of_csv = space, well_col = None if well_col == 'Wellbore' else well_col,
                                                           drilled = True, **cols)[:4] if not other else (None,) * 4
                    if other:
                        # the trajectory constructor itself, for one well
                        t = []
                        for w in ('A', 'B', '7'):
                            tr = Trajectory(m, well_name = names[w], crs_uuid = crs.uuid, length_uom = 'm')
                            kw = dict(well_col = well_col) if well_col == 'NAME' else {}
                            tr.load_from_ascii_file(tx, title = names[w], **cols, **kw)
                            t.append(tr)
                    else:
                        expect(len(f) == len(i) == len(t) == len(d) == 3, 'number of wells', len(f), len(i), len(t), len(d))
                        for k in range(3):
                            expect(f[k].feature_name == t[k].title and i[k].is_drilled and t[k].wellbore_interpretation is i[k] and t[k].md_datum is d[k], 'objects of a well')
                    expect(sorted(str(x.title) for x in t) == sorted(names.values()), 'names of wells', [x.title for x in t])
                    for tr in t:
                        w = 'A' if tr.title == 'A' else '7' if str(tr.title) == '7' else 'B'
                        rows = np.array(wells['B 2' if w == 'B' else w])[:order.count(w)]
                        expect(rq.near(tr.measured_depths, rows[:, 0]) and rq.near(tr.control_points, rows[:, 1:]), 'path of well', w, tr.control_points)
                        if not other:
                            xyz = rows[0, 1:].copy()
                            if rows[0, 0] != 0.0:
                                xyz[2] = 0.0
                            expect(rq.near(np.array(tr.md_datum.location), xyz), 'datum of well', w, tr.md_datum.location)
                    ctx.state((order, space, well_col))
                    rq.close(m)
                ctx.outcome('read')

            ctx.run(dict(orders = chunk, space = space, well_col = well_col), case)


def do_written(ctx):
    """A path written to text and read again; two paths in one file by appending."""
    from resqpy.well import MdDatum, Trajectory
    for moves in itertools.product(MOVES[:5], repeat = 2):
        for space, other in itertools.product((False, True), (False, True)):

            def case(moves = moves, space = space, other = other):
                m = rq.new_model(ctx.path('w.epc'), h5 = True)
                crs = rq.add_crs(m)
                datum = MdDatum(m, crs_uuid = crs.uuid, location = (1.0, 2.0, 3.0))
                datum.create_xml()
                cps = np.cumsum(np.array([(400.125, 300.0, 20.0)] + list(moves)), axis = 0)
                mds = np.array((5.0, 15.5, 31.25))
                t = Trajectory(m, mds = mds, control_points = cps, md_datum = datum, length_uom = 'ft', well_name = 'w')
                tx = ctx.path('w.txt')
                cols = dict(md_col = 'D', x_col = 'E', y_col = 'N', z_col = 'V') if other else {}
                t.write_to_ascii_file(tx, space_separated_instead_of_csv = space, **cols)
                t2 = Trajectory(m, crs_uuid = crs.uuid, well_name = 'w')
                t2.load_from_ascii_file(tx, space_separated_instead_of_csv = space, md_uom = 'ft', md_datum = datum, **cols)
                expect(rq.near(t2.measured_depths, mds) and rq.near(t2.control_points, cps) and t2.md_uom == 'ft', 'path read from text')
                if not other:
                    t3 = Trajectory(m, ascii_trajectory_file = tx, survey_file_space_separated = space, md_datum = datum, length_uom = 'ft', well_name = None)
                    expect(rq.near(t3.measured_depths, mds) and rq.near(t3.control_points, cps) and t3.md_uom == 'ft' and t3.md_datum is datum, 'path made from text')
                ctx.state((moves, space, other))
                ctx.outcome('same')
                rq.close(m)

            ctx.run(dict(moves = moves, space = space, other_columns = other), case)


def do_stored(ctx, with_tangents):
    """Everything about a path is the same when re-read, whichever the optional parts."""
    from resqpy.well import MdDatum, Trajectory
    from resqpy.organize import WellboreFeature, WellboreInterpretation
    for crs_i, start, domain, interp, uom, n in itertools.product(range(len(TCRS)), (0.0, 50.0), (None, 'driller', 'logger'), ('none', 'given', 'made'), ('m', 'ft'), (2, 4)):

        def case(crs_i = crs_i, start = start, domain = domain, interp = interp, uom = uom, n = n):
            path = ctx.path('p.epc')
            m = rq.new_model(path, h5 = True)
            rq.add_crs(m, title = 'other', x_offset = 5.0)
            crs = rq.add_crs(m, title = 'used', **TCRS[crs_i])
            cps = np.cumsum(np.array([(400.0, 300.0, 20.0), MOVES[0], MOVES[5], MOVES[1]][:n]), axis = 0)
            mds = start + np.arange(n) * 16.5
            datum = MdDatum(m, crs_uuid = crs.uuid, location = tuple(cps[0]) if start == 0.0 else (390.0, 300.0, 0.0), md_reference = 'kelly bushing')
            datum.create_xml()
            wi = None
            if interp == 'given':
                wf = WellboreFeature(m, feature_name = 'feat')
                wf.create_xml()
                wi = WellboreInterpretation(m, wellbore_feature = wf, is_drilled = True)
                wi.create_xml()
            t = Trajectory(m, mds = mds, control_points = cps, md_datum = datum, length_uom = uom, md_domain = domain, represented_interp = wi, well_name = 'w',
                           set_tangent_vectors = with_tangents)
            if interp == 'made':
                t.create_feature_and_interpretation()
            tv = None if t.tangent_vectors is None else t.tangent_vectors.copy()
            t.write_hdf5()
            t.create_xml()
            expect((tv is not None) == with_tangents, 'tangents made')
            m.store_epc()
            u = t.uuid
            wu = None if t.wellbore_interpretation is None else t.wellbore_interpretation.uuid
            rq.close(m)
            m = rq.open_model(path)
            t = Trajectory(m, uuid = u)
            expect(t.title == 'w' and t.md_uom == uom and t.md_domain == domain, 'attributes', t.title, t.md_uom, t.md_domain)
            expect(t.crs_uuid == crs.uuid and t.md_datum.uuid == datum.uuid and t.md_datum.crs_uuid == crs.uuid, 'crs and datum')
            expect((None if t.wellbore_interpretation is None else str(t.wellbore_interpretation.uuid)) == (None if wu is None else str(wu)) and (wu is not None) == (interp != 'none'), 'interpretation')
            if interp == 'made':
                expect(m.titles(obj_type = 'WellboreFeature') == ['w'], 'feature made for the path')
            expect((t.tangent_vectors is None) == (tv is None) and (tv is None or rq.near(t.tangent_vectors, tv)), 'tangents re-read')
            check_questions(t, mds, cps, np.array(datum.location), TCRS[crs_i])
            ctx.state((crs_i, start, domain, interp, uom, n))
            ctx.outcome('kept')
            rq.close(m)

        ctx.run(dict(crs = crs_i, start = start, domain = domain, interpretation = interp, uom = uom, knots = n, tangents = with_tangents), case)


def do_cells(ctx):
    """A path through the centres of listed cells."""
    from resqpy.grid import RegularGrid
    from resqpy.well import Trajectory
    cells = list(itertools.product((0, 1), (0, 1), (0, 1)))
    for r in (1, 2, 3):
        for first in cells:

            def case(r = r, first = first):
                m = rq.new_model(ctx.path('c.epc'), h5 = True)
                crs = rq.add_crs(m, z_offset = 100.0)
                g = RegularGrid(m, extent_kji = (2, 2, 2), dxyz = (10.0, 20.0, 4.0), crs_uuid = crs.uuid)
                for rest in itertools.product(cells, repeat = r - 1):
                    lst = (first,) + rest
                    if any(a == b for a, b in zip(lst, lst[1:])):
                        continue
                    centres = np.array([((i + 0.5) * 10.0, (j + 0.5) * 20.0, (k + 0.5) * 4.0) for k, j, i in lst])
                    for mode in ('none', 'linear', 'square', 'cube'):
                        t = Trajectory(m, grid = g, cell_kji0_list = np.array(lst), spline_mode = mode, length_uom = 'm', crs_uuid = crs.uuid)
                        at = 0
                        for c in centres:
                            while at < t.knot_count and not np.allclose(t.control_points[at], c):
                                at += 1
                            expect(at < t.knot_count, 'path does not visit', c, 'in turn, mode', mode)
                        lengths = np.sqrt(np.sum(np.diff(t.control_points, axis = 0)**2, axis = 1))
                        expect(t.start_md == 0.0 and np.allclose(t.measured_depths, np.concatenate(([0.0], np.cumsum(lengths)))) and np.isclose(t.finish_md, lengths.sum()),
                               'measured depths along the path through cells')
                        ctx.state((lst, mode))
                ctx.outcome('visited')
                rq.close(m)

            ctx.run(dict(cells = r, first = first), case)


def warm(tier):
    import pandas, resqpy.well, resqpy.grid, resqpy.organize  # noqa


def jobs(tier):
    for d in DIRS:
        yield f'surveys from {d}', do_surveys, dict(kinds = list(range(len(KINDS))), first = d, n = 3)
        if tier == 'thorough':
            yield f'longer surveys from {d}', do_surveys, dict(kinds = [0, 15], first = d, n = 4)
    for k in range(len(KINDS)):
        yield f'survey routes {k}', do_survey_routes, dict(kn = k)
    for mv in MOVES:
        for n in (3, 4) if tier == 'quick' else (3, 4, 5):
            yield f'tables of {n} from {mv}', do_tables, dict(first = mv, n = n)
    yield 'files', do_files, {}
    yield 'written', do_written, {}
    for tv in (False, True):
        yield f'stored {tv}', do_stored, dict(with_tangents = tv)
    yield 'cells', do_cells, {}
