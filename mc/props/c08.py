"""C08: conversion of coordinates between reference systems is the composition of the transforms which the systems specify.

(single) every coordinate system of a product of attributes x global conventions x points, one by one and as arrays, against
explicit trigonometry;  (pairs) every ordered pair of a set of systems, all four conversion methods, round trips and
composition;  (objects) surfaces, point sets, polylines, and operations on mixed systems: same place in the world after
conversion, and inputs untouched;  (grid) global and local boxes and points of grids."""

import itertools
import math

import numpy as np

from mc import rq
from mc.core import expect

ID = 'C08'
TITLE = 'coordinate reference systems'
BOUNDS = {
    'quick': '6 axis orders x 2 z directions x 7 rotations x 3 offsets x (6 global orders x 2 z directions) x 4 points; all pairs of '
             '97 systems (units, offsets, rotation, axis order, z direction, time); 16 x 16 pairs for surfaces, point sets and '
             'polylines; 24 systems for grid boxes',
    'thorough': 'all pairs of 289 systems and all triples of 30'
}
COMPASS = {'easting': (1.0, 0.0), 'northing': (0.0, 1.0), 'westing': (-1.0, 0.0), 'southing': (0.0, -1.0)}
ORDERS = ('easting northing', 'northing easting', 'westing southing', 'southing westing', 'northing westing', 'westing northing')
M = {'m': 1.0, 'ft': 0.3048, 'km': 1000.0, 'ft[US]': 1200.0 / 3937.0}
T = {'s': 1.0, 'ms': 0.001}
PTS = np.array([(0.0, 0.0, 0.0), (1.0, 0.0, 10.0), (0.0, 2.0, -3.0), (-123.25, 456.5, 2000.125)])


def warm(tier):
    import resqpy.crs, resqpy.model, resqpy.surface, resqpy.lines, resqpy.grid  # noqa


def to_world(c, p):
    """East, north, down in metres (or seconds) of points p given in system c (dict of attributes)."""
    p = np.array(p, dtype = float)
    deg = c['rotation'] * (180.0 / math.pi if c['rotation_units'] == 'rad' else 1.0)
    rad = math.radians(deg)
    # bearings of the local axes: those of the axis order, turned clockwise
    out = np.zeros(p.shape)
    ax = [COMPASS[w] for w in c['axis_order'].split()]
    for i, (e, n) in enumerate(ax):
        ce, cn = e * math.cos(rad) + n * math.sin(rad), n * math.cos(rad) - e * math.sin(rad)
        out[..., 0] += p[..., i] * ce
        out[..., 1] += p[..., i] * cn
    for i, o in enumerate((c['x_offset'], c['y_offset'])):
        out[..., 0] += o * ax[i][0]
        out[..., 1] += o * ax[i][1]
    out[..., 2] = p[..., 2] + c['z_offset']
    if not c['z_inc_down']:
        out[..., 2] *= -1.0
    out[..., :2] *= M[c['xy_units']]
    out[..., 2] *= T[c['time_units']] if c['time_units'] else M[c['z_units']]
    return out


def convention(order, down):
    return dict(base(), axis_order = order, z_inc_down = down)


def base():
    return dict(x_offset = 0.0, y_offset = 0.0, z_offset = 0.0, rotation = 0.0, rotation_units = 'dega', xy_units = 'm', z_units = 'm',
                z_inc_down = True, axis_order = 'easting northing', time_units = None)


def near(a, b):
    a, b = np.array(a, dtype = float), np.array(b, dtype = float)
    return a.shape == b.shape and np.allclose(a, b, rtol = 1.0e-9, atol = 1.0e-6)


def _single(ctx, order):
    import resqpy.crs as rqc
    for down in (True, False):
        for rot, units in ((0.0, 'dega'), (30.0, 'dega'), (90.0, 'dega'), (-60.0, 'dega'), (200.0, 'dega'), (0.5, 'rad'),
                           (360.0, 'dega')):
            for off in ((0.0, 0.0, 0.0), (1000.0, 0.0, 7.0), (-5.0, 250.0, 0.0)):
                c = dict(base(), axis_order = order, z_inc_down = down, rotation = rot, rotation_units = units,
                         x_offset = off[0], y_offset = off[1], z_offset = off[2])
                ctx.run((down, rot, units, off), _single_case, ctx, rqc, c)


def _single_case(ctx, rqc, c):
    import resqpy.model as rqm
    crs = rqc.Crs(None, **c)
    e = [COMPASS[w] for w in c['axis_order'].split()]
    right = e[0][0] * e[1][1] - e[0][1] * e[1][0] < 0.0  # clockwise from x to y when seen from above
    expect(crs.is_right_handed_xy() is right, 'handedness of xy axes', c['axis_order'])
    expect(crs.is_right_handed_xyz() is (right == c['z_inc_down']), 'handedness of axes', c)
    world = to_world(c, PTS)
    for order in ORDERS:
        for down in (True, False):
            g = convention(order, down)
            kw = dict(global_z_inc_down = down, global_axis_order = order)
            for p, w in zip(PTS, world):
                q = crs.local_to_global(tuple(p), **kw)
                expect(near(to_world(g, np.array(q, dtype = float)), w), 'local to global', c, kw, p, 'is', q)
                expect(near(crs.global_to_local(q, **kw), p), 'global to local', c, kw, q, 'is', crs.global_to_local(q, **kw))
            for shape in ((4, 3), (2, 2, 3), (1, 4, 1, 3)):
                a = PTS.reshape(shape).copy()
                crs.local_to_global_array(a, **kw)
                expect(near(to_world(g, a), world.reshape(shape)), 'local to global for array', c, kw, a)
                crs.global_to_local_array(a, **kw)
                expect(near(a, PTS.reshape(shape)), 'global to local for array', c, kw, a)
            ctx.step(8)
    # the defaults are easting, northing, down
    expect(near(crs.local_to_global(PTS[3]), crs.local_to_global(PTS[3], True, 'easting northing')), 'default convention')
    a, b = PTS.copy(), PTS.copy()
    crs.local_to_global_array(a)
    crs.local_to_global_array(b, True, 'easting northing')
    expect(near(a, b), 'default convention for array')
    p = tuple(PTS[3])
    crs.local_to_global(p), crs.global_to_local(PTS[2])
    expect(p == tuple(PTS[3]), 'point modified')
    ctx.state(c)


def systems(n):
    alts = dict(x_offset = (400000.0,), y_offset = (-77.5,), z_offset = (12.5,), rotation = (33.0, -120.0), xy_units = ('ft', 'ft[US]'),
                z_units = ('ft', 'km'), z_inc_down = (False,), axis_order = ORDERS[1:], rotation_units = ('rad',))
    out = [base()]
    one = [(a, v) for a in alts for v in alts[a]]
    for k in range(1, n + 1):
        for combo in itertools.combinations(one, k):
            if len({a for a, _ in combo}) < k:
                continue
            c = dict(base())
            c.update(combo)
            out.append(c)
    full = dict(x_offset = 1000.0, y_offset = 2000.0, z_offset = -30.0, rotation = 0.75, rotation_units = 'rad', xy_units = 'ft',
                z_units = 'm', z_inc_down = False, axis_order = 'northing westing', time_units = None)
    out.append(full)
    return out


def times(cs):
    return [dict(c, time_units = t) for c in cs for t in ('s', 'ms')]


def _pairs(ctx, cs, part, parts):
    import resqpy.crs as rqc
    m = rq.new_model(ctx.path())
    keep = [(c, rqc.Crs(m, **c)) for c in cs]
    for c, a in keep[part::parts]:
        ctx.run(c, _pair_case, ctx, c, a, keep)


def same_transform(c, d):
    k = [x for x in c if x not in ('rotation', 'rotation_units')]
    return all(c[x] == d[x] for x in k) and near(to_world(c, PTS), to_world(d, PTS))


def _pair_case(ctx, c, a, keep):
    world = to_world(c, PTS)
    for d, b in keep:
        if (c['time_units'] is None) != (d['time_units'] is None):
            for f in (lambda: a.convert_to(b, PTS[1]), lambda: a.convert_from(b, PTS[1]),
                      lambda: a.convert_array_to(b, PTS.copy()), lambda: a.convert_array_from(b, PTS.copy())):
                expect(rq.raises(f) is not None, 'time converted to depth')
            continue
        given = PTS.copy()
        out = a.convert_array_to(b, given)
        expect(out is given, 'conversion of array is not in place')
        expect(near(to_world(d, out), world), 'conversion from', c, 'to', d, 'of', PTS, 'is', out)
        x = PTS.copy()
        back = b.convert_array_from(a, x)
        expect(back is x and near(back, out), 'conversion as from', c, 'to', d, back, out)
        rt = out.copy()
        b.convert_array_to(a, rt)
        expect(near(rt, PTS), 'round trip', c, d, rt)
        y = out.copy()
        a.convert_array_from(b, y)
        expect(near(y, PTS), 'round trip', c, d, y)
        for i, p in enumerate(PTS):
            for given in (tuple(p), p.copy(), list(p)):
                q = a.convert_to(b, given)
                expect(isinstance(q, tuple) and len(q) == 3 and near(q, out[i]), 'point from', c, 'to', d, p, 'is', q, out[i])
                expect(list(given) == list(p), 'point modified')
            q = b.convert_from(a, tuple(p))
            expect(isinstance(q, tuple) and near(q, out[i]), 'point as from', c, 'to', d, p, 'is', q, out[i])
        ctx.step(8)
    ctx.state(c)


def _triples(ctx, cs, part, parts):
    import resqpy.crs as rqc
    keep = [(c, rqc.Crs(None, **c)) for c in cs]
    for c, a in keep[part::parts]:
        ctx.run(c, _triple_case, ctx, c, a, keep)


def _triple_case(ctx, c, a, keep):
    for d, b in keep:
        for e, f in keep:
            p, q = PTS.copy(), PTS.copy()
            a.convert_array_to(b, p)
            b.convert_array_to(f, p)
            a.convert_array_to(f, q)
            expect(near(p, q), 'conversion by way of', d, 'from', c, 'to', e)
            ctx.step()


TRI = np.array([[0, 1, 2], [1, 2, 3]], dtype = int)


def few():
    b = base()
    out = [b, dict(b, x_offset = 100.0), dict(b, y_offset = -50.0, rotation = 30.0), dict(b, xy_units = 'ft', z_units = 'ft'),
           dict(b, xy_units = 'm', z_units = 'ft'), dict(b, z_inc_down = False), dict(b, z_inc_down = False, z_offset = 100.0),
           dict(b, axis_order = 'northing easting'), dict(b, axis_order = 'westing northing', x_offset = 10.0)]
    return out + [systems(0)[-1]]


def _objects(ctx, i):
    cs = few()
    for j in range(len(cs)):
        ctx.run((i, j), _object_case, ctx, cs[i], cs[j])


def _object_case(ctx, c, d):
    import resqpy.crs as rqc
    import resqpy.lines as rql
    import resqpy.surface as rqs
    path = ctx.path()
    m = rq.new_model(path, h5 = True)
    a, b = rqc.Crs(m, **c), rqc.Crs(m, **d)
    a.create_xml(reuse = False)
    b.create_xml(reuse = False)
    world = to_world(c, PTS)
    equivalent = c == d
    # surface with one patch, made from arrays, and one re-read from the model
    mine = PTS.copy()
    s = rqs.Surface(m, crs_uuid = a.uuid, title = 's')
    s.set_from_triangles_and_points(TRI.copy(), mine)
    s.write_hdf5()
    s.create_xml()
    su = s.uuid
    two = rqs.Surface(m, crs_uuid = a.uuid, title = 's2')
    two.set_multi_patch_from_triangles_and_points([(TRI.copy(), PTS.copy()), (TRI.copy(), PTS.copy())])
    for given in (rqs.Surface(m, uuid = su), two):
        given.triangles_and_points()
        n = len(given.triangles_and_points()[1])
        u = given.uuid
        given.change_crs(b)
        expect(given.crs_uuid == b.uuid, 'crs of surface')
        t, p = given.triangles_and_points()
        expect(rq.same(t[:2], TRI), 'triangles')
        expect(near(to_world(d, p), np.concatenate([world] * (n // 4))), 'surface from', c, 'to', d, p)
        expect((given.uuid == u) == equivalent, 'uuid of surface after change of crs')
        for patch in range(len(given.patch_list)):
            expect(near(to_world(d, given.triangles_and_points(patch = patch)[1]), world), 'patch of surface')
        given.change_crs(a)
        expect(near(given.triangles_and_points()[1], np.concatenate([PTS] * (n // 4))), 'surface changed back')
    again = rqs.Surface(m, uuid = su)
    expect(rq.same(again.triangles_and_points()[1], PTS) and again.crs_uuid == a.uuid, 'stored surface changed')
    # point set of two patches
    ps = rqs.PointSet(m, crs_uuid = a.uuid, points_array = PTS.copy(), title = 'p')
    ps.add_patch(PTS[:2])
    ps.write_hdf5()
    ps.create_xml()
    pu = ps.uuid
    for given in (ps, rqs.PointSet(m, uuid = pu)):
        e = [world, world[:2]]
        given.change_crs(b)
        expect(given.crs_uuid == b.uuid, 'crs of point set')
        for k in range(2):
            expect(near(to_world(d, given.single_patch_array_ref(k)), e[k]), 'patch of point set from', c, 'to', d)
        expect(near(to_world(d, given.full_array_ref()), np.concatenate(e)), 'point set from', c, 'to', d, given.full_array_ref())
    expect(rq.same(rqs.PointSet(m, uuid = pu).full_array_ref(), np.concatenate((PTS, PTS[:2]))), 'stored point set changed')
    # lines of two systems combined
    l1 = rql.Polyline(m, set_bool = False, set_coord = PTS.copy(), set_crs = a.uuid, title = 'l1')
    there = PTS.copy()
    a.convert_array_to(b, there)
    l2 = rql.Polyline(m, set_bool = False, set_coord = there.copy(), set_crs = b.uuid, title = 'l2')
    l3 = rql.Polyline(m, set_bool = False, set_coord = PTS.copy(), set_crs = a.uuid, title = 'l3')
    for turn in range(2):  # a second time gives the same
        pls = rql.PolylineSet(m, title = 'set')
        pls.combine_polylines([l1, l2, l3])
        expect(pls.crs_uuid == a.uuid, 'crs of set')
        expect(near(pls.coordinates, np.concatenate([PTS] * 3)), 'combined lines', pls.coordinates)
        pp = rqs.PointSet(m, polyset = pls, title = 'from set')
        expect(near(pp.full_array_ref(), np.concatenate([PTS] * 3)), 'point set from lines', pp.full_array_ref())
        expect(rq.same(l1.coordinates, PTS) and rq.same(l2.coordinates, there) and rq.same(l3.coordinates, PTS), 'line modified')
    ctx.state((c, d))
    ctx.step(12)


def _grid(ctx, i):
    ctx.run(i, _grid_case, ctx, few()[i])


def _grid_case(ctx, c):
    import resqpy.crs as rqc
    import resqpy.grid as grr
    path = ctx.path()
    m = rq.new_model(path, h5 = True)
    a = rqc.Crs(m, **c)
    a.create_xml(reuse = False)
    g = grr.RegularGrid(m, extent_kji = (2, 2, 3), dxyz = (10.0, 20.0, 5.0), crs_uuid = a.uuid, set_points_cached = True, as_irregular_grid
                        = True)
    expect(g.z_inc_down() is c['z_inc_down'], 'direction of z')
    local = g.points_ref(masked = False).reshape(-1, 3)
    kw = dict(global_z_inc_down = c['z_inc_down'], global_axis_order = c['axis_order'])
    p = local.copy()
    a.local_to_global_array(p, **kw)
    for grid in (g,):
        for lazy in (False, True):
            lo = grid.xyz_box(lazy = lazy, local = True)
            expect(near(lo, [local.min(axis = 0), local.max(axis = 0)]), 'local box', lo)
            centre = grid.xyz_box_centre(lazy = lazy, local = True)
            expect(near(centre, (local.min(axis = 0) + local.max(axis = 0)) / 2.0), 'local centre', centre)
            if c['rotation'] == 0.0:
                gl = grid.xyz_box(lazy = lazy, local = False)
                expect(near(gl, [p.min(axis = 0), p.max(axis = 0)]), 'global box', gl, 'expected', p.min(axis = 0), p.max(axis = 0))
                expect(near(grid.xyz_box(lazy = lazy, local = True), lo), 'local box afterwards')
            q = local.copy()
            grid.local_to_global_crs(q, crs_uuid = a.uuid)
            grid.global_to_local_crs(q, crs_uuid = a.uuid)
            expect(near(q, local), 'round trip of grid points')
            for xu, zu, down in itertools.product((None, 'm', 'ft'), (None, 'm', 'ft'), (None, True, False)):
                k2 = dict(global_xy_units = xu, global_z_units = zu, global_z_increasing_downward = down)
                q = local.reshape(-1, 2, 3).copy()
                r = grid.local_to_global_crs(q, crs_uuid = a.uuid, **k2)
                expect(r is q, 'not in place')
                back = grid.global_to_local_crs(q.copy(), crs_uuid = a.uuid, **k2)
                expect(near(back, local.reshape(-1, 2, 3)), 'round trip', k2)
                if c['rotation'] == 0.0 and down in (None, c['z_inc_down']):
                    e = p.reshape(-1, 2, 3).copy()
                    e[..., :2] *= M[c['xy_units']] / M[xu or c['xy_units']]
                    e[..., 2] *= M[c['z_units']] / M[zu or c['z_units']]
                    expect(near(q, e), 'grid points to global', c, k2, q[0], e[0])
                ctx.step(2)
            expect(near(grid.points_ref(masked = False).reshape(-1, 3), local), 'points of grid changed')
    if c['rotation'] != 0.0:
        q = local.copy()
        g.local_to_global_crs(q, crs_uuid = a.uuid)
        expect(near(q, p), 'points of grid in a rotated crs converted to global differ from those given by the crs')
    ctx.state(c)


def jobs(tier):
    thorough = tier == 'thorough'
    cs = systems(3 if thorough else 2)
    out = [(f'single-{o}', _single, dict(order = o)) for o in ORDERS]
    n = 8
    out += [(f'pairs{i}', _pairs, dict(cs = cs, part = i, parts = n)) for i in range(n)]
    out += [('times', _pairs, dict(cs = times(systems(1)) + systems(1)[:3], part = 0, parts = 1))]
    out += [(f'triples{i}', _triples, dict(cs = systems(1) if thorough else few(), part = i, parts = 4)) for i in range(4)]
    out += [(f'objects{i}', _objects, dict(i = i)) for i in range(len(few()))]
    out += [(f'grid{i}', _grid, dict(i = i)) for i in range(len(few()))]
    return out
