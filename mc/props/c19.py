"""C19: a regular (block) grid answers as the explicit grid with the same cells does.

A reference set of nodes is worked out by plain arithmetic from the extent, the three steps and the origin.  Every way of
holding the regular grid (in memory, with points, as an irregular grid, stored in lattice form or by steps only and read
again, made from a regular mesh) is asked for its geometry in several orders, and the answers are compared with the
arithmetic and with those of an ordinary Grid object holding the nodes explicitly."""

import itertools

import numpy as np

from mc import rq
from mc.core import about, expect
from mc.props.c18 import V, ask, eq, grid_queries

ID = 'C19'
TITLE = 'A regular grid has the geometry its extent, steps and origin define, however it is held'
BOUNDS = dict(quick = 'all 27 extents up to 3 cells per axis, all 8 sign choices of aligned steps, 5 sets of oblique steps, 6 ways of holding the grid, every ordered pair of 17 questions',
              thorough = 'all 64 extents up to 4 cells per axis, and all 27 against an explicit grid')

C30, S30 = float(np.cos(np.pi / 6)), float(np.sin(np.pi / 6))
OBLIQUE = {  # steps in K, J, I
    'turned': ((0.0, 0.0, 4.0), (-6.0 * S30, 6.0 * C30, 0.0), (5.0 * C30, 5.0 * S30, 0.0)),
    'turned left': ((0.0, 0.0, 4.0), (6.0 * S30, 6.0 * C30, 0.0), (-5.0 * C30, 5.0 * S30, 0.0)),
    'tilted': ((0.0, -4.0 * S30, 4.0 * C30), (0.0, 6.0 * C30, 6.0 * S30), (5.0, 0.0, 0.0)),
    'leaning': ((1.0, -0.5, 4.0), (0.0, 6.0, 0.0), (5.0, 0.0, 0.0)),
    'sheared': ((0.0, 0.0, 4.0), (2.0, 6.0, 0.5), (5.0, 1.0, -0.25)),
}
ORTHOGONAL = ('turned', 'turned left', 'tilted')
WAYS = ('memory', 'points', 'lattice', 'steps only', 'irregular', 'irregular stored')


def aligned_steps(signs):
    return ((0.0, 0.0, signs[2] * 4.0), (0.0, signs[1] * 6.0, 0.0), (signs[0] * 5.0, 0.0, 0.0))


def nodes_for(shape, steps, origin = (0.0, 0.0, 0.0)):
    nk, nj, ni = shape
    s = np.array(steps)
    p = np.empty((nk + 1, nj + 1, ni + 1, 3))
    for k in range(nk + 1):
        for j in range(nj + 1):
            for i in range(ni + 1):
                p[k, j, i] = np.array(origin) + k * s[0] + j * s[1] + i * s[2]
    return p


def corners_for(nodes):
    nk, nj, ni = (n - 1 for n in nodes.shape[:3])
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for kp, jp, ip in itertools.product((0, 1), repeat = 3):
        cp[:, :, :, kp, jp, ip] = nodes[kp:nk + kp, jp:nj + jp, ip:ni + ip]
    return cp


def explicit(m, crs, nodes, vertical):
    from resqpy.grid import Grid
    g = Grid(m, title = 'explicit')
    g.grid_representation = 'IjkGrid'
    g.extent_kji = np.array([n - 1 for n in nodes.shape[:3]])
    g.nk, g.nj, g.ni = (int(n) for n in g.extent_kji)
    g.k_direction_is_down, g.grid_is_right_handed = True, False
    g.pillar_shape = 'vertical' if vertical else 'straight'
    g.has_split_coordinate_lines = False
    g.k_raw_index_array = np.arange(g.nk)
    g.points_cached = nodes.copy()
    g.geometry_defined_for_all_pillars_cached = g.geometry_defined_for_all_cells_cached = True
    g.crs_uuid, g.crs = crs.uuid, crs
    g.write_hdf5()
    g.create_xml()
    return g


def make(ctx, shape, steps, way, aligned, origin = None, crs_kw = {}):
    """(model, regular grid, crs it should be in)"""
    from resqpy.grid import RegularGrid, any_grid
    path = ctx.path('r.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, title = 'c', **crs_kw)
    kw = dict(title = 'regular', crs_uuid = crs.uuid)
    if aligned:
        kw['dxyz'] = (steps[2][0], steps[1][1], steps[0][2])
    else:
        kw['dxyz_dkji'] = np.array(steps)
    if origin is not None:
        kw['origin'] = origin
    if way == 'points':
        kw['set_points_cached'] = True
    elif way.startswith('irregular'):
        kw['as_irregular_grid'] = True
    g = RegularGrid(m, extent_kji = shape, **kw)
    ctx.step()
    if way in ('memory', 'points'):
        return m, g
    if way == 'irregular':
        return m, g
    if way == 'irregular stored':
        g.write_hdf5()
        g.create_xml(write_geometry = True, add_cell_length_properties = False)
    elif way == 'lattice':
        g.create_xml()
    elif way == 'steps only':
        g.create_xml(write_geometry = False, use_lattice = False)
    m.store_epc()
    u = g.uuid
    rq.close(m)
    m = rq.open_model(path)
    return m, any_grid(m, uuid = u)


def geometry_checks(nodes, steps, aligned, g, irregular, offset = 0.0):
    """Named checks, each of which can be made at any time."""
    nk, nj, ni = shape = tuple(n - 1 for n in nodes.shape[:3])
    nodes = nodes + offset
    cp = corners_for(nodes)
    centres = cp.mean(axis = (3, 4, 5))
    last = (nk - 1, nj - 1, ni - 1)
    cells = list(itertools.product(range(nk), range(nj), range(ni)))

    def near(got, want, what):
        expect(got is not None and np.shape(got) == np.shape(want) and np.allclose(got, want, rtol = 1.0e-6, atol = 1.0e-6), what, 'got', got, 'not', want)

    def corners_one():
        for c in cells:
            near(g.corner_points(c), cp[c], f'corner points of cell {c}')

    def corners_last_cached():
        near(g.corner_points(last, cache_cp_array = True), cp[last], 'corner points of the last cell (cached)')

    def corners_all():
        near(g.corner_points(), cp, 'corner points')

    def centres_one():
        for c in cells:
            near(g.centre_point(c), centres[c], f'centre of cell {c}')

    def centres_all():
        near(g.centre_point(), centres, 'centres')

    def centre_list():
        near(g.centre_point_list(np.array(cells)), centres.reshape((-1, 3)), 'list of centres')

    def centres_without_origin():
        if not hasattr(g, 'block_dxyz_dkji'):
            return
        o = nodes[0, 0, 0] if irregular else np.full(3, 0.0) + offset
        near(g.centre_point(last, use_origin = False), centres[last] - o, 'centre relative to the origin')
        near(g.centre_point(use_origin = False), centres - o, 'centres relative to the origin')
        near(g.centre_point(cells[0], use_origin = False), centres[cells[0]] - o, 'centre of the first cell, relative to the origin')
        near(g.centre_point(), centres, 'centres after those relative to the origin')

    def points():
        g.make_regular_points_cached() if hasattr(g, 'make_regular_points_cached') else None
        near(g.points_ref(masked = False), nodes, 'points')

    def point():
        for ix in itertools.product((0, nk), (0, nj), (0, ni)):
            near(g.point_raw(index = ix), nodes[ix], f'point {ix}')

    def point_uncached():
        for ix in itertools.product((0, nk), (0, nj), (0, ni)):
            near(g.point_raw(index = ix, cache_array = False), nodes[ix], f'point {ix}, not cached')

    def box():
        b = g.xyz_box(local = True, lazy = False)
        near(b, np.array((nodes.reshape((-1, 3)).min(axis = 0), nodes.reshape((-1, 3)).max(axis = 0))), 'box')

    def slices():
        if not hasattr(g, 'slice_points'):
            return
        for axis in range(3):
            for s in range(shape[axis] + 1):
                near(g.slice_points(axis = axis, ref_slice = s, local = True), np.take(nodes, s, axis = axis), f'slice {s} in axis {axis}')

    def columns():
        if hasattr(g, 'aligned_column_centres') and g.is_aligned:
            near(g.aligned_column_centres(), centres[0, :, :, :2], 'column centres')
        if not aligned or (irregular and hasattr(g, 'is_aligned')):
            return
        for j in range(nj):
            for i in range(ni):
                got = g.find_cell_for_point_xy(centres[0, j, i, 0], centres[0, j, i, 1])
                expect(tuple(got) == (j, i), 'column found for the centre of column', (j, i), 'is', got)
        if irregular:
            return
        for x, y in ((nodes[..., 0].min() - 1.0, centres[0, 0, 0, 1]), (nodes[..., 0].max() + 1.0, centres[0, 0, 0, 1]),
                     (centres[0, 0, 0, 0], nodes[..., 1].min() - 1.0), (centres[0, 0, 0, 0], nodes[..., 1].max() + 1.0)):
            got = g.find_cell_for_point_xy(x, y)
            expect(tuple(got) == (None, None), 'column found for a point outside:', got)

    def lengths():
        s = np.array(steps)
        for c in (cells[0], last):
            near(g.interface_vectors_kji(c), s, 'interface vectors')
            near(g.interface_lengths_kji(c), np.sqrt(np.sum(s * s, axis = 1)), 'interface lengths')
        if hasattr(g, 'axial_lengths_kji'):
            near(g.axial_lengths_kji(), np.sqrt(np.sum(s * s, axis = 1)), 'axial lengths')
        if hasattr(g, 'aligned_dxyz') and g.is_aligned:
            near(g.aligned_dxyz(), (s[2, 0], s[1, 1], s[0, 2]), 'steps')

    def extent():
        expect(tuple(g.extent_kji) == shape and (g.nk, g.nj, g.ni) == shape, 'extent', g.extent_kji)
        expect(g.cell_count() == nk * nj * ni, 'cell count', g.cell_count())

    def volumes():
        s = np.array(steps)
        if abs(s[0] @ s[1]) + abs(s[0] @ s[2]) + abs(s[1] @ s[2]) > 1.0e-6:
            return  # documented as only for orthogonal steps
        v = abs(np.linalg.det(s))
        if hasattr(g, 'block_dxyz_dkji'):
            near(g.volume(last), v, 'volume')
            near(g.volume(), np.full(shape, v), 'volumes')
            near(g.thickness(last), np.sqrt(s[0] @ s[0]), 'thickness')
            near(g.thickness(), np.full(shape, np.sqrt(s[0] @ s[0])), 'thicknesses')
        elif g.root is not None:
            near(np.abs(g.volume()), np.full(shape, v), 'volumes')
        expect(not np.any(g.pinched_out()), 'pinched out cells')

    def shape_of_pillars():
        want = 'vertical' if steps[0][0] == 0.0 and steps[0][1] == 0.0 else 'straight'
        expect(g.actual_pillar_shape() == want, 'pillar shape', g.actual_pillar_shape(), 'not', want)

    return dict((f.__name__, f) for f in (corners_one, corners_last_cached, corners_all, centres_one, centres_all, centre_list, centres_without_origin,
                                          points, point, point_uncached, box, slices, columns, lengths, extent, volumes, shape_of_pillars))


def configs():
    for sg in itertools.product((1, -1), repeat = 3):
        yield 'signs ' + ''.join('-+'[s > 0] for s in sg), aligned_steps(sg), True
    for n, s in OBLIQUE.items():
        yield n, s, False


def ways_for(aligned, steps):
    if aligned and min(steps[0][2], steps[1][1], steps[2][0]) < 0.0:
        return tuple(w for w in WAYS if w != 'steps only')  # see do_signs_of_steps_only
    return WAYS if aligned else ('memory', 'points', 'irregular', 'irregular stored')


def do_geometry(ctx, names, extents, pairs = False):
    for name, steps, aligned in configs():
        if name not in names:
            continue
        for shape in extents:
            for way in ways_for(aligned, steps):
                irr = way.startswith('irregular')
                origins = (None, (100.5, -200.25, 50.0)) if irr else (None,)
                for origin in origins:
                    orders = ['given', 'backwards']
                    if pairs:
                        orders += ['pair']
                    for order in orders:

                        def case(shape = shape, steps = steps, way = way, aligned = aligned, origin = origin, order = order, irr = irr):
                            m, g = make(ctx, shape, steps, way, aligned, origin)
                            nodes = nodes_for(shape, steps, origin or (0.0, 0.0, 0.0))
                            checks = geometry_checks(nodes, steps, aligned, g, irr)
                            if order == 'pair':
                                for a, b in itertools.permutations(checks, 2):
                                    if a != 'corners_one':  # nothing left to cache after those
                                        continue
                                    checks[a](), checks[b]()
                                    ctx.state((shape, steps, way, a, b))
                            seq = list(checks)
                            if order == 'backwards':
                                seq.reverse()
                            for n in seq:
                                with about((n, 'when asked in order', order)):
                                    checks[n]()
                                ctx.state((name, shape, way, origin, order, n))
                            for n in seq:  # and again, now that all is cached
                                with about((n, 'asked again', order)):
                                    checks[n]()
                            ctx.outcome('same')
                            rq.close(m)

                        ctx.run(dict(steps = name, extent = shape, way = way, origin = origin, order = order), case)


# the two kinds of grid are known to answer these in different terms
DIFFERENT = ('attributes', 'k gaps', 'cell defined', 'cells defined', 'pillar defined', 'pillars defined', 'properties', 'thickness', 'thicknesses',
             'volume', 'volumes', 'volumes ft3', 'pinched all cached', 'point raw', 'point raw uncached', 'transmissibility', 'half cell',
             'off handed', 'corp', 'corp in feet', 'box thorough', 'edge directions', 'find cell', 'uncache', 'invalidate', 'cache all', 'skin',
             'fault connections', 'fault connections active or not', 'pinchout connections', 'k gap connections', 'pinched')


def do_explicit(ctx, names, extents):
    for name, steps, aligned in configs():
        if name not in names:
            continue
        for shape in extents:
            for way in ways_for(aligned, steps):
                if way == 'irregular':
                    continue

                def case(shape = shape, steps = steps, way = way, aligned = aligned):
                    m, g = make(ctx, shape, steps, way, aligned)
                    m2 = rq.new_model(ctx.path('e.epc'), h5 = True)
                    crs2 = rq.add_crs(m2, title = 'c')
                    e = explicit(m2, crs2, nodes_for(shape, steps), steps[0][:2] == (0.0, 0.0))
                    qg, qe = grid_queries(ctx, g), grid_queries(ctx, e)
                    if g.nk > 1 or g.nj > 1 or g.ni > 1:
                        pass
                    for n in qe:
                        if n in DIFFERENT or n not in qg:
                            continue
                        if n in ('points', 'points masked') and hasattr(g, 'make_regular_points_cached'):
                            g.make_regular_points_cached()
                        a, b = V(ask(qg[n], g)), V(ask(qe[n], e))
                        expect(eq(a, b), 'answer to', n, 'of a regular grid', a, 'of the explicit grid', b)
                        ctx.state((name, shape, way, n))
                    ctx.outcome('alike')
                    rq.close(m), rq.close(m2)

                ctx.run(dict(steps = name, extent = shape, way = way, against = 'explicit grid'), case)


def do_mesh(ctx, extents):
    """A regular grid based on a regular mesh: a column for each quadrilateral."""
    from resqpy.surface import Mesh
    from resqpy.grid import RegularGrid
    for shape in extents:
        for di, dj in (((5.0, 0.0, 0.0), (0.0, 6.0, 0.0)), ((5.0 * C30, 5.0 * S30, 0.0), (-6.0 * S30, 6.0 * C30, 0.0)), ((-5.0, 1.0, 0.5), (0.5, 6.0, -0.25))):
            for dz in (1.0, 4.0, -2.5):
                for irregular in (False, True):

                    def case(shape = shape, di = di, dj = dj, dz = dz, irregular = irregular):
                        nk, nj, ni = shape
                        m = rq.new_model(ctx.path('m.epc'), h5 = True)
                        crs = rq.add_crs(m)
                        origin = (30.0, 40.0, 50.0) if irregular else (0.0, 0.0, 0.0)
                        mesh = Mesh(m, mesh_flavour = 'regular', ni = ni + 1, nj = nj + 1, origin = origin, dxyz_dij = np.array((di, dj)), crs_uuid = crs.uuid,
                                    title = 'mesh')
                        mesh.create_xml()
                        g = RegularGrid(m, extent_kji = shape, mesh = mesh, mesh_dz_dk = dz, as_irregular_grid = irregular)
                        steps = ((0.0, 0.0, dz), dj, di)
                        nodes = nodes_for(shape, steps, origin)
                        expect(np.allclose(mesh.full_array_ref(), nodes[0]), 'mesh', mesh.full_array_ref())
                        checks = geometry_checks(nodes, steps, not irregular and di[1] == dj[0] == 0.0, g, irregular)
                        for n, f in checks.items():
                            with about((n, 'of a grid based on a mesh')):
                                f()
                            ctx.state((shape, di, dz, irregular, n))
                        ctx.outcome('same')
                        rq.close(m)

                    ctx.run(dict(mesh = [di, dj], dz = dz, extent = shape, irregular = irregular), case)


def crs_cases():
    return (('plain', {}), ('offset', dict(x_offset = 7.0, y_offset = -3.0, z_offset = 1.5)))


def placed(ctx, way, crs_kw, origin, sg):
    from resqpy.crs import Crs
    shape, steps = (2, 1, 3), aligned_steps(sg)
    m, g = make(ctx, shape, steps, way, True, origin, crs_kw)
    nodes = nodes_for(shape, steps, np.array(origin, dtype = float) + np.array([crs_kw.get(k, 0.0) for k in ('x_offset', 'y_offset', 'z_offset')]))
    crs = Crs(m, uuid = g.crs_uuid)
    got = g.corner_points().copy()
    crs.local_to_global_array(got.reshape((-1, 3)))
    want = corners_for(nodes)
    expect(np.allclose(got, want), 'regular grid is at', got[0, 0, 0, 0, 0, 0], 'in the global space, not at', want[0, 0, 0, 0, 0, 0])
    box = g.xyz_box(local = False)
    flat = nodes.reshape((-1, 3))
    expect(np.allclose(box, (flat.min(axis = 0), flat.max(axis = 0))), 'box in the global space', box)
    ctx.outcome('placed')
    rq.close(m)


def do_placing(ctx):
    """Without an origin: the grid is placed by its crs alone."""
    for crs_name, crs_kw in crs_cases():
        for form in (tuple, np.array):
            for sg in itertools.product((1, -1), repeat = 3):
                for way in WAYS:
                    if sg != (1, 1, 1) and way == 'steps only':
                        continue

                    def case(crs_kw = crs_kw, form = form, sg = sg, way = way):
                        placed(ctx, way, crs_kw, form((0.0, 0.0, 0.0)), sg)
                        ctx.state((sg, way, form))

                    ctx.run(dict(given_as = form.__name__, signs = sg, way = way, crs = crs_name), case)


def do_origin(ctx, way, crs):
    """With an origin, of a regular grid which is not held as an irregular one."""
    crs_kw = dict(crs_cases())[crs]

    def case():
        for form in (tuple, np.array):
            for origin in ((100.0, 200.0, 300.0), (0.0, 0.0, 1000.0)):
                placed(ctx, way, crs_kw, form(origin), (1, 1, 1))
                ctx.state((form, origin))

    ctx.run('origin', case)


def do_signs_of_steps_only(ctx):
    """Steps which are negative, of a regular grid stored without a geometry."""

    def case():
        for sg in itertools.product((1, -1), repeat = 3):
            shape, steps = (2, 1, 3), aligned_steps(sg)
            m, g = make(ctx, shape, steps, 'steps only', True)
            expect(np.allclose(g.corner_points(), corners_for(nodes_for(shape, steps))), 'steps of a re-read grid are', g.block_dxyz_dkji.tolist(), 'not', steps)
            ctx.state(sg)
            ctx.outcome('kept')
            rq.close(m)

    ctx.run('signs', case)


def do_pairs(ctx, names):
    """Each ordered pair of questions put to a grid which has answered nothing."""
    shape = (2, 3, 2)
    for name, steps, aligned in configs():
        if name not in names:
            continue
        for way in ways_for(aligned, steps):

            m0, g0 = make(ctx, shape, steps, way, aligned)
            ns = list(geometry_checks(nodes_for(shape, steps), steps, aligned, g0, way.startswith('irregular')))
            rq.close(m0)
            for a in ns:

                def case(a = a, steps = steps, way = way, aligned = aligned):
                    for b in ns:
                        m, g = make(ctx, shape, steps, way, aligned)
                        checks = geometry_checks(nodes_for(shape, steps), steps, aligned, g, way.startswith('irregular'))
                        with about((a, 'then', b)):
                            checks[a]()
                            checks[b]()
                        ctx.state((name, way, a, b))
                        rq.close(m)

                ctx.run(dict(steps = name, way = way, first = a), case)


def warm(tier):
    import resqpy.grid, resqpy.surface, resqpy.rq_import  # noqa


def jobs(tier):
    names = [n for n, _, _ in configs()]
    ext = list(itertools.product((1, 2, 3), repeat = 3))
    small = [(1, 1, 1), (2, 3, 2), (2, 2, 3), (3, 1, 2)] if tier == 'quick' else ext
    if tier == 'thorough':
        ext = list(itertools.product((1, 2, 3, 4), repeat = 3))
    for n in names:
        yield 'geometry ' + n, do_geometry, dict(names = [n], extents = ext)
        yield 'as an explicit grid ' + n, do_explicit, dict(names = [n], extents = small)
    yield 'from a mesh', do_mesh, dict(extents = ext)
    yield 'placing', do_placing, {}
    for crs in ('plain', 'offset'):
        for way in WAYS[:4]:
            yield f'origin {crs} {way}', do_origin, dict(way = way, crs = crs)
    yield 'signs of steps only', do_signs_of_steps_only, {}
    for n in names:
        yield 'pairs ' + n, do_pairs, dict(names = [n])
