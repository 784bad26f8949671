"""C30: derived grids whose points have been moved, or which have been cut out around a well, hold what was asked for.

Scaling of throws, draping, local shifts, interpolation between two grids, new faults along every path of pillars, boxes
around a column, blocked well or trajectory; made into the same file or a new one, looked at as returned and after opening
the file again.  The oracles work on the reference node positions of the source, one column at a time, without any notion
of how resqpy stores coordinate lines."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect
from mc.props.c15 import KINDS
from mc.props.c23 import masks
from mc.props.c25 import HOWS, Source, check_grid, check_props, finish, put, reopened, rq_eq, same_prop, simple_props

ID = 'C30'
TITLE = 'Derived grids with moved points or cut out around a well'
BOUNDS = {
    'quick': 'all 15 splits of an inner pillar x factors x reference layers x gaps; named faults; planes and folds x every reference interface; '
             'local shifts on a lattice of centres; all pairs of kinds of split x 4 factors; all 56 paths of pillars through 2x2 columns (and all '
             'pairs of 14), paths through 3x3; all columns, radii, layer ranges and shapes of a 3x3x3 grid',
    'thorough': 'all splits of two pillars; all pairs of paths; longer paths through 3x3 columns; more sources for all'
}


def warm(tier):
    import resqpy.derived_model, resqpy.grid, resqpy.model, resqpy.property, resqpy.fault, resqpy.lines  # noqa
    import resqpy.surface, resqpy.well, resqpy.rq_import  # noqa


# ---------------------------------------------------------------------------------------------------------------------
# nodes: [raw layer, column j, column i, jp, ip, xyz]

def around(s, p):
    """(column, jp, ip) of the columns at a pillar."""
    return [(c, p[0] - c[0], p[1] - c[1]) for c in ijk.columns_around(s.nj, s.ni, *p)]


def pillars(s):
    return itertools.product(range(s.nj + 1), range(s.ni + 1))


def cp_of(s, nodes):
    cp = np.empty(s.cp.shape)
    for k in range(s.nk):
        for kp in range(2):
            cp[k, :, :, kp] = nodes[s.raw[k] + kp]
    return cp


def healed(s, nodes, n, p):
    """Mean over the columns at a pillar."""
    return np.mean([nodes[(n,) + c + (jp, ip)] for c, jp, ip in around(s, p)], axis = 0)


def raw_ref(s, ref_k0, faces):
    return s.raw[ref_k0] + (1 if faces == 'base' else 0)


def move(s, shift):
    """Node array with every coordinate line moved: shift is {(pillar, column): vector}."""
    nodes = s.nodes.copy()
    for (p, c), v in shift.items():
        nodes[:, c[0], c[1], p[0] - c[0], p[1] - c[1]] += v
    return nodes


def displacement(s, cp):
    d = np.mean(cp, axis = (3, 4, 5)) - np.mean(s.cp, axis = (3, 4, 5))
    return [dict(a = d[..., axis], title = 'D%s_DISPLACEMENT' % 'XYZ'[axis], kind = None, uom = 'm') for axis in range(3)]


def look(src, g, path, cp, gaps, title, props = (), shifts = None, inactive = None):
    """Everything there is to say about a derived grid."""
    want = list(props)
    m, h = finish(src, g, path, lambda x: check_grid(x, cp, gaps, inactive, src.crs_uuid), want, title, allow_more = shifts is not None)
    if shifts is not None:
        from resqpy.property import Property
        for d in shifts:
            u = [x for x in m.uuids(obj_type = 'ContinuousProperty') if same_prop(m, x, d) and rq_eq(Property(m, uuid = x).collection.support_uuid, g.uuid)]
            expect(len(u) == 1, 'number of properties', d['title'], len(u))
            q = Property(m, uuid = u[0])
            expect(rq.near(q.array_ref(), d['a'], 1.0e-4), 'values of', d['title'])
            expect(q.uom() == d['uom'], 'uom of', d['title'])
    return m, h


# ---------------------------------------------------------------------------------------------------------------------
# throws

def smooth(s, shift, done, cell_range):
    """One after the other: rings of pillars around those done."""
    slope = {}
    for p in pillars(s):
        c, jp, ip = around(s, p)[0]
        v = s.nodes[(-1,) + c + (jp, ip)] - s.nodes[(0,) + c + (jp, ip)]
        slope[p] = v / v[2]
    while cell_range > 0:
        decay = (2.0**cell_range - 1.0) / (2.0**(cell_range + 1) - 1.0)
        fresh = {}
        for p in pillars(s):
            if p in done:
                continue
            found = []
            for q in ((p[0], p[1] - 1), (p[0] - 1, p[1]), (p[0], p[1] + 1), (p[0] + 1, p[1])):
                if q in done:
                    both = [c for c, _, _ in around(s, p) if c in [x for x, _, _ in around(s, q)]]
                    found += [shift[(q, c)][2] for c in both]
            if found:
                fresh[p] = decay * np.mean(found) * slope[p]
        for p, v in fresh.items():
            for c, _, _ in around(s, p):
                shift[(p, c)] = v
        done = done | set(fresh)
        cell_range -= 1
    return shift


def throw_shift(s, factor, ref, cell_range):
    shift = {}
    done = set()
    for p in pillars(s):
        if len(s.groups[p]) > 1:
            done.add(p)
            mid = healed(s, s.nodes, ref, p)
            for c, jp, ip in around(s, p):
                shift[(p, c)] = (factor - 1.0) * (s.nodes[(ref,) + c + (jp, ip)] - mid)
    return smooth(s, shift, done, cell_range)


def throw_case(ctx, s, how, factor, ref_k0, faces, cell_range, store, props, which):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s, None, simple_props if props else None)
    kw, path = src.call(how)
    f = rqdm.fault_throw_scaling if which else rqdm.global_fault_throw_scaling
    g = f(scaling_factor = factor, ref_k0 = ref_k0, ref_k_faces = faces, cell_range = cell_range, store_displacement = store,
          inherit_properties = props, new_grid_title = 'scaled', **kw)
    nodes = move(s, throw_shift(s, factor, raw_ref(s, ref_k0, faces), cell_range))
    cp = cp_of(s, nodes)
    want = [p for p in src.props if p.get('realization') is None]
    m, h = look(src, g, path, cp, s.gaps, 'scaled', want, displacement(s, cp) if store else None)
    ctx.state(h)
    rq.close(m)


def throws(ctx, share, of):
    n = 0
    thorough = ctx.tier != 'quick'
    sets = [((2, 2), [(1, 1)]), ((1, 2), [(0, 1), (1, 1)])] + ([((2, 3), [(1, 1), (1, 2)])] if thorough else [])
    for (nj, ni), which in sets:
        for parts in ijk.all_parts(nj, ni, which):
            s0 = ijk.Spec(1, nj, ni, parts = parts)
            if not s0.split():
                continue
            for gaps, factor in itertools.product(((False,), (True,)), (0.0, 0.5, 3.0)):
                for ref_k0, faces in itertools.product((0, 1), ('top', 'base')):
                    n += 1
                    if n % of != share:
                        continue
                    s = ijk.Spec(2, nj, ni, parts = parts, gaps = gaps)
                    ctx.run((nj, ni, str(sorted(parts.items())), gaps, factor, ref_k0, faces), throw_case, ctx, s, HOWS[(n // 3) % 4], factor, ref_k0, faces,
                            0, n % 5 == 0, n % 7 == 0, n % 2 == 0)


def throws_near(ctx, share, of):
    """Pillars near a fault."""
    n = 0
    for kind, cell_range, up in itertools.product(('a line', 'corner', 'row', 'short'), (1, 2, 3), (False, True)):
        for shape in ((1, 2, 3), (2, 3, 4), (1, 4, 2)):
            for flip, gaps in itertools.product((False, True), (False, True)):
                n += 1
                if n % of != share:
                    continue
                nk, nj, ni = shape
                if kind == 'corner':
                    parts = {(j, 1): [[c for c in ijk.columns_around(nj, ni, j, 1) if c == (0, 0)], [c for c in ijk.columns_around(nj, ni, j, 1) if c != (0, 0)]]
                             for j in range(2)}
                    parts[(1, 0)] = [[(0, 0)], [(1, 0)]]
                elif kind in ('row', 'short'):
                    parts = {(1, i): [[c for c in ijk.columns_around(nj, ni, 1, i) if c[0] < 1], [c for c in ijk.columns_around(nj, ni, 1, i) if c[0] >= 1]]
                             for i in range(ni + 1 if kind == 'row' else 2)}
                else:
                    parts = KINDS[kind](nj, ni)
                s = ijk.Spec(*shape, parts = parts, gaps = [gaps] * (nk - 1), up = up, flip_i = flip)
                ctx.run((kind, cell_range, up, shape, flip, gaps), throw_case, ctx, s, HOWS[n % 4], 0.5 if n % 3 else 2.5, n % nk, ('top', 'base')[n % 2],
                        cell_range, n % 2 == 1, False, True)


def two_faults(nj, ni):
    """Faults along two J lines (i = 1 and i = ni - 1), each through the whole grid."""
    parts = {}
    for j in range(nj + 1):
        for i in (1, ni - 1):
            cols = ijk.columns_around(nj, ni, j, i)
            parts[(j, i)] = [[c for c in cols if c[1] < i], [c for c in cols if c[1] >= i]]
    return parts


def named_case(ctx, s, how, factor, table, cell_range, ref, inherit):
    import resqpy.derived_model as rqdm
    from resqpy.fault import GridConnectionSet
    from resqpy.grid import any_grid
    src = Source(ctx, s)
    m = rq.open_model(src.path)
    g = any_grid(m, uuid = src.uuid)
    lines = {'west': 1, 'east': s.ni - 1}
    gcs = GridConnectionSet(m, grid = g, title = 'both')
    for name, i in lines.items():
        faces = [(2, (k, j, i - 1)) for k in range(s.nk) for j in range(s.nj)]
        k_, j_, i_ = masks(s.shape, faces)
        gcs.append(GridConnectionSet(m, grid = g, k_faces = k_, j_faces = j_, i_faces = i_, feature_name = name,
                                     create_organizing_objects_where_needed = True, title = name))
    gcs.write_hdf5()
    gcs.create_xml(title = 'both')
    m.store_epc()
    rq.close(m)
    kw, path = src.call(how)
    mm = rq.open_model(src.path)
    used = GridConnectionSet(mm, uuid = gcs.uuid)
    new = rqdm.fault_throw_scaling(scaling_factor = factor, connection_set = used, scaling_dict = dict(table), ref_k0 = ref[0], ref_k_faces = ref[1],
                                   cell_range = cell_range, inherit_gcs = inherit, new_grid_title = 'scaled', **kw)
    rq.close(mm)
    shift = {}
    r = raw_ref(s, *ref)
    for name, i in lines.items():
        f = table.get(name, 1.0 if factor is None else factor)
        for j in range(s.nj + 1):
            mid = healed(s, s.nodes, r, (j, i))
            for c, jp, ip in around(s, (j, i)):
                shift[((j, i), c)] = (f - 1.0) * (s.nodes[(r,) + c + (jp, ip)] - mid)
    shift = smooth(s, shift, {p for p, _ in shift}, cell_range)
    cp = cp_of(s, move(s, shift))
    m, h = look(src, new, path, cp, s.gaps, 'scaled')
    mine = [u for u in m.uuids(obj_type = 'GridConnectionSetRepresentation') if any(rq_eq(x.uuid, new.uuid) for x in GridConnectionSet(m, uuid = u).grid_list)]
    expect(len(mine) == (1 if inherit else 0), 'connection sets of the new grid', len(mine))
    if inherit:
        c = GridConnectionSet(m, uuid = mine[0])
        expect(c.title == 'both' and c.count == 2 * s.nk * s.nj, 'inherited connection set', c.title, c.count)
        expect(sorted(c.list_of_feature_names()) == ['east', 'west'], 'inherited features', c.list_of_feature_names())
        for f in range(2):
            name = c.list_of_feature_names()[f]
            cells, _ = c.list_of_cell_face_pairs_for_feature_index(f)
            got = {tuple(sorted((tuple(map(int, a)), tuple(map(int, b))))) for a, b in cells}
            i = lines[name]
            expect(got == {((k, j, i - 1), (k, j, i)) for k in range(s.nk) for j in range(s.nj)}, 'pairs of inherited feature', name)
    ctx.state(h)
    rq.close(m)


def named(ctx, share, of):
    n = 0
    for table in ({'west': 2.0}, {'east': 0.5}, {'west': 0.0, 'east': 3.0}, {'west': 1.0}, {'other': 5.0}, {'west': 1.0, 'east': 0.25}, {}):
        for factor, cell_range, ref in itertools.product((None, 2.0), (0, 1), ((0, 'top'), (1, 'base'))):
            n += 1
            if n % of != share:
                continue
            s = ijk.Spec(2, 2, 4, parts = two_faults(2, 4), gaps = (n % 3 == 0,))
            ctx.run((sorted(table.items()), factor, cell_range, ref), named_case, ctx, s, HOWS[n % 4], factor, table, cell_range, ref, n % 2 == 0)


# ---------------------------------------------------------------------------------------------------------------------
# draping

def plane_hit(p, v, f):
    """Where the line p + t v meets z = f(x, y), by bisection on a monotonic function."""
    lo, hi = -1000.0, 1000.0
    v = v / v[2]

    def d(t):
        q = p + t * v
        return q[2] - f(q[0], q[1])

    assert d(lo) < 0.0 < d(hi)
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        if d(mid) < 0.0:
            lo = mid
        else:
            hi = mid
    return p + 0.5 * (lo + hi) * v


def drape_case(ctx, s, how, shape, ref_k0, faces, store, props, offset, other_z):
    """shape: (a, b, fold) of the surface z = level + a x + b y + fold |x - xf|"""
    import resqpy.derived_model as rqdm
    from resqpy.crs import Crs
    from resqpy.surface import Surface
    src = Source(ctx, s, None, simple_props if props else None, crs = dict(z_inc_down = not s.up))
    a, b, fold = shape
    sign = -1.0 if s.up else 1.0
    xf = 100.0 + 7.3  # no pillar is here

    def f(x, y):
        return sign * (1010.0 + a * (x - 100.0) + b * (y - 200.0) + fold * np.abs(x - xf))

    xs, ys = (-400.0, xf, 700.0), (-300.0, 800.0)
    p = np.array([(x, y, f(x, y)) for x in xs for y in ys])
    t = np.array([(0, 2, 1), (1, 2, 3), (2, 4, 3), (3, 4, 5)])
    kw, path = src.call(how)
    m2 = rq.new_model(ctx.path('surface.epc'), h5 = True)
    crs = dict(x_offset = offset[0], y_offset = offset[1], z_offset = offset[2], z_inc_down = (not s.up) != other_z)
    crs2 = rq.add_crs(m2, **crs)
    q = p - np.array(offset)
    if other_z:
        q = p.copy()
        q[:, 2] *= -1.0
        q -= np.array(offset)
    surf = Surface(m2, crs_uuid = crs2.uuid, title = 'cloth')
    surf.set_from_triangles_and_points(t, q.copy())
    surf.write_hdf5()
    surf.create_xml()
    m2.store_epc()
    g = rqdm.drape_to_surface(surface = surf, ref_k0 = ref_k0, ref_k_faces = faces, store_displacement = store, inherit_properties = props,
                              new_grid_title = 'draped', **kw)
    expect(rq.near(surf.triangles_and_points()[1], q), 'surface changed by draping')
    rq.close(m2)
    r = raw_ref(s, ref_k0, faces)
    shift = {}
    for pl in pillars(s):
        top, base, here = (healed(s, s.nodes, n, pl) for n in (0, s.nn - 1, r))
        v = plane_hit(top, base - top, f) - here
        for c, _, _ in around(s, pl):
            shift[(pl, c)] = v
    cp = cp_of(s, move(s, shift))
    want = [x for x in src.props if x.get('realization') is None]
    m, h = look(src, g, path, cp, s.gaps, 'draped', want, displacement(s, cp) if store else None)
    ctx.state(h)
    rq.close(m)


def drapes(ctx, share, of):
    n = 0
    kinds = list(KINDS) + ['corner']
    for kind, shape, gaps in itertools.product(kinds, ((0.0, 0.0, 0.0), (0.2, -0.1, 0.0), (0.0, 0.05, 0.3), (-0.3, 0.2, -0.2)), (False, True)):
        for ref_k0, faces in itertools.product((0, 1), ('top', 'base')):
            n += 1
            if n % of != share:
                continue
            parts = {(1, 1): [[(0, 0)], [(0, 1), (1, 0), (1, 1)]]} if kind == 'corner' else KINDS[kind](2, 2)
            s = ijk.Spec(2, 2, 2, parts = parts, gaps = (gaps,), up = n % 5 == 0, lean = 0.05, flip_i = n % 4 == 1)
            ctx.run((kind, shape, gaps, ref_k0, faces), drape_case, ctx, s, HOWS[n % 4], shape, ref_k0, faces, n % 3 == 0, n % 7 == 0,
                    (0.0, 0.0, 0.0) if n % 2 else (50.0, -20.0, 10.0), n % 8 == 3)


# ---------------------------------------------------------------------------------------------------------------------
# local shifts

def local_case(ctx, s, how, centre, radius, shift, local, shape, ref_k0, store, props, crs):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s, None, simple_props if props else None, crs = dict(crs, z_inc_down = not s.up))
    kw, path = src.call(how)
    given = list(centre)
    if not local:
        given = [centre[0] + crs.get('x_offset', 0.0), centre[1] + crs.get('y_offset', 0.0)]
    kw.setdefault('source_grid', None)
    call = lambda: rqdm.local_depth_adjustment(centre_x = given[0], centre_y = given[1], radius = radius, centre_shift = shift, use_local_coords = local,
                                               ref_k0 = ref_k0, store_displacement = store, inherit_properties = props, new_grid_title = 'pushed',
                                               **(dict(decay_shape = shape) if shape else {}), **kw)
    g = call()
    r = s.raw[ref_k0]
    moves = {}
    for p in pillars(s):
        for c, jp, ip in around(s, p):
            here = s.nodes[(r,) + c + (jp, ip)]
            d = np.hypot(here[0] - centre[0], here[1] - centre[1]) / radius
            if d >= 1.0:
                continue
            if shape == 'linear':
                w = 1.0 - d
            else:
                w = 1.0 - 2.0 * d * d if d < 0.5 else 2.0 * (1.0 - d)**2
            moves[(p, c)] = np.array((0.0, 0.0, (-1.0 if s.up else 1.0) * shift * w))
    if not moves:
        expect(g is None, 'grid returned though nothing is within the radius')
        src.unharmed()
        return
    expect(g is not None, 'no grid returned')
    cp = cp_of(s, move(s, moves))
    want = [x for x in src.props if x.get('realization') is None]
    from mc.core import about as about_
    with about_('returned'):
        check_grid(g, cp, s.gaps)
    m, h = reopened(path, g.uuid)
    with about_('stored'):
        expect(h.title == 'pushed', 'title', h.title)
        check_grid(h, cp, s.gaps)
        if not store:
            check_props(m, h, want)
        a, b = h.crs, None
        expect(a is not None and a.z_inc_down == (not s.up) and rq.near(np.array((a.x_offset, a.y_offset, a.z_offset)),
               np.array([crs.get(k, 0.0) for k in ('x_offset', 'y_offset', 'z_offset')])), 'crs of the new grid')
    ctx.state(h)
    rq.close(m)


def locals_(ctx, share, of):
    n = 0
    crss = ({}, dict(x_offset = 1000.0, y_offset = -500.0, z_offset = 10.0))
    for cx, cy, radius in itertools.product((95.0, 112.0, 121.0), (200.0, 223.0), (4.0, 17.0, 45.0)):
        for shape, local in itertools.product((None, 'quadratic', 'linear'), (True, False)):
            n += 1
            if n % of != share:
                continue
            kind = sorted(KINDS)[n % 3]
            s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = (n % 4 == 2,), up = n % 5 == 0, lean = 0.03)
            ctx.run((cx, cy, radius, shape, local), local_case, ctx, s, HOWS[n % 4], (cx, cy), radius, (3.0, -2.0)[n % 2], local, shape, n % 2,
                    n % 3 == 0, n % 7 == 0, crss[(n // 3) % 2])


# ---------------------------------------------------------------------------------------------------------------------
# interpolation

def between_case(ctx, a, b, how, f, gaps_differ, props, inactive):
    import resqpy.derived_model as rqdm
    from resqpy.crs import Crs
    from resqpy.grid import any_grid
    src = Source(ctx, a, inactive[0], simple_props if props else None)
    m = rq.open_model(src.path)
    other = ijk.build(m, Crs(m, uuid = src.crs_uuid), b, title = 'other')
    if inactive[1] is not None:
        other.inactive = inactive[1].copy()
    ijk.store(other)
    m.store_epc()
    rq.close(m)
    m = rq.open_model(src.path)
    ga, gb = any_grid(m, uuid = src.uuid), any_grid(m, uuid = other.uuid)
    path = src.new if 'new' in how else src.path
    kw = dict(epc_file = None if how == 'grid, new file' else src.path)
    if 'new' in how:
        kw['new_epc_file'] = src.new
    if f != 0.5:
        kw['a_to_b_0_to_1'] = f
    g = rqdm.interpolated_grid(grid_a = ga, grid_b = gb, inherit_properties = props, new_grid_title = 'between', **kw)
    cp = (1.0 - f) * a.cp + f * b.cp
    ina = None
    if inactive[0] is not None and inactive[1] is not None:
        ina = np.logical_and(*inactive)
    want = [x for x in src.props if x.get('realization') is None]
    m, h = look(src, g, path, cp, a.gaps, 'between', want, None, ina)
    ctx.state(h)
    rq.close(m)


def betweens(ctx, share, of):
    n = 0
    names = list(KINDS) + ['corner', 'row']

    def parts(kind, nj, ni):
        if kind == 'corner':
            return {(1, 1): [[(0, 0)], [(0, 1), (1, 0), (1, 1)]]}
        if kind == 'row':
            return {(1, i): [[c for c in ijk.columns_around(nj, ni, 1, i) if c[0] < 1], [c for c in ijk.columns_around(nj, ni, 1, i) if c[0] >= 1]]
                    for i in range(ni + 1)}
        return KINDS[kind](nj, ni)

    for ka, kb, f in itertools.product(names, names, (0.0, 0.25, 0.5, 1.0)):
        for gaps, nk in ((False, 1), (False, 3), (True, 2)):
            n += 1
            if n % of != share or (ctx.tier == 'quick' and n % 2):
                continue
            gp = [gaps] * (nk - 1)
            a = ijk.Spec(nk, 2, 2, parts = parts(ka, 2, 2), gaps = gp)
            b = ijk.Spec(nk, 2, 2, parts = parts(kb, 2, 2), gaps = gp, throw = 1.3, warp = 0.4, lean = 0.02)
            dead = [None, None]
            if n % 5 == 0:
                dead[0] = np.zeros(a.shape, dtype = bool)
                dead[0].reshape(-1)[::2] = True
            if n % 10 == 0:
                dead[1] = np.zeros(a.shape, dtype = bool)
                dead[1].reshape(-1)[::3] = True
            ctx.run((ka, kb, f, nk, gaps), between_case, ctx, a, b, HOWS[1:][n % 3], f, False, n % 7 == 0, dead)


def betweens_pillar(ctx, share, of):
    """All pairs of ways of splitting the inner pillar."""
    n = 0
    all_ = list(ijk.all_parts(2, 2, [(1, 1)]))
    for a, b in itertools.product(all_, all_):
        n += 1
        if n % of != share:
            continue
        nk = 1 + n % 2
        ctx.run((str(sorted(a.items())), str(sorted(b.items()))), between_case, ctx, ijk.Spec(nk, 2, 2, parts = a),
                ijk.Spec(nk, 2, 2, parts = b, throw = 1.3, warp = 0.4), HOWS[1:][n % 3], 0.25, False, False, [None, None])


# ---------------------------------------------------------------------------------------------------------------------
# new faults

def paths(nj, ni, most):
    """All paths of neighbouring pillars, without repeats, whose steps are between two columns."""
    out = []

    def inner(p, q):
        if p[0] == q[0]:
            return 0 < p[0] < nj
        return 0 < p[1] < ni

    def grow(path):
        if len(path) > 1:
            out.append(tuple(path))
        if len(path) == most or (len(path) > 1 and (path[-1][0] in (0, nj) or path[-1][1] in (0, ni))):
            return
        j, i = path[-1]
        for q in ((j - 1, i), (j, i - 1), (j, i + 1), (j + 1, i)):
            if 0 <= q[0] <= nj and 0 <= q[1] <= ni and q not in path and inner(path[-1], q):
                grow(path + [q])

    for p in itertools.product(range(nj + 1), range(ni + 1)):
        grow([p])
    return out


def right_of(s, path, h):
    """Columns at pillar number h of the path which are to its right (I to the right, J downwards on the page), or None for an inner end."""
    p = path[h]
    if h in (0, len(path) - 1) and not (p[0] in (0, s.nj) or p[1] in (0, s.ni)):
        return None
    arms = []
    if h > 0:
        arms.append((path[h - 1], p))
    if h < len(path) - 1:
        arms.append((p, path[h + 1]))
    cols = ijk.columns_around(s.nj, s.ni, *p)
    right, left = set(), set()
    for a, b in arms:
        d = (b[0] - a[0], b[1] - a[1])
        mid = (0.5 * (a[0] + b[0]) - 0.5, 0.5 * (a[1] + b[1]) - 0.5)
        right.add((int(mid[0] + 0.5 * d[1]), int(mid[1] - 0.5 * d[0])))
        left.add((int(mid[0] - 0.5 * d[1]), int(mid[1] + 0.5 * d[0])))
    cut = {frozenset((r, l)) for r in right for l in left if abs(r[0] - l[0]) + abs(r[1] - l[1]) == 1}
    grown = True
    while grown:
        grown = False
        for c in cols:
            for side in (right, left):
                if c not in right and c not in left and any(abs(c[0] - e[0]) + abs(c[1] - e[1]) == 1 and frozenset((c, e)) not in cut for e in side):
                    side.add(c)
                    grown = True
    return right


def fault_case(ctx, s, how, faults, throws_, props, gcs, polylines):
    """faults: list of paths"""
    import resqpy.derived_model as rqdm
    from resqpy.fault import GridConnectionSet
    from resqpy.lines import Polyline
    src = Source(ctx, s, None, simple_props if props else None, crs = dict(z_inc_down = not s.up))
    kw, path = src.call(how)
    names = ['fault_%d' % h for h in range(len(faults))]
    table = {n: t for n, t in zip(names, throws_) if t is not None}
    if polylines:
        mp = rq.new_model(ctx.path('lines.epc'), h5 = True)
        lines = []
        for n, f in zip(names, faults):
            xyz = np.array([healed(s, s.nodes, 0, p) for p in f])
            lines.append(Polyline(mp, is_closed = False, set_coord = xyz, set_crs = src.crs_uuid, title = n))
        arg = dict(polylines = lines)
    else:
        arg = dict(full_pillar_list_dict = {n: [tuple(p) for p in f] for n, f in zip(names, faults)})
    g = rqdm.add_faults(left_right_throw_dict = table or None, create_gcs = gcs, inherit_properties = props, new_grid_title = 'broken', **arg, **kw)
    moves = {}
    for f, t in zip(faults, throws_):
        left, right = (0.5, -0.5) if t is None else t
        for h, p in enumerate(f):
            r = right_of(s, f, h)
            if r is None:
                continue
            for c, jp, ip in around(s, p):
                v = s.nodes[(-1,) + c + (jp, ip)] - s.nodes[(0,) + c + (jp, ip)]
                v = v / np.sqrt(np.sum(v * v))
                moves[(p, c)] = moves.get((p, c), 0.0) + (right if c in r else left) * v
    cp = cp_of(s, move(s, moves))
    want = [x for x in src.props if x.get('realization') is None]
    m, h = look(src, g, path, cp, s.gaps, 'broken', want)
    sets = [GridConnectionSet(m, uuid = u) for u in m.uuids(obj_type = 'GridConnectionSetRepresentation')]
    sets = [x for x in sets if any(rq_eq(y.uuid, g.uuid) for y in x.grid_list)]
    expect(len(sets) == (1 if gcs else 0), 'connection sets', len(sets))
    if gcs:
        c = sets[0]
        expect(sorted(c.list_of_feature_names()) == sorted(names), 'features', c.list_of_feature_names())
        for name, f in zip(names, faults):
            index = c.list_of_feature_names().index(name)
            cells, _ = c.list_of_cell_face_pairs_for_feature_index(index)
            got = sorted(tuple(sorted((tuple(map(int, a)), tuple(map(int, b))))) for a, b in cells)
            wanted = []
            for p, q in zip(f, f[1:]):
                if p[0] == q[0]:
                    i = min(p[1], q[1])
                    wanted += [((k, p[0] - 1, i), (k, p[0], i)) for k in range(s.nk)]
                else:
                    j = min(p[0], q[0])
                    wanted += [((k, j, p[1] - 1), (k, j, p[1])) for k in range(s.nk)]
            expect(got == sorted(wanted), 'pairs of cells of', name)
    ctx.state(h)
    rq.close(m)


def faults(ctx, share, of):
    n = 0
    for f in paths(2, 2, 9):
        for kind, nk in itertools.product(list(KINDS) + ['corner'], (1, 2)):
            n += 1
            if n % of != share:
                continue
            parts = {(1, 1): [[(0, 0)], [(0, 1), (1, 0), (1, 1)]]} if kind == 'corner' else KINDS[kind](2, 2)
            s = ijk.Spec(nk, 2, 2, parts = parts, gaps = [n % 3 == 0] * (nk - 1), lean = 0.08, up = n % 7 == 0)
            ctx.run((f, kind, nk), fault_case, ctx, s, HOWS[n % 4], [f], [(None, (2.0, 0.0), (-0.25, 1.5))[n % 3]], n % 11 == 0, n % 5 != 0, False)


def faults_two(ctx, share, of):
    """One fault after another."""
    n = 0
    all_ = [f for f in paths(2, 2, 9) if len(f) > 2]
    if ctx.tier == 'quick':
        all_ = all_[::2] + all_[-1:]
    for a, b in itertools.product(all_, all_):
        n += 1
        if n % of != share:
            continue
        s = ijk.Spec(1 + n % 2, 2, 2, parts = {}, lean = 0.08)
        ctx.run((a, b), fault_case, ctx, s, HOWS[n % 4], [a, b], [(1.0, -0.25), (0.125, 2.0)], False, a != b and a != b[::-1] and n % 4 == 0 and
                not set(map(frozenset, zip(a, a[1:]))) & set(map(frozenset, zip(b, b[1:]))), False)


def faults_wide(ctx, share, of):
    n = 0
    most = 5 if ctx.tier == 'quick' else 7
    for f in paths(3, 3, most):
        n += 1
        if n % of != share or (ctx.tier == 'quick' and n % 3):
            continue
        kind = list(KINDS)[(n // 3) % 3]
        s = ijk.Spec(1 + n % 2, 3, 3, parts = KINDS[kind](3, 3), lean = 0.05, gaps = [True] * (n % 2), flip_i = n % 4 < 2)
        ctx.run((f, kind), fault_case, ctx, s, HOWS[n % 4], [f], [(0.75, -0.5)], False, n % 2 == 0, n % 5 == 0 and kind == 'unsplit')


# ---------------------------------------------------------------------------------------------------------------------
# boxes around wells

def well_shape(s, mask, ks, shape):
    """(box, inactive in the box) from a mask of the cells included."""
    if shape == 'prism':
        mask = np.broadcast_to(np.any(mask, axis = 0), mask.shape)
    js = np.nonzero(np.any(mask, axis = (0, 2)))[0]
    is_ = np.nonzero(np.any(mask, axis = (0, 1)))[0]
    box = np.array([[ks[0], js.min(), is_.min()], [ks[1], js.max(), is_.max()]])
    piece = mask[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
    return box, None if shape == 'box' else np.logical_not(piece)


def around_well(ctx, s, how, well, ks, radius, outer, shape, props, inherit):
    """well: ('column', (j, i)), ('xy', (j, i)), ('trajectory', (j, i)) or ('blocked', (j, i)): all are vertical"""
    import pandas as pd
    import resqpy.derived_model as rqdm
    import resqpy.well as rqw
    from resqpy.crs import Crs
    from resqpy.grid import any_grid
    from resqpy.property import Property
    src = Source(ctx, s, None, simple_props if props else None)
    col = well[1]
    centre = np.mean(s.cp, axis = (3, 4, 5))
    at = centre[(0,) + col] + np.array((0.3, 0.4, 0.0))
    kw = {}
    if well[0] in ('trajectory', 'blocked'):
        m = rq.open_model(src.path)
        datum = rqw.MdDatum(m, crs_uuid = src.crs_uuid, location = (at[0], at[1], 0.0))
        datum.create_xml()
        t = rqw.Trajectory(m, md_datum = datum, mds = (0.0, 900.0, 1200.0), control_points = np.array([(at[0], at[1], z) for z in (0.0, 900.0, 1200.0)]),
                           length_uom = 'm', well_name = 'W1')
        t.write_hdf5()
        t.create_xml()
        if well[0] == 'trajectory':
            kw['trajectory_uuid'] = t.uuid
        else:
            b = rqw.BlockedWell(m, grid = any_grid(m, uuid = src.uuid), trajectory = t)
            b.write_hdf5()
            b.create_xml()
            kw['blocked_well_uuid'] = b.uuid
        m.store_epc()
        rq.close(m)
    elif well[0] == 'column':
        kw['column_ji0'] = col
    else:
        top = np.mean(s.cp[(0,) + col][0], axis = (0, 1))
        kw['column_xy'] = (top[0] + 0.5, top[1] - 0.25)
    more, path = src.call(how)
    kw.update(more)
    lo, hi = (0, s.nk - 1) if ks is None else ks
    if ks is not None:
        kw.update(min_k0 = lo, max_k0 = hi)
    if radius is not None:
        kw['radius'] = radius
    if outer is not None:
        kw['outer_radius'] = outer
    g, box = rqdm.extract_box_for_well(active_cells_shape = shape, inherit_properties = props, inherit_well = inherit, new_grid_title = 'around', **kw)
    mask = np.zeros(s.shape, dtype = bool)
    far = np.zeros(s.shape, dtype = bool)
    for k in range(lo, hi + 1):
        axis = centre[(k,) + col] if well[0] != 'trajectory' else at
        d = np.hypot(centre[k, ..., 0] - axis[0], centre[k, ..., 1] - axis[1])
        mask[k] = d <= (0.0 if radius is None else radius)
        mask[(k,) + col] = True
        if outer is not None:
            far[k] = d >= outer
    wanted, dead = well_shape(s, mask, (lo, hi), shape)
    expect(box is not None and np.array_equal(box, wanted), 'box', None if box is None else box.tolist(), wanted.tolist())
    cut = tuple(slice(wanted[0, a], wanted[1, a] + 1) for a in range(3))
    gaps = s.gaps[lo:hi]
    want = [dict(p, a = p['a'][cut]) for p in src.props if p.get('realization') is None]
    with about('returned'):
        check_grid(g, s.cp[cut], gaps, dead, src.crs_uuid)
    m, h = reopened(path, g.uuid)
    with about('stored'):
        check_grid(h, s.cp[cut], gaps, dead)
        check_props(m, h, want)
        if outer is not None:
            u = [x for x in m.uuids(obj_type = 'DiscreteProperty') if Property(m, uuid = x).title.startswith('distant mask')]
            expect(len(u) == 1, 'number of outer masks', len(u))
            p = Property(m, uuid = u[0])
            expect(rq_eq(p.collection.support_uuid, src.uuid), 'outer mask is for the source grid')
            a = p.array_ref()[lo:hi + 1].astype(bool)
            expect(np.array_equal(a, far[lo:hi + 1]), 'outer mask', a.astype(int).tolist())
        if inherit and path != src.path:
            expect(len(m.uuids(obj_type = 'WellboreTrajectoryRepresentation')) == 1, 'trajectories in the new model')
            if well[0] == 'trajectory':
                t2 = rqw.Trajectory(m, uuid = m.uuid(obj_type = 'WellboreTrajectoryRepresentation'))
                expect(rq.near(t2.control_points, np.array([(at[0], at[1], z) for z in (0.0, 900.0, 1200.0)]), 1.0e-4), 'inherited trajectory')
    src.unharmed()
    ctx.state(h)
    rq.close(m)


def wells(ctx, share, of):
    n = 0
    for kind, col in itertools.product(('column', 'trajectory', 'blocked', 'xy'), itertools.product(range(3), range(3))):
        for radius, ks, shape in itertools.product((None, 13.0, 24.0), (None, (0, 1), (1, 2), (1, 1)), ('tube', 'prism', 'box')):
            n += 1
            if n % of != share:
                continue
            o = n // 3
            outer = None if o % 4 else (25.0 if radius is None else radius + 5.0)
            s = ijk.Spec(3, 3, 3, parts = KINDS[sorted(KINDS)[o % 3]](3, 3), gaps = ((False, False), (True, False), (True, True))[o % 3 if kind != 'blocked' else 0],
                         lean = 0.001, throw = 0.3)
            how = HOWS[o % 4]
            if outer is not None:
                how = HOWS[o // 4 % 2]
            ctx.run((kind, col, radius, ks, shape), around_well, ctx, s, how, (kind, col), ks, radius, outer, shape, o % 5 == 0 and outer is None, o % 2 == 0 and 'new' in how)


# ---------------------------------------------------------------------------------------------------------------------
# stretching of the interface itself

def stretch_case(ctx, s, how, factor, ref_k0, faces, quad):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s)
    kw, path = src.call(how)
    g = rqdm.drape_to_surface(scaling_factor = factor, ref_k0 = ref_k0, ref_k_faces = faces, quad_triangles = quad,
                              new_grid_title = 'draped', **kw)
    r = raw_ref(s, ref_k0, faces)
    z = {p: healed(s, s.nodes, r, p)[2] for p in pillars(s)}
    top = min(z.values())
    shift = {}
    for p in pillars(s):
        for c, _, _ in around(s, p):
            shift[(p, c)] = np.array((0.0, 0.0, (factor - 1.0) * (z[p] - top)))
    cp = cp_of(s, move(s, shift))
    m, h = look(src, g, path, cp, s.gaps, 'draped')
    ctx.state(h)
    rq.close(m)


def stretches(ctx):
    n = 0
    for kind, factor, gaps in itertools.product(sorted(KINDS), (0.5, 2.0, 3.5), (False, True)):
        for ref_k0, faces, quad in itertools.product((0, 1), ('top', 'base'), (True, False)):
            n += 1
            s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = (gaps,), lean = 0.0)
            ctx.run((kind, factor, gaps, ref_k0, faces, quad), stretch_case, ctx, s, HOWS[n % 4], factor, ref_k0, faces, quad)


def short_cloth(ctx):
    """A surface which does not reach all the pillars is refused, leaving the file alone."""
    import resqpy.derived_model as rqdm
    from resqpy.crs import Crs
    from resqpy.surface import Surface

    def one(how, x_end):
        s = ijk.Spec(1, 2, 2)
        src = Source(ctx, s)
        kw, path = src.call(how)
        m = rq.open_model(src.path)
        surf = Surface(m, crs_uuid = src.crs_uuid, title = 'short')
        p = np.array([(0.0, 0.0, 1010.0), (0.0, 900.0, 1010.0), (x_end, 0.0, 1010.0), (x_end, 900.0, 1010.0)])
        surf.set_from_triangles_and_points(np.array([(0, 1, 2), (1, 2, 3)]), p)
        expect(rq.raises(rqdm.drape_to_surface, surface = surf, **kw), 'drape to a surface which is too small')
        src.unharmed()

    for how, x_end in itertools.product(HOWS, (50.0, 105.0, 115.0)):
        ctx.run((how, x_end), one, how, x_end)


# ---------------------------------------------------------------------------------------------------------------------
# many models into one

def member(ctx, r, grids, same_shape, lookup):
    """One realisation: grids named g0, g1..., each with properties which depend on r."""
    path = ctx.path('case_%d.epc' % r)
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m)
    props = []
    for h in range(grids):
        s = ijk.Spec(1 + (0 if same_shape else h), 2, 2, throw = 0.5 + 0.1 * h, warp = 1.0 + h)
        g = ijk.store(ijk.build(m, crs, s, title = 'g%d' % h))
        base = np.arange(np.prod(s.shape)).reshape(s.shape) + 10.0 * r + 100.0 * h
        rows = [dict(a = base, title = 'PORO', kind = 'porosity', uom = 'm3/m3'),
                dict(a = base.astype(int) + 1, title = 'REGION', kind = 'region initialization', discrete = True, null_value = -7)]
        if lookup:
            from resqpy.property import StringLookup
            sl = StringLookup(m, int_to_str_dict = {k: 'facies %d' % k for k in range(0, 300)}, title = 'facies table')
            sl.create_xml()
            rows.append(dict(a = base.astype(int), title = 'FACIES', kind = 'facies', discrete = True, string_lookup_uuid = sl.uuid))
        for d in rows:
            put(m, g, d)
        props.append(('g%d' % h, s, rows))
    m.store_epc()
    rq.close(m)
    return path, props


def gather_case(ctx, cases, grids, same_shape, lookup, consolidate, shared, table):
    import resqpy.derived_model as rqdm
    from resqpy.grid import any_grid
    from resqpy.property import Property, StringLookup
    made = [member(ctx, r, grids, same_shape, lookup) for r in range(cases)]
    target = ctx.path('all.epc')
    rqdm.gather_ensemble([p for p, _ in made], target, consolidate = consolidate, shared_grids = shared, create_epc_lookup = table)
    rq.Stored(target).check_wellformed()
    m = rq.open_model(target)
    uuids = m.uuids(obj_type = 'IjkGridRepresentation')
    sharing = shared and consolidate
    expect(len(uuids) == grids * (1 if sharing else cases), 'number of grids', len(uuids))
    if sharing:
        expect(len(m.uuids(obj_type = 'LocalDepth3dCrs')) == 1, 'number of crs')
    found = {}
    for kind in ('ContinuousProperty', 'DiscreteProperty', 'CategoricalProperty'):
        for u in m.uuids(obj_type = kind):
            p = Property(m, uuid = u)
            g = any_grid(m, uuid = p.collection.support_uuid)
            found.setdefault((g.title, p.title, p.realization()), []).append((p, g))
    wanted = {(t, d['title'], r) for r, (_, props) in enumerate(made) for t, _, rows in props for d in rows}
    expect(set(found) == wanted, 'properties gathered', sorted(set(found) ^ wanted, key = str))
    for r, (_, props) in enumerate(made):
        for t, s, rows in props:
            for d in rows:
                got = found[(t, d['title'], r)]
                expect(len(got) == 1, 'number of copies', t, d['title'], r, len(got))
                p, g = got[0]
                expect(rq.near(p.array_ref().astype(float), d['a'].astype(float)), 'values', t, d['title'], r)
                expect(p.property_kind() == d['kind'] and p.uom() == d.get('uom'), 'kind and uom', p.property_kind(), p.uom())
                expect(rq.near(g.corner_points(), s.cp), 'grid of', t, r)
                if d.get('string_lookup_uuid') is not None:
                    expect(p.string_lookup() is not None and p.string_lookup().get_string(3) == 'facies 3', 'string lookup')
    names = [u for u in m.uuids(obj_type = 'StringTableLookup') if StringLookup(m, uuid = u).title == 'ensemble epc table']
    expect(len(names) == (1 if table else 0), 'epc lookup', len(names))
    if table:
        sl = StringLookup(m, uuid = names[0])
        expect([sl.get_string(r) for r in range(cases)] == [p for p, _ in made], 'epc lookup')
    for path, props in made:  # sources
        q = rq.open_model(path)
        expect(len(q.uuids(obj_type = 'ContinuousProperty')) == grids, 'source model changed')
        rq.close(q)
    ctx.state((cases, grids))
    rq.close(m)


def gathers(ctx, share, of):
    n = 0
    for cases, grids, same in ((1, 1, True), (2, 1, True), (3, 1, True), (2, 2, True), (2, 2, False), (3, 2, True), (3, 2, False)):
        for lookup, consolidate, shared, table in itertools.product((False, True), repeat = 4):
            n += 1
            if n % of == share:
                ctx.run((cases, grids, same, lookup, consolidate, shared, table), gather_case, ctx, cases, grids, same, lookup, consolidate, shared, table)


# ---------------------------------------------------------------------------------------------------------------------
# one thing added to a file

def single_cell(ctx):
    import resqpy.derived_model as rqdm

    def one(points, down):
        path = ctx.path('cell.epc')
        g = rqdm.add_single_cell_grid(points.copy(), new_grid_title = 'lump', new_epc_file = path, z_inc_down = down)
        lo, hi = np.nanmin(points.reshape((-1, 3)), axis = 0), np.nanmax(points.reshape((-1, 3)), axis = 0)
        m, h = reopened(path, g.uuid)
        for x in (g, h):
            expect(tuple(x.extent_kji) == (1, 1, 1), 'extent')
            box = x.xyz_box(lazy = False, local = False)
            expect(rq.near(np.array(box), np.stack((lo, hi)), 1.0e-3), 'box of the cell', np.array(box).tolist(), lo.tolist(), hi.tolist())
            cp = x.corner_points().reshape((8, 3))
            expect(len({tuple(np.round(c, 3)) for c in cp}) == 8, 'corners of the cell')
            expect(x.crs.z_inc_down == down, 'z direction')
        expect(h.title == 'lump', 'title', h.title)
        rq.close(m)

    sets = {'two': np.array([(1.0, 2.0, 3.0), (4.0, 6.0, 9.0)]),
            'cloud': np.array([(5.0, 2.0, 30.0), (4.0, 60.0, 9.0), (40.0, 6.0, 19.0), (7.0, 7.0, 7.0)]),
            'hole': np.array([[(5.0, 2.0, 30.0), (np.nan, np.nan, np.nan)], [(40.0, 6.0, 19.0), (7.0, 7.0, 7.0)]])}
    for name, down in itertools.product(sets, (True, False)):
        ctx.run((name, down), one, sets[name], down)


def bored(ctx):
    """Properties of blocked wells, and for the edges of columns."""
    import resqpy.derived_model as rqdm
    import resqpy.well as rqw
    from resqpy.grid import any_grid
    from resqpy.property import Property

    def one(new, discrete, indexable):
        s = ijk.Spec(3, 2, 2)
        src = Source(ctx, s)
        m = rq.open_model(src.path)
        x, y = np.mean(s.cp[0, 0, 0], axis = (0, 1, 2))[:2]
        datum = rqw.MdDatum(m, crs_uuid = src.crs_uuid, location = (x, y, 0.0))
        datum.create_xml()
        t = rqw.Trajectory(m, md_datum = datum, mds = (0.0, 1200.0), control_points = np.array([(x, y, z) for z in (0.0, 1200.0)]), length_uom = 'm',
                           well_name = 'W1')
        t.write_hdf5()
        t.create_xml()
        b = rqw.BlockedWell(m, grid = any_grid(m, uuid = src.uuid), trajectory = t)
        b.write_hdf5()
        b.create_xml()
        m.store_epc()
        count = b.cell_count if indexable == 'cells' else b.node_count - 1
        expect(b.cell_count == 3, 'cells of the well', b.cell_count)
        rq.close(m)
        a = np.arange(count) * 3 + 1
        a = a.astype(int) if discrete else a * 0.5
        before = open(src.path, 'rb').read()
        u = rqdm.add_one_blocked_well_property(src.path, a.copy(), 'region initialization' if discrete else 'porosity', b.uuid, title = 'DOT',
                                               discrete = discrete, uom = None if discrete else 'm3/m3', indexable_element = indexable, realization = 4,
                                               new_epc_file = src.new if new else None)
        path = src.new if new else src.path
        if new:
            expect(open(src.path, 'rb').read() == before, 'source file changed')
        rq.Stored(path).check_wellformed()
        m = rq.open_model(path)
        p = Property(m, uuid = u)
        expect(rq_eq(p.collection.support_uuid, b.uuid), 'support')
        expect(rq.near(p.array_ref().astype(float), a.astype(float)), 'values')
        expect(p.title == 'DOT' and p.realization() == 4 and p.indexable_element() == indexable and p.is_continuous() == (not discrete), 'metadata')
        w = rqw.BlockedWell(m, uuid = b.uuid)
        expect(rq.same(w.cell_indices_and_grid_list()[0], np.array([(k, 0, 0) for k in range(3)])), 'cells of the well')
        rq.close(m)
        src.unharmed()

    for new, discrete, indexable in itertools.product((False, True), (False, True), ('cells', 'intervals')):
        ctx.run((new, discrete, indexable), one, new, discrete, indexable)

    def edges(new, form, discrete):
        s = ijk.Spec(2, 2, 3)
        src = Source(ctx, s)
        a = np.arange(24).reshape((2, 3, 2, 2)) * (1 if discrete else 0.5)
        from resqpy.property import reformat_column_edges_from_resqml_format as back, reformat_column_edges_to_resqml_format as to
        flat = to(a)
        expect(rq.near(back(flat), a) and sorted(flat[1, 2]) == sorted(a[1, 2].reshape(-1)), 'forms of edges')
        u = rqdm.add_edges_per_column_property_array(src.path, a.copy() if form == 4 else flat.copy(), 'region initialization' if discrete else 'multiplier',
                                                     title = 'EDGE', discrete = discrete, uom = None if discrete else 'Euc',
                                                     new_epc_file = src.new if new else None)
        path = src.new if new else src.path
        rq.Stored(path).check_wellformed()
        m = rq.open_model(path)
        p = Property(m, uuid = u)
        expect(rq_eq(p.collection.support_uuid, src.uuid) and p.indexable_element() == 'edges per column', 'metadata')
        expect(rq.near(p.array_ref().astype(float), flat.astype(float)), 'values')
        expect(rq.near(any_grid(m, uuid = src.uuid).corner_points(), s.cp, 1.0e-4), 'grid')
        rq.close(m)
        src.unharmed()

    for new, form, discrete in itertools.product((False, True), (3, 4), (False, True)):
        ctx.run(('edges', new, form, discrete), edges, new, form, discrete)


def jobs(tier):
    out = []

    def spread(fn, of):
        for share in range(of):
            out.append(('%s %d/%d' % (fn.__name__.strip('_'), share, of), fn, dict(share = share, of = of)))

    many = 1 if tier == 'quick' else 2
    spread(throws, 8 * many)
    spread(throws_near, 2)
    spread(named, 2)
    spread(drapes, 4)
    spread(locals_, 4)
    spread(betweens, 4 * many)
    spread(betweens_pillar, 4)
    spread(faults, 8)
    spread(faults_two, 8 * many)
    spread(faults_wide, 6 * many)
    spread(wells, 16 * many)
    spread(gathers, 4)
    for fn in (stretches, short_cloth, single_cell, bored):
        out.append((fn.__name__, fn, {}))
    return out
