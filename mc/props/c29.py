"""C29: the faces found to represent a surface are those between cells whose centres it separates.

All sheets over a lattice of corner heights in each direction, all triangles of a lattice, all masks of small grids, put through every
way of finding faces on the real code, against exact tests of segments between neighbouring centres with triangles."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C29'
TITLE = 'Faces found for a surface are those between cells which it separates'
BOUNDS = dict(quick = 'all sheets of 4 levels at 4 corners x 3 axes x 2 diagonals; all triangles of 8 points and pairs of 12; all masks of 3x2x2 and 1x3x3; 8x8 crs',
              thorough = 'all sheets of 5 levels at 4 corners x 3 axes x 2 diagonals; all triangles of 9 points and pairs of 30; all masks of 3x2x2, 2x3x2, 2x2x3, 1x3x3 and 1x3x4; 16x16 crs')


def warm(tier):
    import resqpy.grid, resqpy.grid_surface, resqpy.surface, resqpy.fault  # noqa


# oracle: all values are multiples of 1/16 of moderate size, so that the determinants are exact

def _det(a, b, c):
    return (a[..., 0] * (b[..., 1] * c[..., 2] - b[..., 2] * c[..., 1]) - a[..., 1] * (b[..., 0] * c[..., 2] - b[..., 2] * c[..., 0]) + a[..., 2] *
            (b[..., 0] * c[..., 1] - b[..., 1] * c[..., 0]))


def meetings(starts, ends, tris):
    """For each of n segments and m triangles: 1 for a proper meeting, 2 on an edge of the triangle, 3 not to be judged, 0 none; with the fraction along."""
    a = starts[:, None]
    b = ends[:, None]
    p = tris[None]
    normal = np.cross(tris[:, 1] - tris[:, 0], tris[:, 2] - tris[:, 0])[None]
    da = np.sum(normal * (a - p[:, :, 0]), axis = -1)
    db = np.sum(normal * (b - p[:, :, 0]), axis = -1)
    e = np.stack([_det(b - a, p[:, :, k] - a, p[:, :, (k + 1) % 3] - a) for k in range(3)], axis = -1)
    scale = np.max(np.abs(e)) if e.size else 1.0
    e = np.where(np.abs(e) < 1.0e-12 * scale, 0.0, e)
    inside = np.logical_or(np.all(e > 0.0, axis = -1), np.all(e < 0.0, axis = -1))
    weak = np.logical_or(np.all(e >= 0.0, axis = -1), np.all(e <= 0.0, axis = -1))
    crossed = da * db < 0.0
    end = np.logical_and(np.logical_or(da == 0.0, db == 0.0), weak)
    r = np.where(np.logical_and(crossed, inside), 1, np.where(np.logical_and(crossed, weak), 2, np.where(end, 3, 0)))
    with np.errstate(all = 'ignore'):
        t = da / (da - db)
    return r, t


def segments(centres):
    """List of (axis, kji) of all inner faces, with the centres on either side."""
    nk, nj, ni = centres.shape[:3]
    f, a, b = [], [], []
    for axis in range(3):
        for kji in itertools.product(*[range(n - (1 if x == axis else 0)) for x, n in enumerate((nk, nj, ni))]):
            o = list(kji)
            o[axis] += 1
            f.append((axis,) + kji)
            a.append(centres[kji])
            b.append(centres[tuple(o)])
    return f, np.array(a).reshape((-1, 3)), np.array(b).reshape((-1, 3))


class Found:
    """What is to be found for triangles and cell centres: the faces which must and which may be there, with possible meetings of each."""

    def __init__(self, centres, tris):
        self.shape = centres.shape[:3]
        self.f, self.a, self.b = segments(centres)
        self.tris = tris
        self.must, self.may, self.at = set(), set(), {}
        if not self.f:
            return
        r, t = meetings(self.a, self.b, tris)
        for n, f in enumerate(self.f):
            hit = np.where((r[n] == 1) | (r[n] == 2))[0]
            if np.any(r[n] == 1) or np.count_nonzero(r[n] == 2) > 1:
                self.must.add(f)
            elif np.any(r[n] != 0):
                self.may.add(f)
            self.at[f] = [(int(x), self.a[n] + t[n, x] * (self.b[n] - self.a[n])) for x in hit]

    def check(self, faces, what):
        faces = set(faces)
        expect(self.must <= faces, what, ': faces missing', sorted(self.must - faces)[:4], 'of', len(self.must))
        expect(faces <= (self.must | self.may), what, ': faces in excess', sorted(faces - self.must - self.may)[:4], 'besides', len(self.must))


def faces_of(gcs, shape):
    """The faces of a connection set as (axis, kji of the negative side), in order, and whether the first cell of the pair is on the negative side."""
    if gcs is None or not gcs.count:
        return [], []
    cip = np.array(gcs.cell_index_pairs).reshape((-1, 2))
    fip = np.array(gcs.face_index_pairs).reshape((-1, 2))
    r, s = [], []
    for (a, b), (fa, fb) in zip(cip, fip):
        a, b = np.array(np.unravel_index(a, shape)), np.array(np.unravel_index(b, shape))
        d = b - a
        expect(np.sum(np.abs(d)) == 1, 'pair of cells which are not neighbours', a, b)
        axis = int(np.argmax(np.abs(d)))
        first = d[axis] > 0
        ax, pol = gcs.face_index_inverse_map[fa]
        expect((ax, pol) == (axis, 1 if first else 0), 'face of the first cell', a, b, ax, pol)
        ax, pol = gcs.face_index_inverse_map[fb]
        expect((ax, pol) == (axis, 0 if first else 1), 'face of the second cell', a, b, ax, pol)
        r.append((axis,) + tuple(int(x) for x in (a if first else b)))
        s.append(bool(first))
    expect(len(set(r)) == len(r), 'a face is repeated', len(r), len(set(r)))
    return r, s


def regular(m, crs, shape, dxyz):
    import resqpy.grid as grr
    g = grr.RegularGrid(m, extent_kji = shape, dxyz = dxyz, crs_uuid = crs.uuid, title = 'g', as_irregular_grid = False)
    g.create_xml()
    return g


def centres_of(shape, dxyz):
    k, j, i = np.meshgrid(*[np.arange(n) + 0.5 for n in shape], indexing = 'ij')
    return np.stack((i * dxyz[0], j * dxyz[1], k * dxyz[2]), axis = -1)


def surface(m, crs, t, p, title = 's', store = False):
    import resqpy.surface as rqs
    s = rqs.Surface(m, crs_uuid = crs.uuid, title = title)
    s.set_from_triangles_and_points(np.array(t, dtype = int), np.array(p, dtype = float))
    if store:
        s.write_hdf5()
        s.create_xml()
    return s


def same_surface(s, crs, t, p, tol = 0.0):
    expect(str(s.crs_uuid) == str(crs.uuid), 'crs of the surface changed')
    tt, pp = s.triangles_and_points()
    expect(np.array_equal(np.sort(np.array(tt), axis = 1), np.sort(np.array(t), axis = 1)), 'triangles of the surface changed')
    expect(rq.near(pp, np.array(p, dtype = float), tol), 'points of the surface changed', pp)


def parts_of(shape, faces):
    """Labels of the parts of the grid into which the faces cut it."""
    lab = np.full(shape, -1, dtype = int)
    n = 0
    faces = set(faces)
    for seed in itertools.product(*map(range, shape)):
        if lab[seed] >= 0:
            continue
        stack = [seed]
        lab[seed] = n
        while stack:
            c = stack.pop()
            for axis in range(3):
                for step in (-1, 1):
                    o = list(c)
                    o[axis] += step
                    if not 0 <= o[axis] < shape[axis]:
                        continue
                    o = tuple(o)
                    if ((axis,) + (c if step > 0 else o)) in faces or lab[o] >= 0:
                        continue
                    lab[o] = n
                    stack.append(o)
        n += 1
    return lab, n


def shadow_of(shape, faces):
    a = np.zeros(shape, dtype = int)
    for axis, k, j, i in faces:
        if axis == 0:
            a[:k + 1, j, i] |= 1
            a[k + 1:, j, i] |= 2
    return a


def mean_k(mask):
    return float(np.mean(np.where(mask)[0]))


def check_bisector(bisector, is_curtain, raw, lab, what):
    """The grid is in two parts: the bisector is true in one of them."""
    nk = lab.shape[0]
    curtain = bool(np.all(lab == lab[:1]))
    b = np.asarray(bisector, dtype = bool)
    if is_curtain and b.ndim == 2:
        b = np.repeat(b[None], nk, axis = 0)
    expect(b.shape == lab.shape, what, 'shape of bisector', b.shape)
    one = np.array_equal(b, lab == 0)
    expect(one or np.array_equal(b, lab == 1), what, 'bisector', b.astype(int).tolist(), 'parts', lab.tolist())
    ks = mean_k(lab == 0), mean_k(lab == 1)
    if not raw and abs(ks[0] - ks[1]) > 0.01:
        expect(one == (ks[0] < ks[1]), what, 'bisector is true on the deeper side')
        expect(not is_curtain, what, 'is taken for a curtain')
    if curtain:
        expect(is_curtain, what, 'is not taken for a curtain')


PROPS = ['triangle', 'depth', 'offset', 'grid bisector', 'grid shadow']


def check_props(want, faces, props, dxyz, factor, sealed, raw, what):
    """Properties returned, each for the faces in order; factor takes xy lengths to z units."""
    cells = np.array(dxyz)
    for n, f in enumerate(faces):
        ok = []
        for tri, xyz in want.at[f]:
            axis = 2 - f[0]
            off = xyz[axis] - (f[1 + f[0]] + 1) * cells[axis]
            if f[0]:
                off *= factor
            ok.append((tri, xyz[2], off))
        got = [(props['triangle'][n] if 'triangle' in props else None, props['depth'][n] if 'depth' in props else None,
                props['offset'][n] if 'offset' in props else None)]
        # several triangles may meet the segment: any one of them will do, all of its values being used
        def fits(o):
            return all(g is None or abs(float(g) - x) < 1.0e-6 for g, x in zip(got[0], o))
        expect(any(fits(o) for o in ok), what, 'triangle, depth and offset of face', f, got[0], 'may be', ok)
    if 'grid bisector' in props and sealed is not None:
        b, c = props['grid bisector']
        check_bisector(b, c, raw, sealed, what)
    if 'grid shadow' in props:
        expect(np.array_equal(np.asarray(props['grid shadow'], dtype = int), shadow_of(want.shape, faces)), what, 'grid shadow')


def find_all(ctx, m, g, crs, dxyz, t, p, centres, sheet, given = None, s_crs = None, tol = 0.0, factor = 1.0):
    """All ways of finding the faces; points p are in the crs of the grid, given in that of the surface."""
    import resqpy.grid_surface as rqgs
    s_crs = s_crs or crs
    given = p if given is None else given
    want = Found(centres, np.array(p, dtype = float)[np.array(t)])
    lab, n = parts_of(want.shape, want.must)
    sealed = lab if sheet and n == 2 and not want.may else None

    def check(gcs, what):
        f, sides = faces_of(gcs, want.shape)
        want.check(f, what)
        ctx.step(1)
        return f, sides

    s = surface(m, s_crs, t, given)
    for mode in ('staffa', 'regular', 'regular_dense', 'regular_optimised', 'auto', 'regular'):
        with about(f'mode {mode}'):
            check(rqgs.find_faces_to_represent_surface(g, s, 'f', mode = mode), mode)
            same_surface(s, s_crs, t, given, tol)
    if not want.may:
        for fn in (rqgs.find_faces_to_represent_surface_regular, rqgs.find_faces_to_represent_surface_regular_optimised,
                   rqgs.find_faces_to_represent_surface_regular_dense_optimised):
            with about('agitated'):
                seen = []
                check(fn(g, s, 'f', title = 'agitated', agitate = True, progress_fn = seen.append), 'agitated')
                expect(seen == sorted(seen) and seen[0] == 0.0 and seen[-1] <= 1.0, 'progress', seen)
                same_surface(s, s_crs, t, given, tol)
    asked = [x for x in PROPS if sealed is not None or x != 'grid bisector']
    if want.shape[0] == 1:
        asked.remove('grid shadow')
    if want.must:
        for raw in (False, True):
            with about('optimised'):
                gcs, props = rqgs.find_faces_to_represent_surface_regular_optimised(g, s, 'f', return_properties = asked, raw_bisector = raw, n_batches = 1 + raw)
                f, _ = check(gcs, 'optimised')
                expect(sorted(props) == sorted(asked), 'properties', sorted(props))
                check_props(want, f, props, dxyz, factor, sealed, raw, 'optimised')
            with about('dense'):
                gcs, props = rqgs.find_faces_to_represent_surface_regular_dense_optimised(g, s, 'f', return_properties = asked, raw_bisector = raw, n_batches = 1 + raw)
                f, _ = check(gcs, 'dense')
                expect(sorted(props) == sorted(asked), 'properties', sorted(props))
                check_props(want, f, props, dxyz, factor, sealed, raw, 'dense')
            same_surface(s, s_crs, t, given, tol)
        for q in ('depth', 'triangle', 'offset'):
            gcs, props = rqgs.find_faces_to_represent_surface_regular_optimised(g, s, 'f', return_properties = [q])
            check_props(want, faces_of(gcs, want.shape)[0], props, dxyz, factor, None, False, 'optimised ' + q)
            gcs, props = rqgs.find_faces_to_represent_surface_regular_dense_optimised(g, s, 'f', return_properties = [q])
            check_props(want, faces_of(gcs, want.shape)[0], props, dxyz, factor, None, False, 'dense ' + q)
        with about('regular'):
            gcs, props = rqgs.find_faces_to_represent_surface_regular(g, s, 'f', return_properties = ['offset', 'normal vector'])
            f, _ = check(gcs, 'regular')
            check_props(want, f, dict(offset = props['offset']), dxyz, factor, None, False, 'regular')
            for n, x in enumerate(f):
                ns = []
                for tri, _ in want.at[x]:
                    a, b, c = want.tris[tri] * np.array((factor, factor, 1.0))
                    v = np.cross(b - a, c - a)
                    ns.append(v / np.sqrt(np.sum(v * v)))
                v = props['normal vector'][n]
                expect(any(np.allclose(v, y, atol = 1.0e-6) or np.allclose(v, -y, atol = 1.0e-6) for y in ns), 'normal of face', x, v, ns)
                expect(v[2] <= 1.0e-9, 'normal of face', x, 'points down', v)
    if sealed is not None:
        curtain = np.all(sealed == sealed[:1]) and not any(f[0] == 0 for f in want.must)
        if curtain:
            asked = [x for x in asked if x not in ('depth', 'grid shadow')]
            for fn, what in ((rqgs.find_faces_to_represent_surface_regular_optimised, 'optimised curtain'),
                             (rqgs.find_faces_to_represent_surface_regular_dense_optimised, 'dense curtain')):
                with about(what):
                    gcs, props = fn(g, s, 'f', is_curtain = True, return_properties = asked)
                    f, _ = check(gcs, what)
                    b, c = props['grid bisector']
                    expect(c and np.asarray(b).shape == want.shape[1:], 'column bisector', c, np.asarray(b).shape)
                    expect(np.array_equal(b, sealed[0] == 0) or np.array_equal(b, sealed[0] == 1), 'column bisector', np.asarray(b).tolist())
                    # one layer is looked at: the values are those of the top layer
                    for n, x in enumerate(f):
                        top = (x[0], 0) + x[2:]
                        expect(any(int(props['triangle'][n]) == tri for tri, _ in want.at[top]), what, 'triangle of', x, props['triangle'][n], want.at[top])
                        offs = [(xyz[2 - x[0]] - (x[1 + x[0]] + 1) * dxyz[2 - x[0]]) * factor for _, xyz in want.at[top]]
                        expect(any(abs(props['offset'][n] - o) < 1.0e-6 for o in offs), what, 'offset of', x, props['offset'][n], offs)
            same_surface(s, s_crs, t, given, tol)
    ctx.outcome((len(want.must) > 0, n, sealed is not None))
    return want, sealed


SHAPES = [(3, 3, 3), (2, 3, 4), (4, 2, 3)]
DXYZ = (8.0, 16.0, 4.0)


def sheet_points(shape, dxyz, axis, heights, diag):
    """Two triangles across the whole grid, the corners at the given levels (fractions of the length) along axis (0 for x)."""
    size = np.array(shape[::-1]) * np.array(dxyz)
    u, v = [x for x in range(3) if x != axis]
    p = np.empty((4, 3))
    p[:, u] = [-3.125, -2.8125, size[u] + 2.9375, size[u] + 3.1875]
    p[:, v] = [-3.0625, size[v] + 2.6875, -2.5625, size[v] + 3.3125]
    p[:, axis] = np.round(np.array(heights) * size[axis] * 16.0) / 16.0 + np.array((0.0625, 0.0, 0.125, 0.0))
    return p, ([(0, 1, 2), (3, 2, 1)] if diag == 0 else [(0, 1, 3), (0, 3, 2)])


LEVELS = (-0.4, 0.27, 0.71, 1.37, 0.5)


def sheet_case(ctx, shape, axis, heights, diag):
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    crs = rq.add_crs(m)
    g = regular(m, crs, shape, DXYZ)
    p, t = sheet_points(shape, DXYZ, axis, heights, diag)
    find_all(ctx, m, g, crs, DXYZ, t, p, centres_of(shape, DXYZ), True)
    ctx.state((shape, axis, heights, diag))
    rq.close(m)


def sheets(ctx, axis, first):
    levels = LEVELS if ctx.tier == 'thorough' else LEVELS[:4]
    for n, rest in enumerate(itertools.product(levels, repeat = 3)):
        hs = (first,) + rest
        for diag in (0, 1):
            shape = SHAPES[(n + diag) % 3]
            ctx.run((shape, axis, hs, diag), sheet_case, ctx, shape, axis, hs, diag)


TRIPTS = [(-2.4375, 5.3125, 1.1875), (27.1875, -3.3125, 2.4375), (9.5625, 50.3125, 3.8125), (14.1875, 20.4375, -2.5625), (13.3125, 27.5625, 13.6875),
          (3.4375, 30.8125, 9.1875), (22.5625, 9.0625, 8.3125), (11.8125, 11.1875, 5.5625), (19.9375, 41.4375, 6.8125)]


def triangle_case(ctx, tris):
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    crs = rq.add_crs(m)
    shape = (3, 3, 3)
    g = regular(m, crs, shape, DXYZ)
    find_all(ctx, m, g, crs, DXYZ, list(tris), np.array(TRIPTS), centres_of(shape, DXYZ), False)
    ctx.state(tris)
    rq.close(m)


def triangles(ctx, part, parts):
    n = 9 if ctx.tier == 'thorough' else 8
    ts = list(itertools.combinations(range(n), 3))
    some = ts[::len(ts) // (30 if ctx.tier == 'thorough' else 12)]
    todo = [(t,) for t in ts] + [(t, u[1:] + u[:1]) for t, u in itertools.combinations(some, 2)]
    for tris in todo[part::parts]:
        ctx.run(tris, triangle_case, ctx, tris)


# centres exactly above edges and vertices of the triangles: a sheet does not leak there

def seam_case(ctx, shape, axis, heights, how):
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    crs = rq.add_crs(m)
    dxyz = (8.0, 8.0, 8.0)
    g = regular(m, crs, shape, dxyz)
    n = shape[::-1]
    u, v = [x for x in range(3) if x != axis]
    # nodes at cell centres, and one row beyond on each side
    us, vs = np.arange(-1, n[u] + 1) * 8.0 + 4.0, np.arange(-1, n[v] + 1) * 8.0 + 4.0
    p = np.empty((len(us), len(vs), 3))
    p[..., u] = us[:, None]
    p[..., v] = vs[None]
    for a in range(len(us)):
        for b in range(len(vs)):
            p[a, b, axis] = heights[(2 * a + b + a * b) % len(heights)]
    t = []
    for a in range(len(us) - 1):
        for b in range(len(vs) - 1):
            q = [a * len(vs) + b, (a + 1) * len(vs) + b, a * len(vs) + b + 1, (a + 1) * len(vs) + b + 1]
            flip = how if how < 2 else (a + b) % 2
            t += [(q[0], q[1], q[3]), (q[0], q[3], q[2])] if flip else [(q[0], q[1], q[2]), (q[1], q[2], q[3])]
    find_all(ctx, m, g, crs, dxyz, t, p.reshape((-1, 3)), centres_of(shape, dxyz), True)
    ctx.state((shape, axis, heights, how))
    rq.close(m)


def seams(ctx, axis):
    for shape in ((2, 2, 2), (3, 2, 3)):
        size = 8.0 * shape[2 - axis]
        for hs in itertools.product((7.0, 9.5, size - 6.5), repeat = 3):
            for how in range(3):
                ctx.run((shape, axis, hs, how), seam_case, ctx, shape, axis, hs, how)


# coordinate reference systems

def crss(n):
    r = []
    for origin in ((0.0, 0.0, 0.0), (100.0, -50.0, 20.0)):
        for up in (False, True):
            for xy, z in (('m', 'm'), ('m', 'ft'), ('ft', 'm'), ('ft', 'ft')):
                r.append(dict(x_offset = origin[0], y_offset = origin[1], z_offset = origin[2], z_inc_down = not up, xy_units = xy, z_units = z))
    return r[:n] if n == 16 else r[1::2]


M = dict(m = 1.0, ft = 0.3048)


def crs_case(ctx, gc, sc, heights, axis):
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    a = rq.add_crs(m, **gc)
    b = rq.add_crs(m, **sc)
    shape = (3, 3, 2)
    g = regular(m, a, shape, DXYZ)
    p, t = sheet_points(shape, DXYZ, axis, heights, 0)
    # into metres, with respect to the common origin, then to the system of the surface
    def out(p, c):
        q = np.empty(p.shape)
        q[:, 0] = (p[:, 0] + c['x_offset']) * M[c['xy_units']]
        q[:, 1] = (p[:, 1] + c['y_offset']) * M[c['xy_units']]
        q[:, 2] = (p[:, 2] + c['z_offset']) * M[c['z_units']] * (1.0 if c['z_inc_down'] else -1.0)
        return q
    def back(q, c):
        p = np.empty(q.shape)
        p[:, 0] = q[:, 0] / M[c['xy_units']] - c['x_offset']
        p[:, 1] = q[:, 1] / M[c['xy_units']] - c['y_offset']
        p[:, 2] = q[:, 2] / M[c['z_units']] * (1.0 if c['z_inc_down'] else -1.0) - c['z_offset']
        return p
    given = back(out(p, gc), sc)
    find_all(ctx, m, g, a, DXYZ, t, p, centres_of(shape, DXYZ), True, given = given, s_crs = b, tol = 1.0e-9, factor = M[gc['xy_units']] / M[gc['z_units']])
    ctx.state((tuple(gc.values()), tuple(sc.values()), heights, axis))
    rq.close(m)


def systems(ctx, one):
    cs = crss(16 if ctx.tier == 'thorough' else 8)
    for n, sc in enumerate(cs):
        for axis in range(3):
            for hs in ((0.27, 0.71, 0.71, 0.27), (0.27, 0.27, 0.71, 0.5)):
                ctx.run((tuple(cs[one].values()), tuple(sc.values()), hs, axis), crs_case, ctx, cs[one], sc, hs, axis)


# grids one or two cells across

def thin_case(ctx, shape, axis, heights):
    sheet_case(ctx, shape, axis, heights, 1)


def thin(ctx, nk):
    for nj, ni in itertools.product((1, 2, 3), repeat = 2):
        for axis in range(3):
            for hs in ((0.27, 0.71, 0.71, 0.27), (0.52, 0.51, 0.53, 0.52), (-0.4, 0.71, 0.51, 1.37), (-0.4, -0.5, -0.6, -0.4)):
                ctx.run(((nk, nj, ni), axis, hs), thin_case, ctx, (nk, nj, ni), axis, hs)


# first cells of the pairs all on one side

def side_case(ctx, shape, heights, diag, turn):
    import resqpy.grid_surface as rqgs
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    crs = rq.add_crs(m)
    g = regular(m, crs, shape, DXYZ)
    p, t = sheet_points(shape, DXYZ, 2, heights, diag)
    t = [tuple(x[::-1]) if turn >> n & 1 else tuple(x) for n, x in enumerate(t)]
    c = centres_of(shape, DXYZ)
    want = Found(c, p[np.array(t)])
    s = surface(m, crs, t, p)
    gcs = rqgs.find_faces_to_represent_surface_regular(g, s, 'f', consistent_side = True)
    f, first = faces_of(gcs, shape)
    want.check(f, 'consistent side')
    seen = {}
    for n, x in enumerate(f):
        tri, _ = want.at[x][0]
        a, b, d = want.tris[tri]
        v = np.cross(b - a, d - a)
        o = list(x[1:])
        o[x[0]] += 1
        lower = np.dot(c[tuple(o)] - c[x[1:]], v if v[2] > 0.0 else -v) > 0.0  # the cell on the positive side is the deeper one
        if len(want.at[x]) == 1:
            seen[x] = lower == first[n]
    expect(len(set(seen.values())) <= 1, 'first cells are on both sides', seen)
    ctx.state((shape, heights, diag, turn))
    ctx.outcome((len(seen) > 0, turn))
    rq.close(m)


def sides(ctx, shape):
    for hs in itertools.product((0.27, 0.71, 1.1), repeat = 4):
        for diag in (0, 1):
            for turn in (0, 1, 2, 3):
                ctx.run((shape, hs, diag, turn), side_case, ctx, shape, hs, diag, turn)


# parts of a grid: all masks with two connected parts

def arrays_of(shape, faces):
    r = []
    for axis in range(3):
        e = list(shape)
        e[axis] -= 1
        a = np.zeros(e, dtype = bool)
        for f in faces:
            if f[0] == axis:
                a[f[1:]] = True
        r.append(a if e[axis] else None)
    return r


def mask_case(ctx, shape, mask):
    import resqpy.grid_surface as rqgs
    a = np.array([bool(mask >> n & 1) for n in range(int(np.prod(shape)))]).reshape(shape)
    faces = []
    for axis in range(3):
        for kji in itertools.product(*[range(n - (1 if x == axis else 0)) for x, n in enumerate(shape)]):
            o = list(kji)
            o[axis] += 1
            if a[kji] != a[tuple(o)]:
                faces.append((axis,) + kji)
    lab, n = parts_of(shape, faces)
    ks, js, is_ = arrays_of(shape, faces)
    box = rqgs.get_boundary(ks, js, is_, shape)
    cells = set()
    for f in faces:
        o = list(f[1:])
        o[f[0]] += 1
        cells |= {f[1:], tuple(o)}
    # the box holds the cells on either side of all faces, and one more layer where there is one
    lo, hi = np.min(list(cells), axis = 0), np.max(list(cells), axis = 0)
    for x in range(3):
        expect(box[0, x] <= lo[x] and box[1, x] >= hi[x] + 1, 'box', box.tolist(), 'of cells', lo, hi)
        expect(box[0, x] >= max(lo[x] - 1, 0) and box[1, x] <= min(hi[x] + 2, shape[x]), 'box', box.tolist(), 'of cells', lo, hi)
    d = rqgs.get_boundary_dict(ks, js, is_, shape)
    expect([d[x + '_min'] for x in 'kji'] == box[0].tolist() and [d[x + '_max'] for x in 'kji'] == (box[1] - 1).tolist(), 'boundary dictionary', d)
    if ks is not None:
        kept = ks.copy()
        expect(np.array_equal(np.asarray(rqgs.shadow_from_faces(shape, ks), dtype = int), shadow_of(shape, faces)), 'shadow')
        expect(np.array_equal(kept, ks), 'faces changed')
    if n == 2:
        for raw in (False, True):
            b, c = rqgs.bisector_from_faces(shape, ks, js, is_, raw)
            check_bisector(b, c, raw, lab, 'raw' if raw else 'shallow')
            ctx.step(1)
        if shape[0] == 1 and js is not None and is_ is not None:
            b = rqgs.column_bisector_from_faces(shape[1:], js[0], is_[0])
            expect(np.array_equal(b, lab[0] == lab[0, 0, 0]), 'column bisector', b.tolist())
    ctx.outcome((n, len(faces)))
    ctx.state((shape, mask))


def masks(ctx, shape, part, parts):
    n = int(np.prod(shape))
    for mask in range(1 + part, 2 ** (n - 1), parts):
        ctx.run((shape, mask), mask_case, ctx, shape, mask)


def shadow_case(ctx, nk, chosen):
    import resqpy.grid_surface as rqgs
    ks = np.zeros((nk - 1, 1, 2), dtype = bool)
    for n, x in enumerate(chosen):
        ks[:, 0, n] = [bool(x >> k & 1) for k in range(nk - 1)]
    faces = [(0,) + tuple(int(y) for y in x) for x in np.argwhere(ks)]
    got = np.asarray(rqgs.shadow_from_faces((nk, 1, 2), ks), dtype = int)
    expect(np.array_equal(got, shadow_of((nk, 1, 2), faces)), 'shadow', got[:, 0].T.tolist(), shadow_of((nk, 1, 2), faces)[:, 0].T.tolist())
    ctx.state((nk, chosen))
    ctx.outcome(len(faces))


def shadows(ctx):
    for nk in range(2, 7 if ctx.tier == 'quick' else 9):
        for x in range(2 ** (nk - 1)):
            y = (x * 5 + 3) % 2 ** (nk - 1)
            ctx.run((nk, x, y), shadow_case, ctx, nk, (x, y))


# irregular grids

def irregular_case(ctx, name, spec, heights, axis, crs_kw):
    import resqpy.grid_surface as rqgs
    m = rq.new_model(ctx.path('f.epc'), h5 = True)
    crs = rq.add_crs(m, **crs_kw)
    g = ijk.build(m, crs, spec, 'g')
    ijk.store(g)
    cp = np.array(spec.cp)
    centres = np.mean(cp.reshape(cp.shape[:3] + (8, 3)), axis = 3)
    lo, hi = np.min(cp.reshape((-1, 3)), axis = 0), np.max(cp.reshape((-1, 3)), axis = 0)
    size = hi - lo
    u, v = [x for x in range(3) if x != axis]
    p = np.empty((4, 3))
    p[:, u] = lo[u] + np.array((-0.113, -0.131, 1.127, 1.119)) * size[u]
    p[:, v] = lo[v] + np.array((-0.137, 1.141, -0.123, 1.117)) * size[v]
    p[:, axis] = lo[axis] + np.array(heights) * size[axis] + np.array((0.0071, 0.0013, 0.0037, 0.0052))
    t = [(0, 1, 2), (3, 2, 1)]
    want = Found(centres, p[np.array(t)])
    s = surface(m, crs, t, p)
    for mode in ('staffa', 'auto'):
        gcs = rqgs.find_faces_to_represent_surface(g, s, 'f', mode = mode)
        f, _ = faces_of(gcs, want.shape)
        want.check(f, mode)
        same_surface(s, crs, t, p)
        ctx.step(1)
    if gcs.count:
        gcs.write_hdf5()
        gcs.create_xml()
        m.store_epc()
        import resqpy.fault as rqf
        again = rqf.GridConnectionSet(m, uuid = gcs.uuid)
        again.cache_arrays()
        expect(faces_of(again, want.shape)[0] == f, 'faces as stored')
    ctx.outcome((name, len(want.must) > 0))
    ctx.state((name, heights, axis))
    rq.close(m)


IRREGULAR = {'lean': dict(lean = 0.25), 'turned': dict(lean = 0.1, flip_i = True), 'up': dict(lean = 0.1, up = True), 'gap': dict(lean = 0.1, gaps = (True, False)),
             'apart': dict(lean = 0.1, apart = True), 'apart gap': dict(lean = 0.1, apart = True, gaps = (False, True))}


def irregular(ctx, kind):
    from mc.props.c15 import KINDS
    kw = dict(IRREGULAR[kind])
    parts = KINDS['all apart'](2, 3) if kw.pop('apart', False) else {}
    spec = ijk.Spec(3, 2, 3, parts = parts, **kw)
    for axis in range(3):
        for hs in itertools.product((0.27, 0.71, -0.3), repeat = 4):
            ctx.run((kind, axis, hs), irregular_case, ctx, kind, spec, hs, axis, dict(z_inc_down = False) if kind == 'up' else {})


def jobs(tier):
    js = []
    for axis in range(3):
        for first in (LEVELS if tier == 'thorough' else LEVELS[:4]):
            js.append((f'sheets:{"xyz"[axis]}:{first}', sheets, dict(axis = axis, first = first)))
        js.append((f'seams:{"xyz"[axis]}', seams, dict(axis = axis)))
    parts = 16 if tier == 'thorough' else 4
    js += [(f'triangles:{n}', triangles, dict(part = n, parts = parts)) for n in range(parts)]
    js += [(f'systems:{n}', systems, dict(one = n)) for n in range(16 if tier == 'thorough' else 8)]
    js += [(f'thin:{n}', thin, dict(nk = n)) for n in (1, 2, 3)]
    js += [(f'sides:{s[0]}{s[1]}{s[2]}', sides, dict(shape = s)) for s in SHAPES]
    for shape in [(3, 2, 2), (1, 3, 3)] + ([(2, 3, 2), (2, 2, 3), (1, 3, 4)] if tier == 'thorough' else []):
        js += [(f'masks:{shape[0]}{shape[1]}{shape[2]}:{n}', masks, dict(shape = shape, part = n, parts = 2)) for n in range(2)]
    js.append(('shadows', shadows, {}))
    js += [(f'irregular:{k}', irregular, dict(kind = k)) for k in IRREGULAR]
    return js
