"""C15: every way of asking an IJK grid for its geometry agrees with the corner points it was made from.

The grids come from mc/ijk.py: for every pillar a set partition of the columns around it (which of them share a coordinate
line), every pattern of gaps between layers; made by setting the arrays and through corner point import; asked in the
session that made them and after re-reading, stored as points and as parametric lines.  The oracle is a plain Python
corner point array."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C15'
TITLE = 'IJK grid geometry'
BOUNDS = {
    'quick': 'all 240 ways of splitting the 5 shared pillars of a 2x2x2 grid x gaps; all 225 of the interior pillars of 2x2x3; '
             'all gap patterns x split kinds for 1..3 layers; all extents up to 3x3x3 unsplit; two builders, two storage forms; '
             '20 routes each',
    'thorough': 'all 14400 ways of splitting the 8 shared pillars of a 2x2x3 grid'
}

FR = (0.0, 0.25, 1.0)


def warm(tier):
    import resqpy.grid, resqpy.rq_import, resqpy.model, resqpy.crs, resqpy.property  # noqa


def cells(s):
    return itertools.product(*[range(n) for n in s.shape])


# ------------------------------------------------------------------------------------------------- routes

def r_corner_points(g, s, new):
    expect(rq.near(g.corner_points(), s.cp), 'corner_points()')
    for c in cells(s):
        expect(rq.near(g.corner_points(c), s.cp[c]), 'cached corner_points', c)
    g.invalidate_corner_points()
    expect(rq.near(g.corner_points(cache_cp_array = True), s.cp), 'corner_points() again')


def r_corner_points_cell(g, s, new):
    for kw in ({}, {'cache_resqml_array': False}):
        g = new()
        for c in cells(s):
            got = g.corner_points(c, **kw)
            expect(got is not None and rq.near(got, s.cp[c]), 'corner_points of cell', c, kw, got)
    g = new()
    for c in cells(s):
        expect(rq.near(g.corner_points(np.array(c), cache_cp_array = True), s.cp[c]), 'corner_points of cell, caching all', c)
        break


def r_point(g, s, new):
    for kw in ({}, {'cache_array': False}):
        g = new()
        for c in cells(s):
            for corner in itertools.product(range(2), repeat = 3):
                got = g.point(c, corner_index = np.array(corner), **kw)
                expect(got is not None and rq.near(got, s.cp[c + corner]), 'point', c, corner, kw, got, s.cp[c + corner])


def r_point_raw(g, s, new):
    p = s.points()
    expect(rq.near(g.point_raw(), p), 'point_raw()', np.shape(g.point_raw()), p.shape)
    expect(rq.near(g.points_ref(masked = False), p), 'points_ref unmasked')
    expect(rq.near(np.ma.filled(g.points_ref(), np.nan), p), 'points_ref masked')
    for kw in ({'cache_array': True}, {'cache_array': False}):
        h = new()
        for index in itertools.product(*[range(n) for n in p.shape[:-1]]):
            got = h.point_raw(index = index, **kw)
            expect(got is not None and rq.near(got, p[index]), 'point_raw', index, kw, got)
    g.uncache_points()
    if g.root is not None:
        expect(rq.near(g.points_ref(masked = False), p), 'points_ref after uncaching')


def r_pillars(g, s, new):
    pfc = g.create_column_pillar_mapping()
    p = s.points().reshape((s.nn, -1, 3))
    expect(np.shape(pfc) == (s.nj, s.ni, 2, 2), 'column pillar mapping shape', np.shape(pfc))
    expect(rq.near(p[:, pfc], s.nodes), 'points of the pillars of the columns')
    for j in range(s.nj + 1):
        for i in range(s.ni + 1):
            four = g.pillar_foursome((j, i))
            few = g.pillar_foursome((j, i), none_if_unsplit = True)
            expect((few is None) == (len(s.groups[(j, i)]) == 1), 'pillar_foursome none if unsplit', (j, i), few)
            expect(few is None or rq.same(few, four), 'pillar_foursome', (j, i), few, four)
            for jp in range(2):
                for ip in range(2):
                    col = (j - 1 + jp, i - 1 + ip)
                    if 0 <= col[0] < s.nj and 0 <= col[1] < s.ni:
                        expect(rq.near(p[:, four[jp, ip]], s.nodes[:, col[0], col[1], 1 - jp, 1 - ip]), 'pillar_foursome',
                               (j, i), 'column', col, four)


def primaries(s):
    return s.points().reshape((s.nn, -1, 3))[:, :(s.nj + 1) * (s.ni + 1)].reshape((s.nn, s.nj + 1, s.ni + 1, 3))


def healed(s):
    out = np.empty((s.nn, s.nj + 1, s.ni + 1, 3))
    for j in range(s.nj + 1):
        for i in range(s.ni + 1):
            cols = ijk.columns_around(s.nj, s.ni, j, i)
            out[:, j, i] = np.mean([s.nodes[:, cj, ci, j - cj, i - ci] for cj, ci in cols], axis = 0)
    return out


def r_horizons(g, s, new):
    p, h = primaries(s), healed(s)
    for k in range(s.nk):
        for kp in range(2):
            n = s.raw[k] + kp
            expect(rq.near(g.horizon_points(ref_k0 = k, kp = kp), p[n]), 'horizon_points', k, kp)
            expect(rq.near(g.horizon_points(ref_k0 = k, kp = kp, heal_faults = True), h[n]), 'horizon_points healed', k, kp)
            expect(rq.near(g.split_horizon_points(ref_k0 = k, kp = kp), s.nodes[n]), 'split_horizon_points', k, kp)
            expect(rq.near(np.ma.filled(g.split_horizon_points(ref_k0 = k, kp = kp, masked = True), np.nan), s.nodes[n]),
                   'split_horizon_points masked', k, kp)
    expect(rq.near(g.horizon_points(), p[0]), 'horizon_points()')
    expect(rq.near(g.split_horizon_points(), s.nodes[0]), 'split_horizon_points()')
    expect(rq.near(g.split_horizons_points(), s.nodes), 'split_horizons_points()')
    for a in range(s.nn):
        for b in range(a, s.nn):
            expect(rq.near(g.split_horizons_points(min_k0 = a, max_k0 = b), s.nodes[a:b + 1]), 'split_horizons_points', a, b)
    expect(rq.near(g.split_horizons_points(max_k0 = 0), s.nodes[:1]), 'split_horizons_points up to 0')


def r_unsplit(g, s, new):
    h = healed(s)
    expect(rq.near(g.unsplit_points_ref(), h), 'unsplit_points_ref')
    expect(rq.near(g.unsplit_points_ref(cache_array = True), h), 'unsplit_points_ref caching')
    expect(rq.near(g.unsplit_points_ref(), h), 'unsplit_points_ref cached')
    expect(rq.near(np.ma.filled(new().unsplit_points_ref(masked = True), np.nan), h), 'unsplit_points_ref masked')


def r_sections(g, s, new):
    for axis in 'IJij':
        iaxis = axis.upper() == 'I'
        n = s.ni if iaxis else s.nj
        for sl in range(n):
            for plus in (False, True):
                p = int(plus)
                kw = dict(ref_slice0 = sl, plus_face = plus)
                xs = s.cp[:, :, sl, :, :, p] if iaxis else s.cp[:, sl, :, :, p, :]
                nod = s.nodes[:, :, sl, :, p] if iaxis else s.nodes[:, sl, :, p, :]
                got = g.x_section_corner_points(axis, **kw)
                expect(rq.near(np.ma.filled(got, np.nan), xs), 'x_section_corner_points', axis, kw)
                expect(rq.near(np.ma.filled(g.x_section_corner_points(axis, masked = True, **kw), np.nan), xs),
                       'x_section_corner_points masked', axis, kw)
                if s.split() or any(s.gaps):
                    expect(rq.near(np.ma.filled(g.split_gap_x_section_points(axis, **kw), np.nan), xs),
                           'split_gap_x_section_points', axis, kw)
                if not any(s.gaps):
                    if s.split():
                        expect(rq.near(g.split_x_section_points(axis, **kw), nod), 'split_x_section_points', axis, kw)
                    if not s.split():
                        pp = s.points()
                        e = pp[:, :, sl + p] if iaxis else pp[:, sl + p]
                        expect(rq.near(g.unsplit_x_section_points(axis, **kw), e), 'unsplit_x_section_points', axis, kw)
                        expect(rq.near(g.x_section_points(axis, **kw), e), 'x_section_points', axis, kw)
                for az in (None, 30.0) if xs.shape[1] > 1 else (30.0,):
                    rot = g.x_section_corner_points(axis, rotate = True, azimuth = az, **kw)
                    expect(np.shape(rot) == xs.shape, 'rotated section shape', np.shape(rot))
                    expect(rq.near(rot[..., 2], xs[..., 2]), 'rotated section: depths', axis, kw)
                    expect(abs(np.min(rot[..., 0])) < 1e-9 and abs(np.min(rot[..., 1])) < 1e-9, 'rotated section: origin')
                    d = np.linalg.norm((xs - xs[0, 0, 0, 0])[..., :2], axis = -1)
                    e = np.linalg.norm((rot - rot[0, 0, 0, 0])[..., :2], axis = -1)
                    expect(rq.near(d, e), 'rotated section: distances', axis, kw, az)


def r_lines(g, s, new):
    p = primaries(s)
    e = np.stack((p[0], p[-1]), axis = 2)
    expect(rq.near(g.coordinate_line_end_points(), e), 'coordinate_line_end_points')
    z = s.cp[..., 2]
    expect(rq.near(g.z_corner_point_depths(), z), 'z_corner_point_depths')
    lin = np.transpose(z, axes = (0, 3, 1, 4, 2, 5))
    expect(rq.near(g.z_corner_point_depths(order = 'linear'), lin), 'z_corner_point_depths linear')


def r_centres(g, s, new):
    c = np.mean(s.cp, axis = (3, 4, 5))
    for pre in range(3):
        h = new()
        if pre == 1:
            h.corner_points(cache_cp_array = True)
        expect(rq.near(h.centre_point(), c), 'centre_point()', pre)
        for cell in cells(s):
            expect(rq.near(h.centre_point(cell), c[cell]), 'centre_point cached', cell)
    h = new()
    for cell in cells(s):
        expect(rq.near(h.centre_point(cell), c[cell]), 'centre_point of cell', cell)
        expect(rq.near(h.centre_point(np.array(cell)), c[cell]), 'centre_point of cell', cell)
    h = new()
    for cell in cells(s):
        expect(rq.near(h.centre_point(cell, cache_centre_array = True), c[cell]), 'centre_point of cell, caching', cell)
    lst = np.array(list(cells(s)))[::-1]
    expect(rq.near(new().centre_point_list(lst), c.reshape((-1, 3))[::-1]), 'centre_point_list')


def r_interpolate(g, s, new):
    w = lambda f: np.array((1.0 - f, f))
    for cell in list(cells(s))[::3]:
        for f in itertools.product(FR, repeat = 3):
            e = np.einsum('kjix,k,j,i->x', s.cp[cell], w(f[0]), w(f[1]), w(f[2]))
            got = g.interpolated_point(cell, f)
            expect(rq.near(got, e), 'interpolated_point', cell, f, got, e)
        fr = (np.array(FR), np.array((0.5, 0.1)), np.array((0.0, 1.0, 0.3, 0.7)))
        e = np.empty((3, 2, 4, 3))
        for a in range(3):
            for b in range(2):
                for c in range(4):
                    e[a, b, c] = np.einsum('kjix,k,j,i->x', s.cp[cell], w(fr[0][a]), w(fr[1][b]), w(fr[2][c]))
        expect(rq.near(g.interpolated_points(cell, fr), e), 'interpolated_points', cell)


def r_faces(g, s, new):
    fc = {0: np.mean(s.cp, axis = (4, 5)), 1: np.mean(s.cp, axis = (3, 5)), 2: np.mean(s.cp, axis = (3, 4))}
    for axis in range(3):
        for p in range(2):
            expect(rq.near(g.face_centre(None, axis, p), fc[axis][:, :, :, p]), 'face_centre of all cells', axis, p)
    h = new()
    for c in cells(s):
        all_c = np.array([[fc[a][c + (p,)] for p in range(2)] for a in range(3)])
        expect(rq.near(h.face_centres_kji_01(c), all_c), 'face_centres_kji_01', c)
        v = all_c[:, 1] - all_c[:, 0]
        for axis in range(3):
            for p in range(2):
                expect(rq.near(h.face_centre(c, axis, p), all_c[axis, p]), 'face_centre', c, axis, p)
            expect(rq.near(h.interface_vector(c, axis), v[axis]), 'interface_vector', c, axis)
            expect(rq.near(h.interface_length(c, axis), np.linalg.norm(v[axis])), 'interface_length', c, axis)
            expect(rq.near(h.interface_length(c, axis, required_uom = 'ft'), np.linalg.norm(v[axis]) / 0.3048),
                   'interface_length in feet', c, axis)
        expect(rq.near(h.interface_vectors_kji(c), v), 'interface_vectors_kji', c)
        expect(rq.near(h.interface_lengths_kji(c), np.linalg.norm(v, axis = -1)), 'interface_lengths_kji', c)
        expect(rq.near(h.interface_lengths_kji(c, required_uom = 'cm'), 100.0 * np.linalg.norm(v, axis = -1)),
               'interface_lengths_kji in cm', c)
        for kp, ref in enumerate(('top', 'base')):
            q = s.cp[c][kp]
            e = np.array((q[0, 0], q[0, 1], q[1, 1], q[1, 0]))
            expect(rq.near(h.poly_line_for_cell(c, vertical_ref = ref), e), 'poly_line_for_cell', c, ref)


def r_boxes(g, s, new):
    flat = s.cp.reshape((-1, 3))
    box = np.array((flat.min(axis = 0), flat.max(axis = 0)))
    ends = np.array([s.cp[-kp, -jp, -ip, kp, jp, ip] for kp in range(2) for jp in range(2) for ip in range(2)])
    lazy = np.array((ends.min(axis = 0), ends.max(axis = 0)))
    h = new()
    expect(rq.near(h.xyz_box(lazy = True, local = True), lazy), 'lazy xyz_box', h.xyz_box(lazy = True, local = True), lazy)
    expect(rq.near(h.xyz_box(lazy = False, local = True), box), 'thorough xyz_box')
    expect(rq.near(h.xyz_box(lazy = True, local = True), box), 'xyz_box after thorough one')
    expect(rq.near(new().xyz_box(lazy = False, local = True), box), 'thorough xyz_box')
    expect(rq.near(new().xyz_box_centre(local = True), box.mean(axis = 0)), 'xyz_box_centre')
    boxes = []
    for c in cells(s):
        q = s.cp[c].reshape((-1, 3))
        b = np.array((q.min(axis = 0), q.max(axis = 0)))
        boxes.append(b)
        expect(rq.near(g.bounding_box(c), b), 'bounding_box', c)
    given = [b.copy() for b in boxes]
    expect(rq.near(g.composite_bounding_box(given), box), 'composite_bounding_box')
    expect(all(rq.same(a, b) for a, b in zip(given, boxes)), 'composite_bounding_box changed the boxes it was given')


def r_topology(g, s, new):
    expect(bool(g.has_split_coordinate_lines) == s.split(), 'has_split_coordinate_lines', g.has_split_coordinate_lines)
    expect(tuple(g.extent_kji) == s.shape and (g.nk, g.nj, g.ni) == s.shape, 'extent', g.extent_kji)
    expect(g.nk_plus_k_gaps == s.nn - 1, 'nk_plus_k_gaps', g.nk_plus_k_gaps)
    gaps, after, raw = g.extract_k_gaps()
    expect((gaps or 0) == sum(s.gaps), 'number of k gaps', gaps)
    expect(list(raw) == s.raw, 'raw layer indices', raw)
    if gaps:
        expect([bool(b) for b in after] == list(s.gaps), 'gap after layer', after)

    def col_split(c, d, ends):
        """Whether columns c and d have a separate coordinate line at either of the shared pillars."""
        return any(s.group_of(p[0], p[1], c) != s.group_of(p[0], p[1], d) for p in ends)

    ej = np.zeros((s.nj - 1, s.ni), dtype = bool)
    ei = np.zeros((s.nj, s.ni - 1), dtype = bool)
    for j in range(s.nj - 1):
        for i in range(s.ni):
            ej[j, i] = col_split((j, i), (j + 1, i), ((j + 1, i), (j + 1, i + 1)))
            expect(bool(g.is_split_column_face(j, i, 1, 1)) == ej[j, i], 'is_split_column_face J+', j, i)
            expect(bool(g.is_split_column_face(j + 1, i, 1, 0)) == ej[j, i], 'is_split_column_face J-', j + 1, i)
    for j in range(s.nj):
        for i in range(s.ni - 1):
            ei[j, i] = col_split((j, i), (j, i + 1), ((j, i + 1), (j + 1, i + 1)))
            expect(bool(g.is_split_column_face(j, i, 2, 1)) == ei[j, i], 'is_split_column_face I+', j, i)
            expect(bool(g.is_split_column_face(j, i + 1, 2, 0)) == ei[j, i], 'is_split_column_face I-', j, i + 1)
    for j in range(s.nj):
        for pol, i in ((0, 0), (1, s.ni - 1)):
            expect(not g.is_split_column_face(j, i, 2, pol), 'is_split_column_face at the edge', j, i, pol)
    for i in range(s.ni):
        for pol, j in ((0, 0), (1, s.nj - 1)):
            expect(not g.is_split_column_face(j, i, 1, pol), 'is_split_column_face at the edge', j, i, pol)
    got = g.split_column_faces()
    if not s.split():
        expect(got is None or not any(np.any(a) for a in got), 'split_column_faces', got)
    else:
        expect(all((e.size == 0) if a is None else rq.same(np.asarray(a, dtype = bool), e) for a, e in zip(got, (ej, ei))),
               'split_column_faces', [np.asarray(a).tolist() for a in got], ej.tolist(), ei.tolist())
    f = new()
    res = f.find_faults()
    if not s.split():
        expect(res is None and not f.fault_dict, 'find_faults on an unsplit grid', res)
        return
    fj, fi = res
    expect(rq.same(fj != 0, ej) and rq.same(fi != 0, ei), 'faces of the faults', fj.tolist(), fi.tolist(), ej.tolist(), ei.tolist())
    jj = [tuple(x) for a, _ in f.fault_dict.values() for x in np.asarray(a).tolist()]
    ii = [tuple(x) for _, a in f.fault_dict.values() for x in np.asarray(a).tolist()]
    expect(sorted(jj) == [tuple(x) for x in np.argwhere(ej).tolist()], 'J faces in the fault dictionary', jj)
    expect(sorted(ii) == [tuple(x) for x in np.argwhere(ei).tolist()], 'I faces in the fault dictionary', ii)
    for fid, (a, b) in f.fault_dict.items():
        expect(all(fj[tuple(x)] == fid for x in a) and all(fi[tuple(x)] == fid for x in b), 'fault dictionary and fault ids', fid)


ROUTES = [r_corner_points, r_corner_points_cell, r_point, r_point_raw, r_pillars, r_horizons, r_unsplit, r_sections, r_lines,
          r_centres, r_interpolate, r_faces, r_boxes, r_topology]


def ask(ctx, where, new, s, routes = None):
    ctx.state((where, s.shape, s.gaps, sorted(s.groups.items()), s.up, s.flip_i, s.lean))
    for r in ROUTES if routes is None else routes:
        with about(f'{where}, {r.__name__[2:]}'):
            r(new(), s, new)
        ctx.step()


def run_spec(ctx, mk, how = ('arrays', 'cp'), stores = (False,), light = False):
    """Builds the grid in every way and asks everything, in session and re-read."""
    import resqpy.grid as grr
    spec = mk()
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    made = []
    for h in how:
        for par in stores:
            if h == 'cp' and spec.warp and not same_partition(spec):
                continue
            g = ijk.build(m, crs, spec, title = h + str(int(par)), how = h)
            if h == 'arrays' and not par:
                ask(ctx, 'before writing', lambda: ijk.build(m, crs, spec, how = 'arrays'), spec,
                    [r for r in ROUTES if r is not r_point_raw] if light is False else [r_corner_points])
            ijk.store(g, parametric = par)
            expect(rq.near(g.corner_points(), spec.cp), h, 'corner points in the session after writing')
            made.append((h, par, g.uuid))
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    for h, par, u in made:
        ref = as_read(spec, grr.Grid(m, uuid = u)) if h == 'cp' else spec
        ask(ctx, f'{h}{" parametric" if par else ""} re-read', lambda: grr.Grid(m, uuid = u), ref)
    rq.close(m)
    ctx.outcome('split' if spec.split() else 'unsplit')


def same_partition(s):
    return True


class as_read:
    """The description with coordinate lines in the order in which corner point import chose to store them."""

    def __init__(self, s, g):
        self.s = s
        pfc = g.create_column_pillar_mapping()
        self.line_points = None
        n_lines = int(pfc.max()) + 1
        pts = np.full((s.nn, max(n_lines, (s.nj + 1) * (s.ni + 1)), 3), np.nan)
        for j in range(s.nj):
            for i in range(s.ni):
                for jp in range(2):
                    for ip in range(2):
                        p = pfc[j, i, jp, ip]
                        old = pts[:, p]
                        if not np.isnan(old).any():
                            expect(rq.near(old, s.nodes[:, j, i, jp, ip]), 'one coordinate line for two places', j, i, jp, ip)
                        pts[:, p] = s.nodes[:, j, i, jp, ip]
        self.pts = pts if s.split() else pts.reshape((s.nn, s.nj + 1, s.ni + 1, 3))

    def __getattr__(self, name):
        return getattr(self.s, name)

    def points(self):
        return self.pts


# ------------------------------------------------------------------------------------------------- jobs

def splits(ctx, share, of, nj = 2, ni = 2, which = None, gaps = ((False,), (True,)), stores = (False, True)):
    for n, parts in enumerate(ijk.all_parts(nj, ni, which)):
        if n % of != share:
            continue
        for gp in gaps if n % 2 else gaps[::-1]:
            key = (n, ''.join('g' if b else '-' for b in gp))
            ctx.run(key, lambda: run_spec(ctx, lambda: ijk.Spec(2, nj, ni, parts = parts, gaps = gp),
                                          stores = stores if n % 4 == 0 else (False,), light = n % 3 != 0))
            if n % 2 and len(gaps) > 1:
                break


KINDS = {'unsplit': lambda nj, ni: {}, 'all apart': lambda nj, ni: {p: max(c, key = len) for p, c in ijk.pillar_choices(nj, ni).items()},
         'a line': lambda nj, ni: {(j, i): [[c for c in ijk.columns_around(nj, ni, j, i) if c[1] < ni - 1],
                                            [c for c in ijk.columns_around(nj, ni, j, i) if c[1] == ni - 1]]
                                   for j in range(nj + 1) for i in range(ni + 1) if i == ni - 1 and ni > 1}}


def gaps(ctx, share, of):
    n = 0
    for nk in (1, 2, 3, 4):
        for gp in itertools.product((False, True), repeat = nk - 1):
            for kind in KINDS:
                n += 1
                if n % of != share:
                    continue
                ctx.run((nk, ''.join('g' if b else '-' for b in gp), kind),
                        lambda: run_spec(ctx, lambda: ijk.Spec(nk, 1 + nk % 2, 2, parts = KINDS[kind](1 + nk % 2, 2), gaps = gp),
                                         stores = (False, True)))


def extents(ctx, share, of):
    n = 0
    for ext in itertools.product((1, 2, 3), repeat = 3):
        for kind in KINDS:
            for up, flip, lean in ((False, False, 0.01), (True, False, 0.02), (False, True, 0.0)):
                n += 1
                if n % of != share:
                    continue
                if kind != 'unsplit' and (up or flip) and sum(ext) % 2:
                    continue
                ctx.run((ext, kind, up, flip),
                        lambda: run_spec(ctx, lambda: ijk.Spec(*ext, parts = KINDS[kind](ext[1], ext[2]), up = up, flip_i = flip,
                                                               lean = lean), light = True))


# ------------------------------------------------------------------------------------------------- missing geometry

def cell_defined(s):
    return np.logical_not(np.isnan(s.cp).any(axis = (3, 4, 5, 6)))


def line_state(s):
    """{(pillar, line): set of raw nodes without a position}"""
    d = {}
    for p, g, n in s.holes:
        d.setdefault((p, g), set()).add(n)
    return d


def check_defined(g, s, where, inactive = None):
    cd = cell_defined(s)
    expect(bool(g.geometry_defined_for_all_cells()) == bool(cd.all()), where, 'geometry_defined_for_all_cells',
           g.geometry_defined_for_all_cells())
    ref = g.cell_geometry_is_defined_ref()
    expect(cd.all() if ref is None else rq.same(np.asarray(ref, dtype = bool), cd), where, 'cell_geometry_is_defined_ref', ref, cd)
    for c in cells(s):
        expect(bool(g.cell_geometry_is_defined(c)) == bool(cd[c]), where, 'cell_geometry_is_defined', c)
        if cd[c]:
            expect(rq.near(g.corner_points(c), s.cp[c]), where, 'corner_points', c, g.corner_points(c), s.cp[c])
        else:
            expect(g.point(c, corner_index = np.zeros(3, dtype = int)) is None, where, 'point of a cell without geometry', c)
    expect(g.cell_count(geometry_defined_only = True) == cd.sum(), where, 'number of cells with geometry')
    ina = np.logical_not(cd) if inactive is None else inactive
    expect(g.inactive is None and not ina.any() or rq.same(g.inactive, ina), where, 'inactive', g.inactive, ina)
    expect(g.cell_count(active_only = True) == ina.size - ina.sum(), where, 'number of active cells')
    gone = {p for (p, line), ns in line_state(s).items() if line == 0 and len(ns) == s.nn}
    extra_gone = any(line > 0 and len(ns) == s.nn for (p, line), ns in line_state(s).items())
    pref = g.pillar_geometry_is_defined_ref()
    pd = np.ones((s.nj + 1, s.ni + 1), dtype = bool)
    for p in gone:
        pd[p] = False
    if not extra_gone:
        expect(bool(g.geometry_defined_for_all_pillars()) == (not gone), where, 'geometry_defined_for_all_pillars')
    expect(not gone if pref is None else rq.same(np.asarray(pref, dtype = bool), pd), where, 'pillar_geometry_is_defined_ref', pref)
    for p in itertools.product(range(s.nj + 1), range(s.ni + 1)):
        expect(bool(g.pillar_geometry_is_defined(p)) == (p not in gone), where, 'pillar_geometry_is_defined', p)


def check_uncached(new, s, where):
    cd = cell_defined(s)
    gone = {p for (p, line), ns in line_state(s).items() if line == 0 and len(ns) == s.nn}
    h = new()
    for c in cells(s):
        expect(bool(h.cell_geometry_is_defined(c, cache_array = False)) == bool(cd[c]), where, 'uncached cell_geometry_is_defined', c)
    h = new()
    expect(bool(h.geometry_defined_for_all_cells(cache_array = False)) == bool(cd.all()), where, 'uncached all cells')
    h = new()
    for p in itertools.product(range(s.nj + 1), range(s.ni + 1)):
        expect(bool(h.pillar_geometry_is_defined(p, cache_array = False)) == (p not in gone), where, 'uncached pillar', p)
    h = new()
    expect(bool(h.geometry_defined_for_all_pillars(cache_array = False)) == (not gone), where, 'uncached all pillars')
    pts = s.points()
    for cache in (True, False):
        h = new()
        for index in itertools.product(*[range(n) for n in pts.shape[:-1]]):
            if np.isnan(pts[index]).any():
                continue
            if len(index) == 2 and index[1] >= (s.nj + 1) * (s.ni + 1):
                continue
            got = h.point_raw(index = index, cache_array = cache)
            expect(got is not None and rq.near(got, pts[index]), where, 'point_raw', index, cache, got)
    h = new()
    for c in cells(s):
        if cd[c]:
            got = h.corner_points(c, cache_resqml_array = False)
            expect(got is not None and rq.near(got, s.cp[c]), where, 'uncached corner_points', c, got)


def run_holes(ctx, kind, gp, holes, base):
    import resqpy.grid as grr
    nk, nj, ni = base
    mk = lambda hs: ijk.Spec(nk, nj, ni, parts = KINDS[kind](nj, ni), gaps = gp, holes = hs)
    s = mk(holes)
    if not cell_defined(s).any():
        return
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    made = []
    partial = {(k, ns) for k, ns in ((k, tuple(sorted(v))) for k, v in line_state(s).items()) if len(ns) < s.nn}
    for how in ('plain', 'value', 'nullify', 'complete'):
        e = s
        g = ijk.build(m, crs, s, title = how, define = False)
        before = None
        with about(how):
            if how == 'plain':
                g.set_geometry_is_defined()
            elif how == 'value':
                g.points_cached[np.isnan(g.points_cached[..., 0]), 1] = -999.25
                g.points_cached[np.isnan(g.points_cached)] = 17.0
                g.inactive = np.zeros(s.shape, dtype = bool)
                g.inactive[0, 0, 0] = True
                before = g.inactive.copy()
                g.set_geometry_is_defined(treat_as_nan = -999.25)
            elif how == 'nullify':
                g.set_geometry_is_defined(nullify_partial_pillars = True)
                e = mk(set(holes) | {(p, line, n) for (p, line), _ in partial for n in range(s.nn)})
            else:
                g.set_geometry_is_defined(complete_partial_pillars = True)
                e = mk({h for h in holes if not any(h[:2] == k for k, _ in partial)})
            ina = np.logical_not(cell_defined(s) if how == 'complete' else cell_defined(e))
            if before is not None:
                ina = np.logical_or(ina, before)
            ctx.state((how, kind, gp, sorted(holes), 'session'))
            if how == 'complete' and partial:
                infilled(g, s, partial)
                e = FilledSpec(e, g)
            expect(np.array_equal(np.isnan(g.points_ref(masked = False)), np.isnan(e.points())), 'points without a position')
            check_defined(g, e, 'in session', inactive = ina)
            ijk.store(g)
        made.append((how, e, ina, g.uuid))
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    for how, e, ina, u in made:
        with about(how + ' re-read'):
            ctx.state((how, kind, gp, sorted(holes), 're-read'))
            check_defined(grr.Grid(m, uuid = u), e, 're-read', inactive = ina)
            check_uncached(lambda: grr.Grid(m, uuid = u), e, 're-read')
    rq.close(m)
    ctx.outcome(f'{(~cell_defined(s)).sum()} cells undefined')


def infilled(g, s, partial):
    """Missing nodes of partly defined lines: between two known ones on the straight line joining them, beyond the ends the
    same as the nearest known node."""
    p = g.points_ref(masked = False).reshape((s.nn, -1, 3))
    lines = [((j, i), 0) for j in range(s.nj + 1) for i in range(s.ni + 1)] + [(q, line) for q, line, _ in s.extras()]
    for (key, ns) in partial:
        x = lines.index(key)
        good = [n for n in range(s.nn) if n not in ns]
        for n in ns:
            lo, hi = max([m for m in good if m < n], default = None), min([m for m in good if m > n], default = None)
            at = lambda q: s.node(q, key[0][0], key[0][1], key[1])
            if lo is None:
                e = at(hi)
            elif hi is None:
                e = at(lo)
            else:
                e = at(lo) + (at(hi) - at(lo)) * (n - lo) / (hi - lo)
            expect(rq.near(p[n, x], e), 'infilled node', key, n, p[n, x], e)


class FilledSpec:
    """The description with the nodes of the grid object (whose infilled nodes have been checked)."""

    def __init__(self, s, g):
        self.s, self.p = s, g.points_ref(masked = False).copy()
        lines = [((j, i), 0) for j in range(s.nj + 1) for i in range(s.ni + 1)] + [(q, line) for q, line, _ in s.extras()]
        flat = self.p.reshape((s.nn, -1, 3))
        self.nodes = s.nodes.copy()
        for j, i, jp, ip in itertools.product(range(s.nj), range(s.ni), range(2), range(2)):
            self.nodes[:, j, i, jp, ip] = flat[:, lines.index(((j + jp, i + ip), s.group_of(j + jp, i + ip, (j, i))))]
        self.cp = s.cp.copy()
        for k in range(s.nk):
            for kp in range(2):
                self.cp[k, :, :, kp] = self.nodes[s.raw[k] + kp]

    def __getattr__(self, name):
        return getattr(self.s, name)

    def points(self):
        return self.p


def hole_sets(s):
    lines = [((j, i), 0) for j in range(s.nj + 1) for i in range(s.ni + 1)] + [(q, line) for q, line, _ in s.extras()]
    runs = [(a, b) for a in range(s.nn) for b in range(a + 1, s.nn + 1)]
    for k in lines:
        for a, b in runs:
            yield tuple((k[0], k[1], n) for n in range(a, b))
    for k1, k2 in itertools.combinations(lines, 2):
        yield tuple((k[0], k[1], n) for k in (k1, k2) for n in range(s.nn))
    for k1, k2 in itertools.combinations(lines[::2], 2):
        yield tuple((k1[0], k1[1], n) for n in range(s.nn)) + ((k2[0], k2[1], s.nn - 1),)


def holes(ctx, share, of):
    n = 0
    for kind in KINDS:
        for base, gp in (((2, 2, 2), (False,)), ((2, 2, 2), (True,)), ((2, 1, 3), (False,))):
            s = ijk.Spec(*base, parts = KINDS[kind](base[1], base[2]), gaps = gp)
            for hs in hole_sets(s):
                n += 1
                if n % of != share:
                    continue
                ctx.run((kind, base, gp, hs), lambda: run_holes(ctx, kind, gp, hs, base))


def point_cells(s, tol = 0.001):
    d = s.cp
    small = lambda v: np.logical_not((np.abs(v) > tol).any(axis = -1))
    e = small(d[:, :, :, :, 1] - d[:, :, :, :, 0]).all(axis = (3, 4)) & small(d[:, :, :, :, :, 1] - d[:, :, :, :, :, 0]).all(
        axis = (3, 4))
    return e


def run_dots(ctx, kind, base, gp, dots):
    nk, nj, ni = base
    mk = lambda holes: ijk.Spec(nk, nj, ni, parts = KINDS[kind](nj, ni), gaps = gp, dots = dots, holes = holes)
    s = mk(())
    m = rq.new_model(ctx.path('g.epc'), h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    g = ijk.build(m, crs, s)
    dot = point_cells(s)
    expect(rq.same(np.asarray(g.point_areally(), dtype = bool), dot), 'point_areally', g.point_areally().tolist(), dot.tolist())
    gone = set()
    for k, j, i in np.argwhere(dot):
        for kp, jp, ip in itertools.product(range(2), repeat = 3):
            gone.add(((j + jp, i + ip), s.group_of(j + jp, i + ip, (j, i)), s.raw[k] + kp))
    e = mk(gone)
    if not cell_defined(e).any():
        return
    h = ijk.build(m, crs, s, title = 'dots')
    h.inactive = dot.copy()
    h.set_geometry_is_defined(treat_dots_as_nan = True)
    check_defined(h, e, 'areal dots', inactive = dot | ~cell_defined(e))
    expect(np.array_equal(np.isnan(h.points_ref(masked = False)), np.isnan(e.points())), 'points without a position')
    ctx.state((kind, base, gp, sorted(dots)))
    ctx.outcome(f'{dot.sum()} dots')


def dots(ctx):
    for kind in KINDS:
        for base, gp in (((3, 2, 2), (False, False)), ((3, 2, 3), (True, False)), ((2, 3, 3), (True,)), ((1, 2, 2), ())):
            nn = base[0] + 1 + sum(gp)
            cols = list(itertools.product(range(base[1]), range(base[2])))
            runs = [(a, b) for a in range(nn) for b in range(a + 1, nn + 1)]
            for cs in [(c,) for c in cols] + list(itertools.combinations(cols[::2], 2)):
                for a, b in runs:
                    ds = [(c, n) for c in cs for n in range(a, b)]
                    ctx.run((kind, base, gp, cs, a, b), lambda: run_dots(ctx, kind, base, gp, ds))


def run_fill(ctx, base, gp, gone, planar):
    s = ijk.Spec(*base, gaps = gp, holes = [(p, 0, n) for p in gone for n in range(base[0] + 1 + sum(gp))],
                 warp = 0.0 if planar else 1.0, lean = 0.0 if planar else 0.01)
    full = ijk.Spec(*base, gaps = gp, warp = s.warp, lean = s.lean)
    if not cell_defined(s).any():
        return
    m = rq.new_model(ctx.path('g.epc'), h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    g = ijk.build(m, crs, s, define = False)
    g.set_geometry_is_defined(complete_all = True)
    p = g.points_ref(masked = False)
    e = full.points()
    expect(not np.isnan(p).any(), 'points without a position after completing all')
    for j in range(s.nj + 1):
        for i in range(s.ni + 1):
            if (j, i) not in gone:
                expect(rq.same(p[:, j, i], e[:, j, i]), 'a pillar with geometry was moved', j, i, p[:, j, i], e[:, j, i])
    expect(g.geometry_defined_for_all_cells() and g.geometry_defined_for_all_pillars(), 'geometry defined after completing all')
    expect(rq.same(g.inactive, ~cell_defined(s)), 'inactive cells after completing all', g.inactive)
    if planar:
        rows = {p[0] for p in gone}
        cols = {p[1] for p in gone}
        line = len(gone) == s.ni + 1 and len(rows) == 1 and rows <= {0, s.nj} and s.nj > 1
        line = line or (len(gone) == s.nj + 1 and len(cols) == 1 and cols <= {0, s.ni} and s.ni > 1)
        inside = len(gone) == 1 and all(0 < p[0] < s.nj and 0 < p[1] < s.ni for p in gone)
        for q in gone:
            if line:
                expect(rq.near(p[:, q[0], q[1], :2], e[:, q[0], q[1], :2]), 'an outer line of pillars is not a continuation', q,
                       p[:, q[0], q[1]].tolist(), e[:, q[0], q[1]].tolist())
            if inside:
                expect(rq.near(p[:, q[0], q[1]], e[:, q[0], q[1]]), 'a single hole is not filled by interpolation', q)
    ctx.state((base, gp, sorted(gone), planar))


def fill(ctx, share, of):
    n = 0
    for base, gp in (((1, 3, 3), ()), ((2, 2, 4), (True,)), ((1, 2, 2), ()), ((2, 1, 3), (False,))):
        ps = list(itertools.product(range(base[1] + 1), range(base[2] + 1)))
        sets = [(p,) for p in ps] + list(itertools.combinations(ps, 2)) + list(itertools.combinations(ps[::2], 3))
        sets += [tuple((j, i) for i in range(base[2] + 1)) for j in range(base[1] + 1)]
        sets += [tuple((j, i) for j in range(base[1] + 1)) for i in range(base[2] + 1)]
        for gone in sets:
            for planar in (False, True):
                n += 1
                if n % of != share:
                    continue
                ctx.run((base, gp, gone, planar), lambda: run_fill(ctx, base, gp, set(gone), planar))


def jobs(tier):
    js = []
    n = 8
    js += [(f'split pillars {k}', splits, dict(share = k, of = n)) for k in range(n)]
    js += [(f'interior pillars {k}', splits, dict(share = k, of = 4, ni = 3, which = ((1, 1), (1, 2)), gaps = ((False,),)))
           for k in range(4)]
    js += [(f'gaps {k}', gaps, dict(share = k, of = 3)) for k in range(3)]
    js += [(f'extents {k}', extents, dict(share = k, of = 8)) for k in range(8)]
    js += [(f'missing geometry {k}', holes, dict(share = k, of = 8)) for k in range(8)]
    js += [('areal dots', dots, {})] + [(f'completing {k}', fill, dict(share = k, of = 2)) for k in range(2)]
    if tier == 'thorough':
        js += [(f'all pillars {k}', splits, dict(share = k, of = 32, ni = 3, gaps = ((True,),), stores = (False,)))
               for k in range(32)]
    return js
