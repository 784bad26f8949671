"""C16: importing corner points makes a grid whose active cells have exactly those corner points.

Every active mask of a 2x2x2 grid x faulted or not x what the inactive cells contain (ordinary values, zeros, not-a-number)
x every treatment of inactive geometry; voids and discrepancies of every size around the tolerances; handedness found
automatically; the oracle is the array that was given."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect
from mc.props.c15 import KINDS

ID = 'C16'
TITLE = 'corner point import'
BOUNDS = {
    'quick': 'all 255 active masks of a 2x2x2 grid x 3 fault kinds x 2 gap patterns x 3 contents of inactive cells x 5 treatments; '
             'all void patterns of 3 interfaces x 5 sizes; all sizes of discrepancy at every pillar; handedness of 16 kinds of grid',
    'thorough': 'all masks of a 2x2x3 grid'
}


def warm(tier):
    import resqpy.grid, resqpy.rq_import, resqpy.model, resqpy.crs, resqpy.property  # noqa


def cells(shape):
    return itertools.product(*[range(n) for n in shape])


def reread(ctx, m, path, g):
    import resqpy.grid as grr
    g.write_hdf5()
    g.create_xml()
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    return m, grr.Grid(m, uuid = g.uuid)


def run_mask(ctx, spec, active, content, treat, tag):
    import resqpy.rq_import as rqi
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    cp = spec.cp.copy()
    if content == 'zero':
        cp[~active] = 0.0
    elif content == 'nan':
        cp[~active] = np.nan
    elif content == 'dot':
        cp[~active] = cp[~active][:, :1, :1, :1]
    elif content == 'column':  # no area but some height
        cp[~active] = cp[~active][:, :, :1, :1]
    given = cp.copy()
    kw = {}
    large = treat is not None and treat.endswith('*')  # all the cells are small compared with the tolerances
    if large:
        treat = treat[:-1]
        kw = dict(dot_tolerance = 1.0e4, morse_tolerance = 1.0e4)
    g = rqi.grid_from_cp(m, cp, crs.uuid, active_mask = None if active.all() and content == 'plain' else active.copy(),
                         treat_as_nan = treat, ijk_handedness = 'right' if spec.right_handed(crs) else 'left', **kw)
    g.title = 'from corner points'
    undefined = ~active if (content == 'nan' or treat == 'inactive') else None
    if treat in ('dots', 'ij_dots', 'morse') and (content in ('zero', 'dot') or large):
        undefined = ~active
    if content == 'nan' and treat is None:
        undefined = None

    def check(h, where):
        for c in cells(spec.shape):
            if active[c]:
                got = h.corner_points(c)
                expect(got is not None and rq.near(got, given[c]), where, 'corner points of active cell', c,
                       None if got is None else got.tolist(), 'given', given[c].tolist())
                expect(bool(h.cell_geometry_is_defined(c)), where, 'active cell without geometry', c)
            expect(h.inactive is None and active.all() or bool(h.inactive[c]) == (not active[c]), where, 'active state of', c)
            if undefined is not None and undefined[c]:
                expect(not h.cell_geometry_is_defined(c), where, 'geometry should not be defined for', c)
        if content == 'plain' and treat in (None, 'none'):
            expect(bool(h.geometry_defined_for_all_cells()), where, 'geometry should be defined for all cells')
            expect(rq.near(h.corner_points(), given), where, 'corner points of all cells')

    with about(tag):
        check(g, 'in session')
        g.invalidate_corner_points()
        check(g, 'in session, rebuilt')
        m, h = reread(ctx, m, path, g)
        check(h, 're-read')
        for c in cells(spec.shape):
            if active[c]:
                for corner in cells((2, 2, 2)):
                    expect(rq.near(h.point(c, np.array(corner)), given[c + corner]), 'point of active cell', c, corner)
    rq.close(m)
    ctx.state((tag, active.tobytes()))
    ctx.step()
    ctx.outcome((content, treat, int(g.k_gaps or 0), bool(g.has_split_coordinate_lines)))


CONTENTS = [('plain', None), ('plain', 'none'), ('plain', 'inactive'), ('zero', None), ('zero', 'dots'), ('zero', 'ij_dots'),
            ('zero', 'morse'), ('zero', 'inactive'), ('nan', 'inactive'), ('nan', 'dots'), ('dot', 'dots'), ('column', 'ij_dots'),
            ('column', 'dots'), ('plain', 'dots'), ('plain', 'morse'), ('plain', 'dots*'), ('plain', 'ij_dots*'), ('column', 'morse*')]


def masks(ctx, share, of, base = (2, 2, 2)):
    n = 0
    size = int(np.prod(base))
    specs = {(kind, gp): ijk.Spec(*base, parts = KINDS[kind](base[1], base[2]), gaps = gp)
             for kind in KINDS for gp in ((False,), (True,))}
    for bits in range(1, 2**size):
        if bits % of != share:
            continue
        active = np.array([(bits >> b) & 1 for b in range(size)], dtype = bool).reshape(base)
        for (kind, gp), spec in specs.items():
            n += 1
            some = [CONTENTS[(n * 5 + share + x) % len(CONTENTS)] for x in range(5)]
            for content, treat in some:
                ctx.run((bits, kind, gp, content, treat),
                        lambda: run_mask(ctx, spec, active, content, treat, f'{kind} {content} treated as {treat}'))


def run_void(ctx, voids, kind, limit):
    import resqpy.rq_import as rqi
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    nk = len(voids) + 1
    s = ijk.Spec(nk, 2, 2, parts = KINDS[kind](2, 2), lean = 0.0)
    cp = s.cp.copy()
    shift = 0.0
    expected = s.cp.copy()
    eshift = 0.0
    for k, v in enumerate(voids):
        shift += v
        cp[k + 1, ..., 2] += shift
        expected[k + 1, ..., 2] += shift
    for k, v in enumerate(voids):
        if v <= limit:  # closed half way
            expected[k, :, :, 1, :, :, 2] += 0.5 * v
            expected[k + 1, :, :, 0, :, :, 2] -= 0.5 * v
    del eshift
    kw = {} if limit == 0.1 else {'max_z_void': limit}
    g = rqi.grid_from_cp(m, cp, crs.uuid, ijk_handedness = 'right' if s.right_handed(crs) else 'left', **kw)
    g.title = 'voids'
    want = [v > limit for v in voids]
    m, h = reread(ctx, m, path, g)
    expect((h.k_gaps or 0) == sum(want), 'number of k gaps', h.k_gaps, 'for voids', voids)
    if any(want):
        expect([bool(b) for b in h.k_gap_after_array] == want, 'gaps after layers', h.k_gap_after_array, want)
    expect(rq.near(h.corner_points(), expected), 'corner points', (h.corner_points() - expected)[..., 2].tolist())
    for c in cells(s.shape):
        expect(rq.near(g.corner_points(c), expected[c]), 'corner points in session', c)
    rq.close(m)
    ctx.state((voids, kind, limit))


def voids(ctx):
    for n in (1, 2, 3):
        for vs in itertools.product((0.0, 0.05, 0.3) if n == 3 else (0.0, 0.05, 0.099, 0.3, 2.0), repeat = n):
            for kind in KINDS:
                for limit in (0.1, 0.5) if n < 3 else (0.1,):
                    ctx.run((vs, kind, limit), lambda: run_void(ctx, vs, kind, limit))


def run_tolerance(ctx, base, col, corner, axis, size, tol):
    """One corner of one column moved by a distance: shared when within tolerance, split when beyond it."""
    import resqpy.rq_import as rqi
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True)
    s = ijk.Spec(*base)
    cp = s.cp.copy()
    cp[:, col[0], col[1], :, corner[0], corner[1], axis] += size
    kw = {} if tol == 0.01 else {'split_tolerance': tol}
    given = cp.copy()
    g = rqi.grid_from_cp(m, cp, crs.uuid, ijk_handedness = 'left', **kw)
    g.title = 'tolerance'
    m, h = reread(ctx, m, path, g)
    p = (col[0] + corner[0], col[1] + corner[1])
    alone = len(ijk.columns_around(base[1], base[2], *p)) == 1
    expect(bool(h.has_split_coordinate_lines) == (abs(size) > tol and not alone), 'split coordinate lines',
           h.has_split_coordinate_lines, p, size, tol)
    got = h.corner_points()
    if abs(size) > tol or alone:
        expect(rq.near(got, given), 'corner points', p)
        four = h.pillar_foursome(p)
        expect(len(np.unique(four)) == (1 if alone else 2), 'number of lines at the pillar', four)
    else:
        expect(np.abs(got - given).max() <= tol * 1.001, 'corner points moved by more than the tolerance', np.abs(got - given).max())
    rq.close(m)
    ctx.state((base, col, corner, axis, size, tol))


def tolerance(ctx):
    for base in ((1, 2, 2), (2, 3, 2)):
        for col in itertools.product(range(base[1]), range(base[2])):
            for corner in itertools.product(range(2), repeat = 2):
                for axis in range(3):
                    for size in (0.004, -0.009, 0.02, -5.0):
                        for tol in (0.01, 0.005):
                            if base[1] == 3 and (axis != 2 or tol != 0.01):
                                continue
                            ctx.run((base, col, corner, axis, size, tol),
                                    lambda: run_tolerance(ctx, base, col, corner, axis, size, tol))


def run_options(ctx, up, flip, zdown, ax, how):
    import resqpy.rq_import as rqi
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = zdown, axis_order = ax)
    s = ijk.Spec(2, 2, 2, parts = KINDS[how](2, 2), up = up, flip_i = flip)
    g = rqi.grid_from_cp(m, s.cp.copy(), crs.uuid, ijk_handedness = 'auto')
    expect(bool(g.grid_is_right_handed) == s.right_handed(crs), 'handedness found', g.grid_is_right_handed, 'up', up, 'flip', flip,
           'z down', zdown, ax)
    g.title = 'handed'
    m, h = reread(ctx, m, path, g)
    expect(ax != 'easting northing' or all(h.volume(c) > 0.0 for c in cells((2, 2, 2))), 'volumes')
    for hand in ('left', 'right'):
        g = rqi.grid_from_cp(m, s.cp.copy(), crs.uuid, ijk_handedness = hand, known_to_be_straight = True)
        expect(bool(g.grid_is_right_handed) == (hand == 'right'), 'handedness given', hand, g.grid_is_right_handed)
        expect(g.pillar_shape == 'straight', 'pillar shape', g.pillar_shape)
    g = rqi.grid_from_cp(m, s.cp.copy(), crs.uuid, split_pillars = False)
    expect(not g.has_split_coordinate_lines and g.points_cached.ndim == 4, 'unsplit on request')
    p = g.points_cached
    for j in range(3):
        for i in range(3):
            cands = [s.nodes[:, a, b, j - a, i - b] for a, b in ijk.columns_around(2, 2, j, i)]
            expect(any(rq.near(p[:, j, i], c) for c in cands), 'pillar of unsplit grid is at none of the places given', j, i)
    ctx.state((up, flip, zdown, ax, how))


def options(ctx):
    for up, flip, zdown in itertools.product((False, True), repeat = 3):
        for ax in ('easting northing', 'northing easting'):
            for how in KINDS:
                ctx.run((up, flip, zdown, ax, how), lambda: run_options(ctx, up, flip, zdown, ax, how))


def jobs(tier):
    js = [(f'active masks {k}', masks, dict(share = k, of = 8)) for k in range(8)]
    js += [('voids', voids, {}), ('split tolerance', tolerance, {}), ('options', options, {})]
    if tier == 'thorough':
        js += [(f'active masks of 12 cells {k}', masks, dict(share = k, of = 32, base = (2, 2, 3))) for k in range(32)]
    return js
