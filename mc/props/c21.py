"""C21: a blocked well holds the cells which its path passes through, in order, with where it enters and leaves each.

Every path of two straight sections between the points of a lattice is blocked against grids with faults, layers pinched
out, k gaps, either direction of z and either hand, and compared with the clipping of the path against each cell, which
are all convex with plane faces.  Paths which come close to an edge of a cell, where the answer would hang on tolerances,
are left out.  The numbers in the data frame of a blocked well are compared with arithmetic, and well specification files
which are written and read again give the same wells."""

import collections
import itertools
import os

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C21'
TITLE = 'A blocked well holds the cells its path crosses, with entry and exit points'
BOUNDS = dict(quick = '13 grids of 3x2x2 cells, all paths of 2 sections from 3 heads by way of 27 points to 27 points',
              thorough = '13 grids of 3x2x2 cells, all paths of 2 sections from 9 heads by way of 64 points to 64 points')


class Plane(ijk.Spec):
    """Grid of cells with plane faces: the top dips, columns are thrown down as a whole."""

    def __init__(self, nk = 3, nj = 2, ni = 2, throws = None, dip = (0.037, 0.02), thick = None, **kw):
        self.throws = np.zeros((nj, ni)) if throws is None else np.array(throws, dtype = float)
        self.dip = dip
        self.thick = [2.0 * ijk.LAYER[k % 4] for k in range(nk)] if thick is None else thick
        parts = {}
        for j in range(nj + 1):
            for i in range(ni + 1):
                d = collections.OrderedDict()
                for c in ijk.columns_around(nj, ni, j, i):
                    d.setdefault(self.throws[c], []).append(c)
                if len(d) > 1:
                    parts[(j, i)] = list(d.values())
        super().__init__(nk, nj, ni, parts = parts, lean = 0.0, warp = 0.0, **kw)

    def node(self, n, j, i, g):
        cols = self.groups[(j, i)][g]
        z = 0.0
        for k, gap in self.intervals[:n]:
            if gap:
                z += 3.0
            elif not any((k,) + c in self.pinch for c in cols):
                z += self.thick[k]
        x, y = 10.0 * i, 20.0 * j
        z += self.dip[0] * y + self.dip[1] * x + self.throws[cols[0]]
        if self.flip_i:
            x = 20.0 - x
        return np.array((1000.0 + x, 2000.0 + y, -z - 1000.0 if self.up else z + 1000.0))


ALL = [(1, j, i) for j in range(2) for i in range(2)]
GRIDS = dict(plain = {}, fault = dict(throws = [[0, 2.2], [0, 2.2]]), wide = dict(throws = [[0, 20.0], [0, 20.0]]), gap = dict(gaps = (True, False)),
             pinch = dict(pinch = ALL), gapfault = dict(throws = [[0, 2.2], [0, 2.2]], gaps = (True, False)), jfault = dict(throws = [[0, 0], [-6.1, -6.1]]),
             steps = dict(throws = [[0, 2.2], [5.3, 8.6]]), up = dict(up = True, throws = [[0, 2.2], [0, 2.2]]), left = dict(flip_i = True, throws = [[0, 0], [3.3, 3.3]]),
             gaps = dict(gaps = (True, True), up = True), wedge = dict(pinch = [(1, 0, 0), (1, 1, 0)]), pinchfault = dict(throws = [[0, 5.2], [0, 5.2]], pinch = ALL))
XS, YS, ZS = (996.0, 1003.1, 1012.7, 1024.0), (1993.0, 2006.3, 2027.9, 2046.0), (1003.3, 1009.1, 1013.7, 1030.0)
LATTICE = dict(quick = dict(heads = ((996.0, 1993.0), (1012.7, 2006.3), (1003.1, 2027.9)), at = list(itertools.product(XS[:3], YS[1:], ZS[1:]))),
               thorough = dict(heads = list(itertools.product(XS[:3], YS[:3])), at = list(itertools.product(XS, YS, ZS))))


def half_spaces(cp):
    """[(outward normal, offset)] for faces K-, K+, J-, J+, I-, I+ of a cell; flat faces of a wedge are given as None."""
    c = cp.reshape((-1, 3)).mean(axis = 0)
    out = []
    for axis in range(3):
        for pol in range(2):
            f = np.take(cp, pol, axis = axis)
            n = np.cross(f[0, 1] - f[1, 0], f[1, 1] - f[0, 0])
            ln = np.linalg.norm(n)
            if ln < 1.0e-9:
                out.append(None)
                continue
            n /= ln
            if np.dot(n, f[0, 0] - c) < 0.0:
                n = -n
            out.append((n, np.dot(n, f.reshape((-1, 3)).mean(axis = 0))))
    return out


class Clipper:

    def __init__(self, spec):
        self.cells = [(c, half_spaces(spec.cp[c])) for c in np.ndindex(spec.shape) if c not in spec.pinch]

    def pieces(self, pts, eps = 0.0):
        """[start, end (both segment + fraction), cell, entry face, exit face, length], in order along the path."""
        res = []
        for cell, planes in self.cells:
            cur = None
            for s in range(len(pts) - 1):
                p, q = pts[s], pts[s + 1]
                lo, hi, fl, fh = 0.0, 1.0, None, None
                for f, plane in enumerate(planes):
                    if plane is None:
                        continue
                    n, d = plane
                    a, b = np.dot(n, p) - d - eps, np.dot(n, q) - d - eps
                    if a > 0.0 and b > 0.0:
                        lo, hi = 1.0, 0.0
                        break
                    if a > 0.0 and a / (a - b) > lo:
                        lo, fl = a / (a - b), f
                    elif b > 0.0 and a / (a - b) < hi:
                        hi, fh = a / (a - b), f
                if hi <= lo:
                    continue
                ln = (hi - lo) * np.linalg.norm(q - p)
                if cur is not None and cur[1] == s and lo == 0.0:
                    cur[1], cur[4], cur[5] = s + hi, fh, cur[5] + ln
                else:
                    if cur is not None:
                        res.append(cur)
                    cur = [s + lo, s + hi, cell, fl, fh, ln]
            if cur is not None:
                res.append(cur)
        return sorted(res, key = lambda x: (x[0], x[1]))

    def clear(self, pts, found):
        """Whether no edge of a cell is near the path."""
        if any(p[5] < 0.4 for p in found):
            return False
        want = sorted((p[2], p[3] is None, p[4] is None) for p in found)
        return all(sorted((p[2], p[3] is None, p[4] is None) for p in self.pieces(pts, e)) == want for e in (0.25, -0.25))


def mds_of(pts):
    return np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(pts, axis = 0), axis = 1)))) * 1.02


def new_path(m, datum, pts, title = 'w', mds = None, uom = 'm'):
    import pandas as pd
    from resqpy.well import Trajectory
    mds = mds_of(pts) if mds is None else mds
    return Trajectory(m, md_datum = datum, data_frame = pd.DataFrame(dict(MD = mds, X = pts[:, 0], Y = pts[:, 1], Z = pts[:, 2])), length_uom = uom, well_name = title), mds


def expected_arrays(exp, mds, ni, nj):
    """node mds, grid indices, cells, face pairs."""

    def md(t):
        s = min(int(t), len(mds) - 2)
        return mds[s] + (t - s) * (mds[s + 1] - mds[s])

    nodes, gi, faces = [md(exp[0][0])], [], []
    for p in exp:
        a, b = md(p[0]), md(p[1])
        if abs(a - nodes[-1]) > 0.01:
            nodes.append(a)
            gi.append(-1)
        nodes.append(b)
        gi.append(0)
        faces.append([(-1, -1) if f is None else divmod(f, 2) for f in p[3:5]])
    return np.array(nodes), np.array(gi), [p[2] for p in exp], np.array(faces)


def check_blocked(bw, g, exp, mds):
    nodes, gi, cells, faces = expected_arrays(exp, mds, g.ni, g.nj)
    expect(bw.node_count, 'no cells found by blocked well; should be', cells)
    got = [tuple(int(x) for x in c) for c in bw.cell_indices_kji0()]
    expect(got == cells, 'cells', got, 'should be', cells)
    expect(rq.same(bw.grid_indices, gi), 'grid indices', bw.grid_indices, 'should be', gi)
    expect(rq.near(bw.node_mds, nodes, 0.01), 'node measured depths', bw.node_mds, 'should be', nodes)
    expect(rq.same(bw.face_pair_indices, faces), 'face pairs', bw.face_pair_indices.tolist(), 'should be', faces.tolist())
    expect(bw.cell_count == len(cells) and bw.node_count == len(nodes) and bw.number_of_grids() == 1 and bw.single_grid().uuid == g.uuid, 'counts')
    expect(rq.same(bw.cell_indices, [(k * g.nj + j) * g.ni + i for k, j, i in cells]), 'natural cell indices', bw.cell_indices)


def check_queries(bw, g, exp, mds):
    nodes, gi, cells, faces = expected_arrays(exp, mds, g.ni, g.nj)
    at = [i for i in range(len(gi)) if gi[i] >= 0]
    expect(rq.same(bw.box(), [np.min(cells, axis = 0), np.max(cells, axis = 0)]), 'box', bw.box())
    expect([int(bw.interval_for_cell(c)) for c in range(len(cells))] == at, 'interval for cell')
    for c, n in enumerate(at):
        expect(rq.near(bw.entry_and_exit_mds(c), nodes[n:n + 2], 0.01), 'entry and exit of cell', c, bw.entry_and_exit_mds(c), 'should be', nodes[n:n + 2])
    cl, gl = bw.cell_indices_and_grid_list()
    expect([tuple(int(x) for x in c) for c in cl] == cells and all(x.uuid == g.uuid for x in gl), 'cells and grids', cl)
    expect([tuple(int(x) for x in c) for c in bw.cell_indices_for_grid_uuid(g.uuid)] == cells, 'cells for grid')
    imap = [at.index(n) if n in at else -1 for n in range(len(gi))]
    expect([int(x) for x in bw.map_cell_and_grid_indices()] == imap, 'map of intervals to cells', bw.map_cell_and_grid_indices(), imap)
    expect([int(x) for x in bw.compressed_grid_indices()] == [0] * len(cells), 'compressed grid indices')
    for n in range(len(gi)):
        for fr in (0.25, 0.5, 0.9):
            ci, f = bw.wb_cell_for_md(nodes[n] + fr * (nodes[n + 1] - nodes[n]))
            expect(ci == imap[n] and abs(f - fr) < 0.02, 'cell for measured depth', (ci, f), 'should be', (imap[n], fr))
    expect(bw.wb_cell_for_md(nodes[0] - 1.0) == (-1, 0.0) and bw.wb_cell_for_md(nodes[-1] + 1.0) == (-1, 1.0), 'measured depths beyond the blocked part')


def setting(path, spec, crs_kw = None):
    from resqpy.well import MdDatum
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = not spec.up)
    g = ijk.store(ijk.build(m, crs, spec))
    t_crs = crs if crs_kw is None else rq.add_crs(m, title = 'path', **crs_kw)
    datum = MdDatum(m, crs_uuid = t_crs.uuid, location = (0.0, 0.0, 0.0))
    datum.create_xml()
    return m, g, datum


def signed(spec, *pts):
    pts = np.array(pts, dtype = float)
    if spec.up:
        pts[:, 2] = -pts[:, 2]
    return pts


def do_paths(ctx, name, head, at):
    """Every path from the head by way of one of the points to another of them."""
    from resqpy.well import BlockedWell
    spec = Plane(**GRIDS[name])
    clip = Clipper(spec)
    every = LATTICE[ctx.tier]['at']
    for b in at:

        def case(b = b):
            path = ctx.path('b.epc')
            m, g, datum = setting(path, spec)
            seen = collections.Counter()
            kept = []
            for c in every:
                if c == b:
                    continue
                pts = signed(spec, head + (980.0,), b, c)
                exp = clip.pieces(pts)
                if not exp:
                    seen['misses the grid'] += 1
                    continue
                if not clip.clear(pts, exp):
                    seen['too near an edge'] += 1
                    continue
                t, mds = new_path(m, datum, pts)
                cp = t.control_points.copy()
                with about(('path', pts.tolist())):
                    bw = BlockedWell(m, grid = g, trajectory = t)
                    check_blocked(bw, g, exp, mds)
                    expect(rq.same(t.control_points, cp) and rq.near(cp, pts, 1e-9) and rq.near(t.measured_depths, mds, 1e-9), 'trajectory was changed by blocking')
                    check_queries(bw, g, exp, mds)
                ctx.step()
                seen['blocked'] += 1
                kept.append((t, bw, exp, mds, pts))
                ctx.state((name, pts.tolist()))
            if kept:  # store the one with most intervals
                t, bw, exp, mds, pts = max(kept, key = lambda x: x[1].node_count)
                with about(('path', pts.tolist())):
                    t.write_hdf5()
                    t.create_xml()
                    bw.write_hdf5()
                    bw.create_xml()
                    bw_uuid, t_uuid, g_uuid = bw.uuid, t.uuid, g.uuid
                    m.store_epc()
                    rq.close(m)
                    m = rq.open_model(path)
                    g2 = m.grid(uuid = g_uuid)
                    bw2 = BlockedWell(m, uuid = bw_uuid)
                    with about('after storing'):
                        check_blocked(bw2, g2, exp, mds)
                        check_queries(bw2, g2, exp, mds)
                        expect(str(bw2.trajectory.uuid) == str(t_uuid), 'trajectory of the stored well')
                        bw3 = BlockedWell(m, grid = g2, trajectory = bw2.trajectory)
                        check_blocked(bw3, g2, exp, mds)
                    # the same object is used for another well
                    o = min(kept, key = lambda x: (x[1].node_count - x[1].cell_count, x[1].node_count))
                with about(('computed again for path', o[4].tolist())):
                    bw.compute_from_trajectory(o[0], g)
                    check_blocked(bw, g, o[2], o[3])
                    check_queries(bw, g, o[2], o[3])
            for k in seen:
                ctx.outcome(k)
            rq.close(m)

        ctx.run(dict(grid = name, head = head, via = b), case)


CRSES = [dict(xy_units = 'ft', z_units = 'ft'), dict(xy_units = 'm', z_units = 'ft', z_inc_down = False), dict(z_inc_down = False),
         dict(x_offset = 900.0, y_offset = -350.0, z_offset = 12.5), dict(rotation = 30.0)]


def do_other_crs(ctx, name):
    """Paths held in another crs, and the quick way of blocking."""
    from resqpy.crs import Crs
    from resqpy.well import BlockedWell
    spec = Plane(**GRIDS[name])
    clip = Clipper(spec)
    every = [signed(spec, (1006.2, 2004.7, 975.0), b, c) for b, c in itertools.product(LATTICE['quick']['at'][::2], LATTICE['quick']['at'][::3]) if b != c]
    for n, kw in enumerate([None] + CRSES):

        def case(kw = kw):
            m, g, datum = setting(ctx.path('c.epc'), spec, kw)
            g_crs, t_crs = Crs(m, uuid = g.crs_uuid), Crs(m, uuid = datum.crs_uuid)
            for pts in every:
                exp = clip.pieces(pts)
                if not exp or not clip.clear(pts, exp):
                    continue
                p = pts.copy()
                if kw is not None:
                    t_crs.convert_array_from(g_crs, p)
                t, mds = new_path(m, datum, p, mds = mds_of(pts))
                t.write_hdf5()
                t.create_xml()
                with about(('path', pts.tolist())):
                    bw = BlockedWell(m, grid = g, trajectory = t)
                    check_blocked(bw, g, exp, mds)
                    expect(rq.near(t.control_points, p, 1e-9) and str(t.crs_uuid) == str(datum.crs_uuid), 'trajectory was changed by blocking')
                    together = all(abs(a[1] - b[0]) < 1e-6 for a, b in zip(exp[:-1], exp[1:]))
                    if exp[0][3] == 0 and exp[0][2][0] == 0 and together:
                        check_blocked(BlockedWell(m, grid = g, trajectory = t, lazy = True), g, exp, mds)
                        ctx.outcome('lazy')
                ctx.step()
                ctx.state((name, kw, pts.tolist()))
            ctx.outcome('blocked')
            rq.close(m)

        ctx.run(dict(grid = name, crs = n), case)


# ---------------------------------------------------------------------------------------------------------------------
# data frame

WELLS = [((1003.1, 2006.3, 980.0), (1003.1, 2006.3, 1030.0)), ((1003.1, 2006.3, 990.0), (1018.0, 2027.0, 1022.0)),
         ((1003.1, 2006.3, 990.0), (1003.1, 2006.3, 1002.6), (1018.5, 2006.3, 1003.4)), ((1003.1, 2006.3, 990.0), (1003.1, 2006.3, 1008.0), (1003.1, 2038.0, 1008.0)),
         ((1003.1, 2006.3, 990.0), (1006.0, 2011.0, 1011.0), (1017.0, 2033.0, 1003.0))]


def frame_setting(ctx, spec, pts):
    import resqpy.property as rqp
    from resqpy.well import BlockedWell
    m, g, datum = setting(ctx.path('f.epc'), spec)
    n = np.arange(12, dtype = float).reshape((3, 2, 2))
    arrays = dict(ki = 50.0 + 10.0 * n, kj = 200.0 - 7.0 * n, kk = 3.0 + n, ntg = 0.4 + 0.05 * n, satw = 0.1 + 0.07 * n, reg = (n % 3).astype(int))
    uuids = {}
    for k, a in arrays.items():
        uuids[k] = rqp.Property.from_array(m, a, 'test', k, g.uuid, property_kind = 'region initialization' if k == 'reg' else 'rock permeability' if k[0] == 'k' else 'continuous',
                                           uom = 'mD' if k[0] == 'k' else 'm3/m3', indexable_element = 'cells', discrete = (k == 'reg')).uuid
    g.property_collection = None
    g.extract_property_collection()
    t, mds = new_path(m, datum, pts)
    bw = BlockedWell(m, grid = g, trajectory = t)
    return m, g, t, mds, bw, arrays, uuids


def do_frame(ctx, wn, up, throw):
    spec = Plane(up = up, dip = (0.0, 0.0), throws = [[0.0, throw], [0.0, throw]])
    pts = signed(spec, *WELLS[wn])
    clip = Clipper(spec)
    exp = clip.pieces(pts)
    assert exp and clip.clear(pts, exp), 'path should be clear of edges'
    mds_ = mds_of(pts)
    nodes, gi, cells, _ = expected_arrays(exp, mds_, 2, 2)
    at = [i for i in range(len(gi)) if gi[i] >= 0]

    def xyz(md):
        s = max(0, min(int(np.searchsorted(mds_, md)) - 1, len(mds_) - 2))
        return pts[s] + (md - mds_[s]) / (mds_[s + 1] - mds_[s]) * (pts[s + 1] - pts[s])

    ends = [(xyz(nodes[n]), xyz(nodes[n + 1])) for n in at]
    md_len = np.array([nodes[n + 1] - nodes[n] for n in at])
    straight = np.array([np.linalg.norm(b - a) for a, b in ends])
    unit = np.array([(b - a) / np.linalg.norm(b - a) for a, b in ends])
    mid = np.array([xyz(0.5 * (nodes[n] + nodes[n + 1])) for n in at])
    down = -1.0 if up else 1.0
    anglv = np.degrees(np.arccos(np.clip(unit[:, 2] * down, -1.0, 1.0)))
    idx = tuple(np.array(cells).T)

    def kh(length, a, ntg = None, iso = None):
        ki, kj, kk = (a[k][idx] for k in ('ki', 'kj', 'kk'))
        if iso is not None:
            ki = kj = kk = a['ki'][idx]
        if ntg is not None:
            ki, kj = ki * ntg, kj * ntg
        u = unit * unit
        return length * np.sqrt(ki * kj * kk) * np.sqrt(u[:, 0] / ki + u[:, 1] / kj + u[:, 2] / kk)

    def case_columns():
        m, g, t, mds, bw, arrays, uuids = frame_setting(ctx, spec, pts)
        cols = ['GRID', 'MD', 'X', 'Y', 'DEPTH', 'LENGTH', 'ANGLV', 'ANGLA', 'KH']
        for mode, uom, one, inc_down in itertools.product(('MD', 'straight'), (None, 'm'), (True, False), (True,)):
            for perms in ('iso', 'full', 'ntg'):
                kw = dict(perm_i_uuid = uuids['ki'])
                if perms != 'iso':
                    kw.update(perm_j_uuid = uuids['kj'], perm_k_uuid = uuids['kk'])
                if perms == 'ntg':
                    kw.update(ntg_uuid = uuids['ntg'], preferential_perforation = False)
                df = bw.dataframe(extra_columns_list = cols, length_mode = mode, length_uom = uom, one_based = one, depth_inc_down = inc_down, **kw)
                with about(('length mode', mode, 'uom', uom, 'perms', perms)):
                    expect(list(df.columns) == ['IW', 'JW', 'L'] + cols, 'columns', list(df.columns))
                    got = list(zip(df['L'], df['JW'], df['IW']))
                    expect([tuple(int(x) - (1 if one else 0) for x in c) for c in got] == cells, 'cells', got)
                    expect(list(df['GRID']) == ['ROOT' if not g.title or g.title.upper() == 'ROOT' else df['GRID'][0]] * len(cells), 'grid names', list(df['GRID']))
                    ln = md_len if mode == 'MD' else straight
                    expect(rq.near(df['LENGTH'].to_numpy(), ln, 0.01), 'LENGTH', df['LENGTH'].to_numpy(), 'should be', ln)
                    expect(rq.near(df['MD'].to_numpy(), [0.5 * (nodes[n] + nodes[n + 1]) for n in at], 0.01), 'MD', df['MD'].to_numpy())
                    w = mid if mode == 'MD' else np.array([0.5 * (a + b) for a, b in ends])
                    expect(rq.near(df['X'].to_numpy(), w[:, 0], 0.01) and rq.near(df['Y'].to_numpy(), w[:, 1], 0.01), 'X, Y', df[['X', 'Y']].to_numpy(), 'should be', w)
                    expect(rq.near(df['DEPTH'].to_numpy(), down * w[:, 2], 0.01), 'DEPTH', df['DEPTH'].to_numpy(), 'should be', down * w[:, 2])
                    expect(rq.near(df['ANGLV'].to_numpy(), anglv, 0.1), 'ANGLV', df['ANGLV'].to_numpy(), 'should be', anglv)
                    wk = kh(ln, arrays, arrays['ntg'][idx] if perms == 'ntg' else None, True if perms == 'iso' else None)
                    expect(np.allclose(df['KH'].to_numpy(), wk, rtol = 0.01), 'KH', df['KH'].to_numpy(), 'should be', wk)
                    horiz = np.hypot(unit[:, 0], unit[:, 1])
                    for n in range(len(cells)):
                        if horiz[n] > 0.05:
                            ca, sa = np.cos(np.radians(df['ANGLA'][n])), np.sin(np.radians(df['ANGLA'][n]))
                            expect(abs(ca - unit[n, 0] / horiz[n]) < 0.02 and abs(abs(sa) - abs(unit[n, 1]) / horiz[n]) < 0.02, 'ANGLA', df['ANGLA'][n], 'for direction', unit[n])
                    skh = bw.static_kh(length_mode = mode, length_uom = uom, **kw)
                    expect(abs(skh - wk.sum()) < 0.01 * wk.sum(), 'static kh', skh, 'should be', wk.sum())
                ctx.step()
        ctx.outcome('columns')
        rq.close(m)

    ctx.run(dict(well = wn, up = up, throw = throw, what = 'columns'), case_columns)

    def case_units(kw):
        from resqpy.crs import Crs
        from resqpy.well import BlockedWell
        m, g, datum = setting(ctx.path('u.epc'), spec, kw)
        g_crs, t_crs = Crs(m, uuid = g.crs_uuid), Crs(m, uuid = datum.crs_uuid)
        p = pts.copy()
        t_crs.convert_array_from(g_crs, p)
        t, mds = new_path(m, datum, p, mds = mds_)
        t.write_hdf5()
        t.create_xml()
        bw = BlockedWell(m, grid = g, trajectory = t)
        for mode, uom in itertools.product(('MD', 'straight'), (None, 'm', 'ft')):
            f = 0.3048 if uom == 'ft' else 1.0
            df = bw.dataframe(extra_columns_list = ['LENGTH', 'ANGLV'], length_mode = mode, length_uom = uom)
            with about(('length mode', mode, 'uom', uom)):
                got = [tuple(int(x) - 1 for x in c) for c in zip(df['L'], df['JW'], df['IW'])]
                expect(got == cells, 'cells', got)
                expect(rq.near(df['LENGTH'].to_numpy(), (md_len if mode == 'MD' else straight) / f, 0.03), 'LENGTH', df['LENGTH'].to_numpy(), 'should be',
                       (md_len if mode == 'MD' else straight) / f)
                expect(rq.near(df['ANGLV'].to_numpy(), anglv, 0.1), 'ANGLV', df['ANGLV'].to_numpy(), 'should be', anglv)
            ctx.step()
        ctx.outcome('units')
        rq.close(m)

    for n, kw in enumerate(CRSES):
        ctx.run(dict(well = wn, up = up, throw = throw, what = 'units', crs = n), lambda kw = kw: case_units(kw))

    def case_filters():
        m, g, t, mds, bw, arrays, uuids = frame_setting(ctx, spec, pts)
        inactive = np.zeros((3, 2, 2), dtype = bool)
        inactive[cells[len(cells) // 2]] = True
        g.inactive = inactive
        ar = {k: a[idx] for k, a in arrays.items()}
        cd = down * np.array([spec.cp[c].reshape((-1, 3)).mean(axis = 0)[2] for c in cells])
        k0 = np.array([c[0] for c in cells])
        mid_len = float(np.sort(md_len)[len(md_len) // 2])
        limits = [(dict(min_k0 = 1), k0 >= 1), (dict(max_k0 = 1), k0 <= 1), (dict(k0_list = [0, 2]), np.isin(k0, (0, 2))), (dict(active_only = True), ~inactive[idx]),
                  (dict(min_length = mid_len - 0.02), md_len > mid_len - 0.02), (dict(max_depth = 1008.0), cd <= 1008.0),
                  (dict(region_list = [0, 2], region_uuid = uuids['reg']), np.isin(ar['reg'], (0, 2))),
                  (dict(max_satw = 0.5, satw_uuid = uuids['satw']), ar['satw'] <= 0.5), (dict(min_sato = 0.4, sato_uuid = uuids['satw']), ar['satw'] >= 0.4),
                  (dict(max_satg = 0.6, satg_uuid = uuids['satw']), ar['satw'] <= 0.6),
                  (dict(min_kh = 300.0, perm_i_uuid = uuids['ki']), kh(md_len, arrays, iso = True) >= 300.0)]
        for r in (1, 2):
            for which in itertools.combinations(range(len(limits)), r):
                kw, keep = {}, np.ones(len(cells), dtype = bool)
                for w in which:
                    kw.update(limits[w][0])
                    keep &= limits[w][1]
                df = bw.dataframe(extra_columns_list = ['LENGTH'], **kw)
                want = [c for c, f in zip(cells, keep) if f]
                got = [tuple(int(x) - 1 for x in c) for c in zip(df['L'], df['JW'], df['IW'])]
                with about(('limits', sorted(kw))):
                    expect(got == want, 'rows', got, 'should be', want)
                    if want:
                        expect(rq.near(df['LENGTH'].to_numpy(), md_len[keep], 0.01), 'LENGTH', df['LENGTH'].to_numpy())
                ctx.step()
        # perforations
        a, b = nodes[0], nodes[-1]
        marks = [a - 5.0, a + 0.2 * (b - a), a + 0.45 * (b - a), a + 0.71 * (b - a), b + 4.0]
        opts = [(x, y) for x, y in itertools.combinations(marks, 2)]
        for plist in [[o] for o in opts] + [[o1, o2] for o1, o2 in itertools.combinations(opts, 2) if o1[1] <= o2[0]]:
            part = np.array([sum(max(0.0, min(e, nodes[n + 1]) - max(s, nodes[n])) for s, e in plist) for n in at])
            if np.any((part > 0.0) & (part < 0.03)):
                continue
            keep = part > 0.0
            df = bw.dataframe(extra_columns_list = ['LENGTH', 'PPERF', 'KH'], perforation_list = plist, perm_i_uuid = uuids['ki'])
            got = [tuple(int(x) - 1 for x in c) for c in zip(df['L'], df['JW'], df['IW'])]
            with about(('perforations', plist)):
                expect(got == [c for c, f in zip(cells, keep) if f], 'rows', got)
                expect(rq.near(df['LENGTH'].to_numpy(), part[keep], 0.02), 'LENGTH', df['LENGTH'].to_numpy(), part[keep])
                expect(rq.near(df['PPERF'].to_numpy(), (part / md_len)[keep], 0.02), 'PPERF', df['PPERF'].to_numpy(), (part / md_len)[keep])
                expect(np.allclose(df['KH'].to_numpy(), kh(part, arrays, iso = True)[keep], rtol = 0.02, atol = 1.0), 'KH', df['KH'].to_numpy())
            ctx.step()
        ctx.outcome('filters')
        rq.close(m)

    ctx.run(dict(well = wn, up = up, throw = throw, what = 'limits'), case_filters)


def do_frame_properties(ctx, wn):
    """Columns kept as properties, and frames of other intervals mapped to the cells of the well."""
    import resqpy.property as rqp
    from resqpy.well import BlockedWell, WellboreFrame
    spec = Plane(**GRIDS['steps'])
    pts = signed(spec, *WELLS[wn])
    exp = Clipper(spec).pieces(pts)
    nodes, gi, cells, _ = expected_arrays(exp, mds_of(pts), 2, 2)
    at = [i for i in range(len(gi)) if gi[i] >= 0]

    def case():
        m, g, t, mds, bw, arrays, uuids = frame_setting(ctx, spec, pts)
        t.write_hdf5()
        t.create_xml()
        bw.write_hdf5()
        bw.create_xml()
        df = bw.dataframe(extra_columns_list = ['LENGTH', 'MD', 'KH', 'DEPTH'], perm_i_uuid = uuids['ki'], add_as_properties = True, length_uom = 'm')
        bw.add_grid_property_to_blocked_well([uuids['ki'], uuids['reg']])
        m.store_epc()
        path = m.epc_file
        u = bw.uuid
        rq.close(m)
        m = rq.open_model(path)
        bw = BlockedWell(m, uuid = u)
        pc = bw.extract_property_collection()
        for col in ('LENGTH', 'MD', 'KH', 'DEPTH'):
            expect(rq.near(pc.single_array_ref(citation_title = col), df[col].to_numpy(), 1e-3 * abs(df[col].to_numpy()).max()), 'property for column', col)
        idx = tuple(np.array(cells).T)
        for k in ('ki', 'reg'):
            a = pc.single_array_ref(citation_title = k)
            expect(rq.near(a, arrays[k][idx], 1e-4), 'property of the grid on the well', k, a)
            p = pc.singleton(citation_title = k)
            expect(pc.indexable_for_part(p) == 'cells' and pc.continuous_for_part(p) == (k == 'ki'), 'kind of property on the well')
        again = bw.dataframe(extra_columns_list = ['LENGTH', 'KH'], perm_i_uuid = uuids['ki'], use_properties = ['LENGTH', 'KH'])
        expect(rq.near(again['KH'].to_numpy(), df['KH'].to_numpy(), 0.5) and rq.near(again['LENGTH'].to_numpy(), df['LENGTH'].to_numpy(), 1e-3), 'data frame from properties')
        ctx.step()
        # frames: all choices of nodes from marks along the well
        a, b = nodes[0], nodes[-1]
        marks = [a - 6.0, a - 2.0, a + 0.11 * (b - a), nodes[1], a + 0.37 * (b - a), a + 0.72 * (b - a), b + 2.0]
        marks = sorted(set(marks))
        for r in range(2, 5):
            for fm in itertools.combinations(marks, r):
                wbf = WellboreFrame(m, trajectory = bw.trajectory, mds = np.array(fm), title = 'f')
                got = bw.frame_contributions_list(wbf)
                want = []
                for n in at:
                    lst = []
                    for x in range(r - 1):
                        ov = min(fm[x + 1], nodes[n + 1]) - max(fm[x], nodes[n])
                        if ov > 1e-6:
                            lst.append((x, ov / (fm[x + 1] - fm[x]), ov / (nodes[n + 1] - nodes[n])))
                    want.append(lst)
                with about(('frame at', fm)):
                    expect(len(got) == len(want), 'number of cells')
                    for x, y in zip(got, want):
                        x = [e for e in x if e[1] > 1e-3 and e[2] > 1e-3]
                        y = [e for e in y if e[1] > 1e-3 and e[2] > 1e-3]
                        expect(len(x) == len(y) and all(p[0] == q[0] and abs(p[1] - q[1]) < 0.01 and abs(p[2] - q[2]) < 0.01 for p, q in zip(x, y)), 'contributions', x, 'should be', y)
                ctx.step()
                ctx.state((wn, fm))
        ctx.outcome('properties and frames')
        rq.close(m)

    ctx.run(dict(well = wn, what = 'properties'), case)


def do_wellspec(ctx, gname):
    """Wells written as well specifications and read again."""
    from resqpy.well import BlockedWell, add_blocked_wells_from_wellspec
    spec = Plane(**GRIDS[gname])
    clip = Clipper(spec)
    lists = [[(0, 0, 0), (1, 0, 0), (2, 0, 0)], [(0, 1, 1), (1, 1, 1)], [(0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 1)], [(2, 1, 0), (2, 1, 1)], [(1, 0, 1)]]

    def case():
        path = ctx.path('w.epc')
        m, g, datum = setting(path, spec)
        f = os.path.join(os.path.dirname(path), 'wells.txt')
        wells = {}
        for n, w in enumerate(WELLS):
            pts = signed(spec, *w)
            exp = clip.pieces(pts)
            if not exp or not clip.clear(pts, exp):
                continue
            t, mds = new_path(m, datum, pts, title = 'path %d' % n)
            bw = BlockedWell(m, grid = g, trajectory = t, well_name = 'W%d' % n)
            df = bw.write_wellspec(f, well_name = 'W%d' % n, mode = 'a' if wells else 'w', extra_columns_list = ['ANGLV', 'ANGLA', 'LENGTH', 'RADW', 'SKIN', 'STAT'], radw = 0.125, skin = 1.5, stat = 'ON',
                                   length_uom = 'm', preceeding_blank_lines = 1, trailing_blank_lines = 1)
            wells['W%d' % n] = ([p[2] for p in exp], df)
        for title, cells in (('C%d' % n, c) for n, c in enumerate(lists)):
            bw = BlockedWell(m, well_name = title)
            with about(('cell list', cells)):
                bw.derive_from_cell_list(np.array(cells), title, g)
                got = [tuple(int(x) for x in c) for c in bw.cell_indices_kji0()]
                expect(got == cells, 'cells', got)
                expect(np.all(np.diff(bw.node_mds) > -1e-9) and bw.cell_count == len(cells), 'measured depths', bw.node_mds)
            df = bw.write_wellspec(f, well_name = title, mode = 'a', extra_columns_list = ['STAT'], stat = 'OFF', length_uom = 'm')
            wells[title] = (cells, df)
            ctx.step()
        for name, (cells, df) in wells.items():
            if len(set(cells)) < len(cells):
                continue
            for centres in (False, True):
                bw = BlockedWell(m, grid = g, wellspec_file = f, well_name = name, use_face_centres = centres, add_wellspec_properties = True)
                with about(('well', name, 'face centres', centres)):
                    got = [tuple(int(x) for x in c) for c in bw.cell_indices_kji0()]
                    expect(got == cells, 'cells', got, 'should be', cells)
                    pc = bw.extract_property_collection(refresh = True)
                    stat = pc.single_array_ref(citation_title = 'STAT')
                    expect(rq.same(stat, [1 if name[0] == 'W' else 0] * len(cells)), 'STAT', stat)
                    if name[0] == 'W':
                        expect(rq.near(pc.single_array_ref(citation_title = 'RADW'), [0.125] * len(cells), 1e-6) and rq.near(pc.single_array_ref(citation_title = 'SKIN'), [1.5] * len(cells), 1e-6), 'RADW and SKIN')
                        expect(rq.near(pc.single_array_ref(citation_title = 'LENGTH'), df['LENGTH'].to_numpy(), 1e-3), 'LENGTH')
                ctx.step()
        for ji in np.ndindex((spec.nj, spec.ni)):
            bw = BlockedWell(m, well_name = 'col')
            bw.set_for_column('col', g, ji)
            want = [(k,) + ji for k in range(spec.nk) if (k,) + ji not in spec.pinch]
            got = [tuple(int(x) for x in c) for c in bw.cell_indices_kji0()]
            with about(('column', ji)):
                expect(got == want, 'cells of column', got)
                expect(rq.same(bw.face_pair_indices, [[(0, 0), (0, 1)]] * len(want)), 'faces', bw.face_pair_indices)
                gap = [i for i in range(len(want) - 1) if any(spec.gaps[want[i][0]:want[i + 1][0]])]
                inside = [i for i in range(bw.node_count - 1) if bw.grid_indices[i] >= 0]
                for n, c in enumerate(want):
                    top, base = (spec.cp[c][kp].reshape((-1, 3)).mean(axis = 0) for kp in range(2))
                    a, b = bw.entry_and_exit_mds(n)
                    expect(abs((b - a) - np.linalg.norm(base - top)) < 0.01, 'length in cell', c, b - a)
                    expect(rq.near(bw.trajectory.xyz_for_md(a), top, 0.02) and rq.near(bw.trajectory.xyz_for_md(b), base, 0.02), 'entry and exit', c)
        ctx.outcome('read again')
        rq.close(m)

    ctx.run(dict(grid = gname, what = 'wellspec'), case)


def do_wellspec_text(ctx, first):
    """Tables for two wells in every order of blocks between dates, with rows for other grids."""
    from resqpy.olio.wellspec_keywords import load_wellspecs
    from resqpy.well import BlockedWell
    blocks = ('A', 'B', 'date', 'units')
    rows = dict(A = [('grid', (0, 0, 0), 0.11), ('OTHER', (0, 1, 1), 0.12), ('OTHER', (1, 1, 1), 0.13), ('grid', (1, 0, 0), 0.14)], B = [('grid', (0, 1, 0), 0.21), ('grid', (1, 1, 0), 0.22)])
    dates = ('1/2/2020', '15/3/2021', '31/12/2022')
    for rest in itertools.product(blocks, repeat = 4):
        seq = (first,) + rest
        if seq.count('date') > 3 or 'A' not in seq or 'B' not in seq:
            continue

        def case(seq = seq):
            path = ctx.path('t.epc')
            f = os.path.join(os.path.dirname(path), 'spec.txt')
            want = dict(A = [], B = [])
            now, nd, bump = None, 0, 0.0
            text = ['! a comment', '']
            for s in seq:
                if s == 'date':
                    text += ['TIME ' + dates[nd], '']
                    now = '-'.join(('%02d' % int(x)) if len(x) < 4 else x for x in reversed(dates[nd].split('/')))
                    nd += 1
                elif s == 'units':
                    text += ['METRIC', '']
                else:
                    bump += 0.01
                    text += ['WELLSPEC ' + s, 'JW IW L GRID RADW ! columns']
                    for grid, (k, j, i), r in rows[s]:
                        text += ['%d %d %d %s %.3f' % (j + 1, i + 1, k + 1, grid, r + bump)]
                        want[s].append((now, grid, (k, j, i), round(r + bump, 3)))
                    text += ['']
            with open(f, 'w') as fp:
                fp.write('\n'.join(text) + '\n')
            got = load_wellspecs(f, column_list = ['IW', 'JW', 'L', 'GRID', 'RADW'], last_data_only = False, keep_duplicate_cells = True)
            last = load_wellspecs(f, column_list = ['IW', 'JW', 'L', 'GRID', 'RADW'], keep_duplicate_cells = True)
            expect(sorted(got) == ['A', 'B'] == sorted(last), 'wells', sorted(got))
            for w in 'AB':
                one = load_wellspecs(f, well = w, column_list = ['IW', 'JW', 'L', 'GRID', 'RADW'], last_data_only = False, keep_duplicate_cells = True)
                n = len(rows[w])
                for what, frame, exp in (('all data', got[w], want[w]), ('all data of one well', one[w], want[w]), ('last data', last[w], want[w][-n:])):
                    dl = list(frame['DATE']) if what != 'last data' else [x[0] for x in exp]
                    tab = [(None if d is None or d != d else d, g, (int(l) - 1, int(j) - 1, int(i) - 1), round(float(r), 3))
                           for d, g, l, j, i, r in zip(dl, frame['GRID'], frame['L'], frame['JW'], frame['IW'], frame['RADW'])]
                    expect(tab == exp, what, 'for well', w, tab, 'should be', exp)
            m, g, _ = setting(path, Plane())
            for check in (False, True):
                bw = BlockedWell(m, grid = g, wellspec_file = f, well_name = 'A', check_grid_name = check, add_wellspec_properties = False)
                cells = [tuple(int(x) for x in c) for c in bw.cell_indices_kji0()]
                exp = [c for gr, c, _ in rows['A'] if gr == 'grid' or not check]
                expect(cells == exp, 'cells with', 'check of grid name' if check else 'no check of grid name', cells, 'should be', exp)
            rq.close(m)
            ctx.step(4)
            ctx.state(seq)
            ctx.outcome('specifications')

        ctx.run(dict(blocks = seq), case)


def warm(tier):
    import resqpy.well, resqpy.grid, resqpy.grid_surface, resqpy.property  # noqa


def jobs(tier):
    lat = LATTICE[tier]
    js = []
    for name in GRIDS:
        for head in lat['heads']:
            parts = rq.chunks(lat['at'], 3 if tier == 'quick' else 4)
            for n, at in enumerate(parts):
                js.append(('%s, head %s, part %d' % (name, head, n), do_paths, dict(name = name, head = tuple(head), at = list(at))))
    for name in ('plain', 'steps', 'up', 'gapfault'):
        js.append(('other crs, %s' % name, do_other_crs, dict(name = name)))
    for wn in range(len(WELLS)):
        for up in (False, True):
            for throw in (0.0, 2.2):
                js.append(('frame, well %d%s, throw %s' % (wn, ' up' if up else '', throw), do_frame, dict(wn = wn, up = up, throw = throw)))
        js.append(('properties, well %d' % wn, do_frame_properties, dict(wn = wn)))
    for first in ('A', 'B', 'date', 'units'):
        js.append(('text, %s first' % first, do_wellspec_text, dict(first = first)))
    for name in ('plain', 'steps', 'up', 'gap'):
        js.append(('wellspec, %s' % name, do_wellspec, dict(gname = name)))
    return js
