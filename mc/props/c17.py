"""C17: quantities derived from the geometry of an IJK grid are what their definitions give.

Thickness, volume, pinched out cells, face centres, interface vectors, faults and their throws, pixel maps, finding a cell,
nearest pillars, ranges, directions, for every pattern of pinched cells and of faults of small grids, asked in the session and
re-read, singly and for all cells, with and without caching; the oracle is arithmetic on the corner points in plain Python."""

import itertools
import math

import numpy as np

from mc import ijk, rq
from mc.core import about, expect
from mc.props.c15 import KINDS

ID = 'C17'
TITLE = 'derived grid quantities'
BOUNDS = {
    'quick': 'all 256 patterns of pinched cells of 2x2x2 x 3 fault kinds; all 240 fault patterns of 2x2 columns; all windows of '
             'pixels around 2x3 columns; all ordered pairs of units; all flips of rows of 2x2',
    'thorough': 'pinched patterns of 3x2x2; all partitions with 2x3 columns'
}


def warm(tier):
    import resqpy.grid, resqpy.rq_import, resqpy.model, resqpy.crs, resqpy.property, resqpy.fault  # noqa
    import resqpy.olio.grid_functions  # noqa


def cells(shape):
    return itertools.product(*[range(n) for n in shape])


# oracles


def face_mean(cp, axis, pol):
    return np.mean(np.take(cp, pol, axis = axis).reshape(4, 3), axis = 0)


def thick(cp):
    return abs(np.mean(cp[1, :, :, 2]) - np.mean(cp[0, :, :, 2]))


G = (0.5 - 0.5 / math.sqrt(3.0), 0.5 + 0.5 / math.sqrt(3.0))


def volume(cp):
    """Volume within bilinear faces, by the divergence theorem with exact quadrature; sign is that of det(i, j, k)."""
    c = cp.reshape(8, 3).mean(axis = 0)
    tot = 0.0
    for axis in range(3):
        for pol in range(2):
            f = np.take(cp, pol, axis = axis) - c  # (2, 2, 3)
            flux = 0.0
            for u in G:
                for v in G:
                    r = (1 - u) * (1 - v) * f[0, 0] + (1 - u) * v * f[0, 1] + u * (1 - v) * f[1, 0] + u * v * f[1, 1]
                    ru = (1 - v) * (f[1, 0] - f[0, 0]) + v * (f[1, 1] - f[0, 1])
                    rv = (1 - u) * (f[0, 1] - f[0, 0]) + u * (f[1, 1] - f[1, 0])
                    flux += 0.25 * np.dot(r, np.cross(ru, rv))
            sign = (1 if pol else -1) * (-1 if axis == 1 else 1)
            tot += sign * flux / 3.0
    return -tot  # axes are k, j, i; this gives i, j, k


def opened(m, path, g):
    import resqpy.grid as grr
    uuid = g.uuid
    ijk.store(g)
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    return m, lambda: grr.Grid(m, uuid = uuid)


def run_pinch(ctx, spec, zdown, tag):
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = zdown)
    g = ijk.build(m, crs, spec)
    g.title = 'pinched'
    m, fresh = opened(m, path, g)
    cs = list(cells(spec.shape))
    t = {c: thick(spec.cp[c]) for c in cs}
    v = {c: abs(volume(spec.cp[c])) for c in cs}
    arr = lambda d: np.array([d[c] for c in cs]).reshape(spec.shape)
    with about(tag):
        g = fresh()
        for c in cs:  # singly, nothing cached
            expect(rq.near(g.thickness(c, cache_thickness_array = False), t[c]), 'thickness of', c)
            expect(rq.near(g.volume(c, cache_volume_array = False), v[c]), 'volume of', c, g.volume(c, cache_volume_array = False), v[c])
            for tol in (0.001, 1.9, 2.6):
                expect(bool(g.pinched_out(c, tolerance = tol)) == (t[c] <= tol), 'pinched out', c, tol, t[c])
            for axis in range(3):
                for pol in range(2):
                    expect(rq.near(g.face_centre(c, axis, pol), face_mean(spec.cp[c], axis, pol)), 'face centre', c, axis, pol)
                iv = face_mean(spec.cp[c], axis, 1) - face_mean(spec.cp[c], axis, 0)
                expect(rq.near(g.interface_vector(c, axis), iv), 'interface vector', c, axis)
                expect(rq.near(g.interface_length(c, axis), np.linalg.norm(iv)), 'interface length', c, axis)
                expect(rq.near(g.interface_vectors_kji(c)[axis], iv), 'interface vectors', c, axis)
                expect(rq.near(g.interface_lengths_kji(c)[axis], np.linalg.norm(iv)), 'interface lengths', c, axis)
            fc = g.face_centres_kji_01(c)
            expect(all(rq.near(fc[a, p], face_mean(spec.cp[c], a, p)) for a in range(3) for p in range(2)), 'face centres', c)
            for kp, ref in enumerate(('top', 'base')):
                want = [spec.cp[c][kp, a, b] for a, b in ((0, 0), (0, 1), (1, 1), (1, 0))]
                expect(rq.near(g.poly_line_for_cell(c, vertical_ref = ref), want), 'polyline of', ref, 'of', c)
        expect(not hasattr(g, 'array_thickness') and not hasattr(g, 'array_volume'), 'arrays cached although not asked for')
        for how in range(2):
            g = fresh()
            if how:
                g.corner_points(cache_cp_array = True)
            expect(rq.near(g.thickness(), arr(t)), 'thickness of all', how)
            expect(rq.near(g.volume(), arr(v)), 'volume of all', how)
            for tol in (0.001, 1.9, 0.001):
                expect(np.array_equal(g.pinched_out(tolerance = tol), arr(t) <= tol), 'pinched out', tol, how)
                expect(all(bool(g.pinched_out(c, tolerance = tol)) == (t[c] <= tol) for c in cs), 'pinched out singly', tol, how)
            for c in cs:
                expect(rq.near(g.thickness(c), t[c]) and rq.near(g.volume(c), v[c]), 'cached values of', c, how)
            for axis in range(3):
                for pol in range(2):
                    want = np.array([face_mean(spec.cp[c], axis, pol) for c in cs]).reshape(spec.shape + (3,))
                    expect(rq.near(g.face_centre(None, axis, pol), want), 'face centres of all cells', axis, pol)
        g = fresh()
        n = sum(t[c] > 0.001 for c in cs)
        expect(g.cell_count() == len(cs) and g.cell_count(non_pinched_out_only = True) == n, 'cell counts',
               g.cell_count(non_pinched_out_only = True), n)
        expect(g.cell_count(active_only = True) == len(cs) == g.cell_count(geometry_defined_only = True), 'active count')
        g = fresh()
        ina = g.extract_inactive_mask(check_pinchout = True)
        expect(np.array_equal(ina, arr(t) <= 0.001), 'inactive when pinched out')
        expect(g.cell_count(active_only = True) == n, 'active count after pinching out')
        for c in cs:
            expect(bool(g.cell_inactive(c)) == (t[c] <= 0.001), 'inactive', c)
        for j, i in itertools.product(range(spec.nj), range(spec.ni)):
            expect(bool(g.column_is_inactive((j, i))) == all(t[k, j, i] <= 0.001 for k in range(spec.nk)), 'column inactive', j, i)
            ctx.step()
    rq.close(m)
    ctx.state((tag, tuple(sorted(spec.pinch)), zdown))
    ctx.outcome(n)


def pinches(ctx, share, of, base = (2, 2, 2)):
    cs = list(cells(base))
    n = 0
    for bits in range(2**len(cs)):
        if bits % of != share:
            continue
        pinch = {c for b, c in enumerate(cs) if (bits >> b) & 1}
        for kind in KINDS:
            n += 1
            gaps = [(False,), (True,)][(bits + n) % 2] * (base[0] - 1)
            zdown = bool((bits // 2 + n) % 2)
            s = ijk.Spec(*base, parts = KINDS[kind](base[1], base[2]), gaps = gaps, pinch = pinch, up = bool((n // 2) % 2), flip_i = bool((n // 3) % 2),
                         warp = 0.0 if n % 3 else 1.0)
            ctx.run((bits, kind, gaps, zdown, s.up, s.flip_i), lambda: run_pinch(ctx, s, zdown, kind))


FACTOR = {'m': 1.0, 'ft': 0.3048, 'cm': 0.01, 'km': 1000.0}
VOL = {'m3': 1.0, 'ft3': 0.3048**3, 'bbl': 0.158987294928, '1000 m3': 1000.0, 'dm3': 0.001}


def run_units(ctx, xu, zu, seq, single):
    import resqpy.property as rqp
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = True, xy_units = xu, z_units = zu)
    s = ijk.Spec(2, 2, 2, parts = KINDS['a line'](2, 2))
    g = ijk.build(m, crs, s)
    g.title = 'units'
    m, fresh = opened(m, path, g)
    cs = list(cells(s.shape))
    v = np.array([abs(volume(s.cp[c])) for c in cs]).reshape(s.shape) * FACTOR[xu]**2 * FACTOR[zu]
    g = fresh()
    held = []
    for u in seq:
        uom = u if u is not None else {'m': 'm3', 'ft': 'ft3', 'cm': 'cm3', 'km': 'km3'}.get(zu, 'm3')
        f = VOL[uom] if uom in VOL else FACTOR[zu]**3
        expect(g.get_volume_uom(u) == uom, 'uom of volumes', g.get_volume_uom(u), uom)
        if single:
            for c in cs:
                expect(rq.near(g.volume(c, required_uom = u, cache_volume_array = single == 1) / (v[c] / f), 1.0), 'volume of', c, 'in', u)
        else:
            a = g.volume(required_uom = u)
            expect(rq.near(a / (v / f), np.ones(s.shape)), 'volumes in', u, (a / (v / f)).tolist())
            held.append((a, v / f))
        for a, w in held:
            expect(rq.near(a / w, np.ones(s.shape)), 'volumes returned earlier were changed')
    if single and xu in ('m', 'ft'):
        for u in (None, 'm', 'ft'):
            for c in cs:
                for axis in range(3):
                    iv = (face_mean(s.cp[c], axis, 1) - face_mean(s.cp[c], axis, 0)) * np.array((FACTOR[xu], FACTOR[xu], FACTOR[zu]))
                    want = np.linalg.norm(iv) / FACTOR[xu if u is None else u]
                    expect(rq.near(g.interface_length(c, axis, required_uom = u), want), 'interface length', u, c, axis)
                    expect(rq.near(g.interface_lengths_kji(c, required_uom = u)[axis], want), 'interface lengths', u, c, axis)
    rq.close(m)
    ctx.state((xu, zu, seq, single))
    ctx.step()


def units(ctx):
    us = (None,) + tuple(VOL)
    for xu, zu in itertools.product(FACTOR, FACTOR):
        for seq in itertools.product(us, repeat = 2):
            for single in (0, 1, 2):
                ctx.run((xu, zu, seq, single), lambda: run_units(ctx, xu, zu, seq, single))


def run_from_property(ctx, what, uom, ask, order):
    """Thickness and volume taken from a property of the grid in preference to geometry."""
    import resqpy.property as rqp
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m)
    s = ijk.Spec(2, 2, 2)
    g = ijk.build(m, crs, s)
    g.title = 'with properties'
    ijk.store(g)
    a = 7.0 + np.arange(8, dtype = float).reshape(2, 2, 2)
    kind, facet = what
    rqp.Property.from_array(m, a, 'x', 'P', g.uuid, property_kind = kind, uom = uom, facet_type = None if facet is None else facet[0],
                            facet = None if facet is None else facet[1])
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    import resqpy.grid as grr
    g = grr.Grid(m, title = 'with properties', uuid = g.uuid)
    pc = g.extract_property_collection()
    cs = list(cells(s.shape))
    expect(rq.near(pc.cached_part_array_ref(pc.parts()[0]), a), 'array of the property beforehand')
    for how in order:
        if kind == 'rock volume':
            f = VOL[uom] / VOL['m3' if ask is None else ask]
            if how == 'all':
                expect(rq.near(g.volume(property_collection = pc, required_uom = ask) / (a * f), np.ones(s.shape)), 'volumes')
            elif how == 'cell':
                expect(all(rq.near(g.volume(c, property_collection = pc, required_uom = ask, cache_volume_array = False) / (a[c] * f), 1.0)
                           for c in cs), 'volume of cells', [g.volume(c, property_collection = pc, required_uom = ask, cache_volume_array = False)
                                                             for c in cs], (a * f).tolist())
            else:
                expect(all(rq.near(g.volume(c, property_collection = pc, required_uom = ask) / (a[c] * f), 1.0) for c in cs),
                       'volume of cells, caching')
        else:
            if how == 'all':
                expect(rq.near(g.thickness(property_collection = pc), a), 'thicknesses')
            else:
                expect(all(rq.near(g.thickness(c, property_collection = pc, cache_thickness_array = how != 'cell'), a[c]) for c in cs),
                       'thickness of cells', how)
        expect(rq.near(pc.cached_part_array_ref(pc.parts()[0]), a), 'array of the property was changed by asking')
        expect(pc.uom_for_part(pc.parts()[0]) == uom, 'uom of the property')
        if kind == 'rock volume' and ask != 'bbl':
            g.volume(required_uom = 'bbl', property_collection = pc, cache_volume_array = True)
            expect(rq.near(pc.cached_part_array_ref(pc.parts()[0]), a), 'array of the property was changed by converting volumes')
    rq.close(m)
    ctx.state((what, uom, ask, order))


UNUSED = (('rock volume', ('netgross', 'net'), 'm3'), ('pore volume', None, 'm3'), ('thickness', ('netgross', 'net'), 'm'), ('rock volume', ('what', 'oil'), 'm3'),
          ('cell length', ('direction', 'I'), 'm'), ('length', None, 'm'), ('volume', None, 'm3'), ('thickness', ('what', 'x'), 'm'))


def run_unused(ctx, whats, order):
    """Properties which are not the gross volume or thickness of the cells are not taken for them."""
    import resqpy.grid as grr
    import resqpy.property as rqp
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m)
    s = ijk.Spec(2, 2, 2)
    g = ijk.build(m, crs, s)
    ijk.store(g)
    for kind, facet, uom in whats:
        rqp.Property.from_array(m, 7.0 + np.arange(8, dtype = float).reshape(2, 2, 2), 'x', 'P', g.uuid, property_kind = kind, uom = uom,
                                facet_type = None if facet is None else facet[0], facet = None if facet is None else facet[1])
    g = grr.Grid(m, uuid = g.uuid)
    pc = g.extract_property_collection()
    expect(pc.number_of_parts() == len(whats), 'number of properties')
    cs = list(cells(s.shape))
    v = np.array([abs(volume(s.cp[c])) for c in cs]).reshape(s.shape)
    t = np.array([abs(s.cp[c][1, ..., 2].mean() - s.cp[c][0, ..., 2].mean()) for c in cs]).reshape(s.shape)
    for how in order:
        if how == 'all':
            expect(rq.near(g.volume(property_collection = pc) / v, np.ones(s.shape)), 'volumes are not those of the geometry', whats)
            expect(rq.near(g.thickness(property_collection = pc), t), 'thicknesses are not those of the geometry', whats)
        else:
            expect(all(rq.near(g.volume(c, property_collection = pc, cache_volume_array = how != 'cell') / v[c], 1.0) for c in cs), 'volume of a cell is not that of the geometry', whats)
            expect(all(rq.near(g.thickness(c, property_collection = pc, cache_thickness_array = how != 'cell'), t[c]) for c in cs), 'thickness of a cell is not that of the geometry', whats)
    rq.close(m)
    ctx.state(('unused', whats, order))


def from_property(ctx):
    for order in itertools.permutations(('all', 'cell', 'caching'), 2):
        for what, uom in ((('thickness', None), 'm'), (('thickness', ('netgross', 'gross')), 'm'), (('cell length', ('direction', 'K')), 'm')):
            ctx.run((what, uom, None, order), lambda: run_from_property(ctx, what, uom, None, order))
        for k, what in enumerate(UNUSED):
            ctx.run(('not to be used', k, order), lambda: run_unused(ctx, (what,), order))
        ctx.run(('none to be used', order), lambda: run_unused(ctx, UNUSED, order))
        for facet in (None, ('netgross', 'gross')):
            for uom in ('m3', 'ft3', 'bbl'):
                for ask in (None, 'm3', 'ft3', 'bbl'):
                    ctx.run((('rock volume', facet), uom, ask, order),
                            lambda: run_from_property(ctx, ('rock volume', facet), uom, ask, order))


class Growing(ijk.Spec):
    """Throw grows with depth."""

    def node(self, n, j, i, g):
        p = super().node(n, j, i, g)
        if g:
            p[2] += (-1 if self.up else 1) * 0.2 * g * n * (1 + (j + i) % 3)
            p[0] += 0.15 * g * n
        return p


def run_faults(ctx, s, tag, i_throws = False):
    import resqpy.olio.grid_functions as gf
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m)
    g = ijk.build(m, crs, s)
    g.title = 'faulted'
    m, fresh = opened(m, path, g)
    nj, ni = s.nj, s.ni
    line = lambda j, i, col: (j, i, s.group_of(j, i, col))
    split_j = np.array([[any(line(j + 1, i + p, (j, i)) != line(j + 1, i + p, (j + 1, i)) for p in range(2)) for i in range(ni)]
                        for j in range(nj - 1)], dtype = bool).reshape((nj - 1, ni))
    split_i = np.array([[any(line(j + p, i + 1, (j, i)) != line(j + p, i + 1, (j, i + 1)) for p in range(2)) for i in range(ni - 1)]
                        for j in range(nj)], dtype = bool).reshape((nj, ni - 1))
    nodes = s.nodes
    g = fresh()
    got = g.find_faults()
    with about(tag):
        if not s.split():
            expect(got is None and g.fault_throws() is None, 'faults in a grid without split pillars')
            z = g.fault_throws_per_edge_per_column()
            expect(z.shape == (nj, ni, 2, 2) and not z.any(), 'throws of a grid without faults')
        else:
            fj, fi = got
            expect(np.array_equal(fj != 0, split_j) and np.array_equal(fi != 0, split_i), 'fault faces', fj.tolist(), fi.tolist())
            for j in range(nj - 1):
                for i in range(ni - 1):
                    if split_j[j, i] and split_j[j, i + 1]:
                        expect(fj[j, i] == fj[j, i + 1], 'neighbouring faces in line are in different faults')
            for i in range(ni - 1):
                for j in range(nj - 1):
                    if split_i[j, i] and split_i[j + 1, i]:
                        expect(fi[j, i] == fi[j + 1, i], 'neighbouring faces in line are in different faults')
            ids = set(np.unique(fj)) | set(np.unique(fi))
            ids.discard(0)
            expect(set(g.fault_dict) == ids, 'identifiers of faults', list(g.fault_dict), ids)
            for f, (jl, il) in g.fault_dict.items():
                expect(sorted(map(tuple, np.asarray(jl).tolist())) == sorted(map(tuple, np.argwhere(fj == f).tolist())), 'J faces of fault', f)
                expect(sorted(map(tuple, np.asarray(il).tolist())) == sorted(map(tuple, np.argwhere(fi == f).tolist())), 'I faces of fault', f)
            for again in range(2):
                tj, ti = g.fault_throws() if again else fresh().fault_throws()
                for k in range(s.nk):
                    for j in range(nj - 1):
                        for i in range(ni):
                            w = np.mean(s.cp[k, j + 1, i, :, 0, :, 2] - s.cp[k, j, i, :, 1, :, 2]) if split_j[j, i] else 0.0
                            expect(rq.near(tj[k, j, i], w), 'throw at J face', (k, j, i), tj[k, j, i], w)
                    for j in range(nj):
                        for i in range(ni - 1):
                            w = np.mean(s.cp[k, j, i + 1, :, :, 0, 2] - s.cp[k, j, i, :, :, 1, 2]) if split_i[j, i] else 0.0
                            if not split_i[j, i] or i_throws:
                                expect(rq.near(ti[k, j, i], w), 'throw at I face differs', (k, j, i), ti[k, j, i], w)
            for simple in (False, True):
                for mode in ('maximum', 'mean', 'minimum'):
                    want = np.zeros((nj, ni, 2, 2))
                    sure = np.ones((nj, ni, 2, 2), dtype = bool)
                    for (j, i), (aj, ai), ax in [((j, i), (j + 1, i), 0) for j in range(nj - 1) for i in range(ni)] + \
                                                [((j, i), (j, i + 1), 1) for j in range(nj) for i in range(ni - 1)]:
                        per = []
                        for p in range(2):
                            a = nodes[:, j, i, 1, p] if ax == 0 else nodes[:, j, i, p, 1]
                            b = nodes[:, aj, ai, 0, p] if ax == 0 else nodes[:, aj, ai, p, 0]
                            d = (a - b)[:, 2] if simple else np.sign((a - b)[:, 2]) * np.linalg.norm(a - b, axis = 1)
                            per.append(d)
                        allp = np.array(per)
                        if mode == 'mean':
                            w = allp.mean()
                        else:
                            pick = np.max if mode == 'maximum' else np.min
                            w = np.mean([np.sign(d.sum()) * pick(np.abs(d)) for d in per])
                            if allp.min() < 0.0 < allp.max():  # mixed directions: definition not clear
                                sure[j, i, ax, 1] = sure[aj, ai, ax, 0] = False
                        want[j, i, ax, 1] = w
                        want[aj, ai, ax, 0] = -w
                    h = fresh()
                    e = h.fault_throws_per_edge_per_column(mode = mode, simple_z = simple)
                    expect(rq.near(e[sure], want[sure]), 'throws per edge', mode, 'simple' if simple else 'full', e.tolist(), want.tolist())
                    r = h.fault_throws_per_edge_per_column(mode = mode, simple_z = simple, axis_polarity_mode = False)
                    for n, (ax, pol) in enumerate(((1, 0), (0, 1), (1, 1), (0, 0))):
                        expect(rq.near(r[:, :, n], e[:, :, ax, pol]), 'order of edges', n)
            # distance in columns from a fault
            d = gf.columns_to_nearest_split_face(fresh())
            near = {(j, i) for j in range(nj) for i in range(ni)
                    if any(j + dj in range(nj - 1) and split_j[j + dj, i] for dj in (-1, 0)) or
                    any(i + di in range(ni - 1) and split_i[j, i + di] for di in (-1, 0))}
            if near:
                want = [[min(abs(j - a) + abs(i - b) for a, b in near) for i in range(ni)] for j in range(nj)]
                expect(d.tolist() == want, 'columns to nearest split face', d.tolist(), want)
    rq.close(m)
    ctx.state((tag, str(s.parts), s.up))
    ctx.step()
    ctx.outcome((int(split_j.sum()), int(split_i.sum())))


def faults(ctx, share, of, nj = 2, ni = 2, nk = 2, which = None):
    for n, parts in enumerate(ijk.all_parts(nj, ni, which)):
        if n % of != share:
            continue
        s = Growing(nk, nj, ni, parts = parts, gaps = [bool((n // 3) % 2)] + [False] * (nk - 2) if nk > 1 else None, up = n % 2 == 1)
        ctx.run((nj, ni, n), lambda: run_faults(ctx, s, f'{nj}x{ni}'))


def inside(p, quad):
    """1 inside, 0 outside, None too close to an edge; for a convex quadrilateral."""
    s = []
    for a in range(4):
        q, r = quad[a], quad[(a + 1) % 4]
        e = (r - q) / np.linalg.norm(r - q)
        s.append(e[0] * (p[1] - q[1]) - e[1] * (p[0] - q[0]))
    s = np.array(s)
    if np.any(np.abs(s) < 1.0e-6) and (np.all(s > -1.0e-6) or np.all(s < 1.0e-6)):
        return None
    return int(np.all(s > 0.0) or np.all(s < 0.0))


def quad(s, k, kp, j, i):
    return np.array([s.cp[k, j, i, kp, a, b, :2] for a, b in ((0, 0), (0, 1), (1, 1), (1, 0))])


def run_pixels(ctx, spec, origin, width, height, dx, dy, form):
    m = rq.new_model(ctx.path('g.epc'), h5 = True)
    crs = rq.add_crs(m)
    g = ijk.build(m, crs, spec)
    want = {}
    for k in range(spec.nk):
        for kp in range(2):
            for r in range(height):
                for c in range(width):
                    p = np.array((origin[0] + (c + 0.5) * dx, origin[1] + (r + 0.5) * (dx if dy is None else dy)))
                    res = {(j, i): inside(p, quad(spec, k, kp, j, i)) for j in range(spec.nj) for i in range(spec.ni)}
                    hit = [ji for ji, x in res.items() if x]
                    want[k, kp, r, c] = None if None in res.values() or len(hit) > 1 else (hit[0] if hit else (-1, -1))
    o = origin if form == 0 else (tuple(origin) + (0.0,) if form == 1 else np.array(origin))
    n = 0
    for kp, ref in enumerate(('top', 'base')):
        whole = g.pixel_maps(o, width, height, dx, dy, vertical_ref = ref)
        expect(whole.shape == (spec.nk, height, width, 2), 'shape of pixel maps', whole.shape)
        for k in range(spec.nk):
            pm = g.pixel_maps(o, width, height, dx, dy, k0 = k, vertical_ref = ref)
            expect(np.array_equal(pm, whole[k]), 'map of one layer differs', k, ref)
            for r in range(height):
                for c in range(width):
                    w = want[k, kp, r, c]
                    if w is not None:
                        n += 1
                        expect(tuple(pm[r, c]) == w, 'pixel', (r, c), 'of layer', k, ref, 'is', tuple(pm[r, c]), 'should be', w)
    ctx.state((str(spec.parts), origin, width, height, dx, dy))
    ctx.step()
    ctx.outcome(n > 0)


def pixels(ctx, share, of):
    n = 0
    for lean, warp, flip, kind in ((0.0, 1.0, False, 'unsplit'), (0.0, 0.0, True, 'all apart'), (0.01, 1.0, False, 'unsplit'), (0.0, 1.0, False, 'a line')):
        s = ijk.Spec(2, 2, 3, lean = lean, warp = warp, flip_i = flip, parts = KINDS[kind](2, 3), gaps = (kind == 'a line',))
        lo = s.nodes[..., :2].min(axis = (0, 1, 2, 3, 4))
        hi = s.nodes[..., :2].max(axis = (0, 1, 2, 3, 4))
        for fx, fy in itertools.product((-0.3, 0.21, 0.55), repeat = 2):
            for size in (0.2, 0.7, 1.5):
                for dx, dy in ((3.0, None), (2.3, 7.1), (30.0, 50.0)):
                    n += 1
                    if n % of != share:
                        continue
                    o = (lo[0] + fx * (hi[0] - lo[0]), lo[1] + fy * (hi[1] - lo[1]))
                    w = max(1, int(size * (hi[0] - lo[0]) / dx))
                    h = max(1, int(size * (hi[1] - lo[1]) / (dx if dy is None else dy)))
                    ctx.run((lean, warp, flip, kind, fx, fy, size, dx, dy), lambda: run_pixels(ctx, s, o, w, h, dx, dy, n % 3))


def run_find(ctx, offsets, rot, flip, kind, gap):
    m = rq.new_model(ctx.path('g.epc'), h5 = True)
    crs = rq.add_crs(m, x_offset = offsets[0], y_offset = offsets[1], z_offset = offsets[2], rotation = rot)
    s = ijk.Spec(2, 2, 3, lean = 0.0, warp = 0.0, flip_i = flip, parts = KINDS[kind](2, 3), gaps = (gap,))
    g = ijk.build(m, crs, s)
    pil = s.nodes[0, :, :, :, :, :2]
    x0, y0 = s.nodes[..., 0].min(), s.nodes[..., 1].min()
    for a, b in itertools.product(range(-1, 8), range(-1, 6)):
        p = np.array((x0 + 5.0 * a + 2.3, y0 + 10.0 * b + 3.7))
        hit = [(j, i) for j in range(2) for i in range(3) if inside(p, quad(s, 0, 0, j, i))]
        want = hit[0] if hit else (None, None)
        gp = np.array([[p[0], p[1], 0.0]])
        crs.local_to_global_array(gp)
        for k in range(2):
            for ref in ('top', 'base'):
                expect(tuple(g.find_cell_for_point_xy(p[0], p[1], k0 = k, vertical_ref = ref)) == want, 'cell at', p, k, ref)
                if rot:  # direction of rotation: see C08
                    continue
                got = g.find_cell_for_point_xy(gp[0, 0], gp[0, 1], k0 = k, vertical_ref = ref, local_coords = False)
                expect(tuple(got) == want, 'cell at global point', gp, k, ref, got, want)
        dist = {(j, i): (s.primary(0, j, i)[0] - p[0])**2 + (s.primary(0, j, i)[1] - p[1])**2 for j in range(3) for i in range(4)}
        expect(tuple(g.nearest_pillar(p)) == min(dist, key = dist.get), 'nearest pillar to', p)
        d2 = g.pillar_distances_sqr(p)
        expect(d2.shape == (3, 4) and all(rq.near(d2[ji], d) for ji, d in dist.items()), 'squares of distances')
    expect(tuple(g.find_cell_for_point_xy(None, 1.0)) == (None, None), 'no point')
    # range of the grid
    want = np.array((s.nodes.min(axis = (0, 1, 2, 3, 4)), s.nodes.max(axis = (0, 1, 2, 3, 4))))
    corners = np.array([s.nodes[n, j, i, jp, ip] for n in (0, s.nn - 1) for j, jp in ((0, 0), (1, 1)) for i, ip in ((0, 0), (2, 1))])
    lazy = np.array((corners.min(axis = 0), corners.max(axis = 0)))
    expect(rq.near(g.xyz_box(local = True), lazy), 'lazy box')
    expect(rq.near(g.xyz_box(lazy = False, local = True), want), 'thorough box')
    expect(rq.near(g.xyz_box_centre(local = True), want.mean(axis = 0)), 'centre of box')
    wg = want.mean(axis = 0).reshape(1, 3).copy()
    if not rot:
        crs.local_to_global_array(wg)
        expect(rq.near(g.xyz_box_centre(local = False), wg[0]), 'global centre of box', g.xyz_box_centre(local = False), wg)
    expect(rq.near(g.xyz_box(lazy = False, local = True), want), 'box was changed by asking')
    ctx.state((offsets, rot, flip, kind, gap))
    del pil


def find(ctx):
    for offsets in ((0.0, 0.0, 0.0), (1000.0, -500.0, 10.0)):
        for rot in (0.0, 0.4, 2.0):
            for flip in (False, True):
                for kind in KINDS:
                    for gap in (False, True):
                        ctx.run((offsets, rot, flip, kind, gap), lambda: run_find(ctx, offsets, rot, flip, kind, gap))


def run_indices(ctx, shape):
    from resqpy.grid import Grid
    m = rq.new_model(ctx.path('g.epc'))
    crs = rq.add_crs(m)
    g = ijk.build(m, crs, ijk.Spec(*shape))
    cs = list(cells(shape))
    for n, c in enumerate(cs):
        expect(g.natural_cell_index(c) == n and tuple(g.denaturalized_cell_index(n)) == c, 'natural index', c, n)
    a = np.array(cs)
    expect(g.natural_cell_indices(a).tolist() == list(range(len(cs))), 'natural indices')
    expect(np.array_equal(g.denaturalized_cell_indices(np.arange(len(cs))), a), 'denaturalized')
    expect(np.array_equal(g.denaturalized_cell_indices(np.arange(len(cs)).reshape(shape)), a.reshape(shape + (3,))), 'denaturalized in 3D')
    expect(not g.is_big(), 'size')
    s = ijk.Spec(*shape)
    for c in cs:
        fr = (0.0, 0.25, 1.0)
        got = g.interpolated_points(c, [np.array(fr), np.array(fr[:2]), np.array(fr)])
        expect(got.shape == (3, 2, 3, 3), 'shape of interpolated points')
        for x, y, z in itertools.product(range(3), range(2), range(3)):
            w = 0.0
            for kp, jp, ip in cells((2, 2, 2)):
                w = w + s.cp[c][kp, jp, ip] * (fr[x] if kp else 1 - fr[x]) * (fr[y] if jp else 1 - fr[y]) * (fr[z] if ip else 1 - fr[z])
            expect(rq.near(got[x, y, z], w), 'interpolated points', c, (x, y, z))
            expect(rq.near(g.interpolated_point(c, (fr[x], fr[y], fr[z])), w), 'interpolated point', c, (x, y, z))
    ctx.state(shape)


def indices(ctx):
    for shape in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 4)):
        ctx.run(shape, lambda: run_indices(ctx, shape))


class Flipped(ijk.Spec):
    """Rows of pillars mirrored in x (per raw node layer and row), layers mirrored in y."""

    def __init__(self, rows_top, rows_base, y_top, y_base, **kw):
        self.f = (rows_top, rows_base, y_top, y_base)
        super().__init__(2, 2, 2, lean = 0.0, warp = 0.0, **kw)

    def node(self, n, j, i, g):
        p = super().node(n, j, i, g) - np.array((110.0, 220.0, 0.0))
        rows = self.f[0] if n < self.nn // 2 else self.f[1]
        y = self.f[2] if n < self.nn // 2 else self.f[3]
        return np.array((p[0] * rows[j], p[1] * y, p[2]))


def run_flips(ctx, rt, rb, yt, yb, kind):
    m = rq.new_model(ctx.path('g.epc'))
    crs = rq.add_crs(m)
    s = Flipped(rt, rb, yt, yb, parts = KINDS[kind](2, 2))
    g = ijk.build(m, crs, s)
    want = rt == rb and yt == yb and len(set(rt)) == 1
    expect(bool(g.check_top_and_base_cell_edge_directions()) == want, 'edge directions consistent should be', want)
    ctx.state((rt, rb, yt, yb, kind))


def flips(ctx):
    for rt in itertools.product((1, -1), repeat = 3):
        for rb in itertools.product((1, -1), repeat = 3):
            for yt, yb in itertools.product((1, -1), repeat = 2):
                for kind in KINDS:
                    ctx.run((rt, rb, yt, yb, kind), lambda: run_flips(ctx, rt, rb, yt, yb, kind))


class Bent(ijk.Spec):

    def __init__(self, lean_xy, bend, *a, **kw):
        self.lean_xy, self.bend = lean_xy, bend
        super().__init__(*a, lean = 0.0, **kw)

    def node(self, n, j, i, g):
        p = super().node(n, j, i, g)
        z = p[2] - (1000.0 if not self.up else -1000.0)
        p[:2] += np.array(self.lean_xy) * z
        if (j, i) == (1, 1) and n == 1:
            p[0] += self.bend
        return p


def run_direction(ctx, lean, bend, up, zdown, kind):
    m = rq.new_model(ctx.path('g.epc'))
    crs = rq.add_crs(m, z_inc_down = zdown)
    s = Bent(lean, bend, 2, 2, 2, up = up, parts = KINDS[kind](2, 2))
    g = ijk.build(m, crs, s)
    g.k_direction_is_down = None
    got = g.set_k_direction_from_points()
    expect(bool(got) == (up != zdown) == bool(g.k_direction_is_down), 'K direction is down', got, 'z up', up, 'z down', zdown)
    was = g.pillar_shape
    shape = 'curved' if bend else ('vertical' if lean == (0.0, 0.0) else 'straight')
    expect(g.actual_pillar_shape() == shape and g.pillar_shape == was, 'shape of pillars', g.actual_pillar_shape(), shape)
    expect(g.actual_pillar_shape(tolerance = 6.0) == ('vertical' if lean == (0.0, 0.0) else 'straight'), 'shape with large tolerance')
    expect(g.actual_pillar_shape(patch_metadata = True) == shape == g.pillar_shape, 'pillar shape patched')
    expect(rq.near(g.corner_points(), s.cp), 'corner points after asking')
    ctx.state((lean, bend, up, zdown, kind))


def direction(ctx):
    for lean in ((0.0, 0.0), (3.0, 0.0), (-4.0, 0.1), (0.0, -5.0)):
        for bend in (0.0, 0.5, -2.0):
            for up in (False, True):
                for zdown in (False, True):
                    for kind in KINDS:
                        ctx.run((lean, bend, up, zdown, kind), lambda: run_direction(ctx, lean, bend, up, zdown, kind))


def run_active(ctx, tidx, times, at, pinch):
    """Active property chosen by the time index of the geometry, else the one without a time."""
    import resqpy.property as rqp
    import resqpy.time_series as rts
    import resqpy.grid as grr
    path = ctx.path('g.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m)
    ts = rts.TimeSeries(m, first_timestamp = '2000-01-01', yearly = 3)
    ts.create_xml()
    s = ijk.Spec(2, 2, 2, pinch = {(1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 1)} if pinch else ())
    g = ijk.build(m, crs, s)
    g.title = 'active'
    g.time_index = tidx
    g.time_series_uuid = None if tidx is None else ts.uuid
    ijk.store(g)
    arrs = {}
    for n, t in enumerate(times):
        a = np.ones((2, 2, 2), dtype = bool)
        a[0].flat[n] = False
        a[1, 1, 1] = False
        arrs[t] = a
        rqp.Property.from_array(m, a, 'x', 'ACTIVE', g.uuid, property_kind = 'active', discrete = True, dtype = bool, time_index = t,
                                time_series_uuid = None if t is None else ts.uuid)
    m.store_epc()
    rq.close(m)
    m = rq.open_model(path)
    h = grr.Grid(m, uuid = g.uuid)
    if len(times) == 1:
        a = arrs[times[0]]
    else:
        a = arrs.get(tidx)
    want = np.zeros((2, 2, 2), dtype = bool) if a is None else ~a
    got = h.extract_inactive_mask(check_pinchout = pinch)
    if pinch:
        want = want.copy()
        want[1] = True
    expect(np.array_equal(got, want), 'inactive cells', got.tolist(), want.tolist())
    expect(h.cell_count(active_only = True) == 8 - want.sum(), 'active count')
    rq.close(m)
    ctx.state((tidx, times, pinch))


def active(ctx):
    for tidx in (None, 0, 1, 2):
        for n in range(4):
            for times in itertools.permutations((None, 0, 1, 2), n):
                for pinch in (False, True):
                    if len(times) == 1 and times[0] != tidx:
                        continue
                    ctx.run((tidx, times, pinch), lambda: run_active(ctx, tidx, times, None, pinch))


def throws_at_i_faces(ctx):
    for n in range(3):
        ctx.run(n, lambda: run_faults(ctx, Growing(2, 2, 2 + n, parts = KINDS['a line'](2, 2 + n)), ('I faults', n), True))


def jobs(tier):
    js = [(f'pinched {k}', pinches, dict(share = k, of = 8)) for k in range(8)]
    js += [(f'faults {k}', faults, dict(share = k, of = 4)) for k in range(4)]
    js += [('faults 1xn', faults, dict(share = 0, of = 1, nj = 1, ni = 4)), ('faults nx1', faults, dict(share = 0, of = 1, nj = 4, ni = 1)),
           ('faults of one layer', faults, dict(share = 0, of = 3, nk = 1)), ('faults of wider grids', faults, dict(share = 0, of = 1, nj = 3, ni = 3, which = ((1, 1), (1, 2), (2, 3))))]
    js += [('volume units', units, {}), ('from properties', from_property, {}), ('find cells', find, {}), ('indices', indices, {}),
           ('flips', flips, {}), ('directions', direction, {}), ('active property', active, {}), ('throws at I faces', throws_at_i_faces, {})]
    js += [(f'pixels {k}', pixels, dict(share = k, of = 4)) for k in range(4)]
    if tier == 'thorough':
        js += [(f'pinched cells of 12 {k}', pinches, dict(share = k, of = 32, base = (3, 2, 2))) for k in range(32)]
        js += [(f'faults of 2x3 {k}', faults, dict(share = k, of = 32, ni = 3)) for k in range(32)]
    return js
