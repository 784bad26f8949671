"""C24: transmissibilities, and the juxtaposition of cells across faults, follow from the geometry and the properties.

All pairs of throws of a lattice at the two ends of a fault, with layers of even and uneven thickness; all kinds of
faulted, gapped and pinched grids; all subsets of the properties which modify transmissibility; all short histories of
questions to one grid object. The oracles are plain Python: the overlap of two quadrilaterals as an exact integral, and
Darcy's law for half a cell from its eight corners."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C24'
TITLE = 'Transmissibilities and fault juxtaposition follow from geometry and properties'
BOUNDS = dict(quick = '289 pairs of end throws x 8 thickness patterns x 2 axes; 8 faulted grids x gaps x inactive; all subsets of 4 modifiers; '
              'all pairs of 10 questions',
              thorough = '625 pairs of end throws x 8 thickness patterns x 2 axes; 8 faulted grids x gaps x inactive; all subsets of 4 modifiers; '
              'all triples of 10 questions')

FACE_NUMBER = {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}  # as used by this package
FACE = {v: k for k, v in FACE_NUMBER.items()}
DARCY = {'m': 8.527017e-5, 'ft': 1.127116e-3}


def warm(tier):
    import resqpy.fault, resqpy.grid, resqpy.model, resqpy.olio.transmission, resqpy.property, resqpy.unstructured  # noqa


# ---------------------------------------------------------------------------------------------------------------------
# oracles

def half_cell(cp, perm, ntg, darcy, tol = 1.0e-6):
    """Half cell transmissibilities (3, 2) for corner points (2, 2, 2, 3), permeability in k, j, i."""
    out = np.empty((3, 2))
    for axis in range(3):
        c = np.moveaxis(cp, axis, 0)
        half = 0.5 * np.abs(np.mean(c[1], axis = (0, 1)) - np.mean(c[0], axis = (0, 1)))
        for side in range(2):
            f = c[side]
            area = 0.0
            for a, b, d in ((f[0, 0], f[0, 1], f[1, 1]), (f[0, 0], f[1, 1], f[1, 0])):
                area = area + 0.5 * np.abs(np.cross(b - a, d - a))
            d2 = np.dot(half, half)
            t = np.dot(half, area) * perm[axis] / d2 if d2 >= tol * tol else np.nan
            out[axis, side] = darcy * t * (1.0 if axis == 0 else ntg)
    return out


def half_cells(s, perms, ntg, darcy, tol = 1.0e-6):
    out = np.empty(s.shape + (3, 2))
    for c in np.ndindex(s.shape):
        out[c] = half_cell(s.cp[c], [p[c] for p in perms], 1.0 if ntg is None else (ntg if isinstance(ntg, float) else ntg[c]), darcy, tol)
    return out


def columns_split(s, c, d):
    """Whether neighbouring columns c and d (d later) do not share both coordinate lines between them."""
    if d[0] > c[0]:
        ends = ((d[0], d[1]), (d[0], d[1] + 1))
    else:
        ends = ((d[0], d[1]), (d[0] + 1, d[1]))
    return any(s.group_of(j, i, c) != s.group_of(j, i, d) for j, i in ends)


def join(a, b, mult = 1.0, extra = 0.0, tol = 1.0e-6):
    if np.isnan(a) or np.isnan(b) or a < tol or b < tol:
        return 0.0
    return mult / (1.0 / a + extra + 1.0 / b)


def neighbours(s, half, mults = None, absolute = None, tol = 1.0e-6):
    """Transmissibilities of the faces in k, j, i."""
    out = []
    for axis in range(3):
        e = list(s.shape)
        e[axis] += 1
        t = np.zeros(e)
        for c in np.ndindex(s.shape):
            d = list(c)
            d[axis] += 1
            d = tuple(d)
            if d[axis] >= s.shape[axis]:
                continue
            if axis == 0 and s.gaps[c[0]] or axis > 0 and columns_split(s, c[1:], d[1:]):
                continue
            mult, extra = 1.0, 0.0
            if mults is not None and mults[axis] is not None:
                mult = mults[axis][d]
                if np.isnan(mult):
                    continue
            if absolute is not None and absolute[axis] is not None:
                a = absolute[axis][d]
                if a <= 0.0:
                    continue
                extra = 0.0 if np.isnan(a) or np.isinf(a) else 1.0 / a
            t[d] = join(half[c + (axis, 1)], half[d + (axis, 0)], mult, extra, tol)
        out.append(t)
    return out


def overlap(m, p):
    """Area of overlap of two quadrilaterals between a pair of parallel lines, as fractions of each: ((top, base), (top, base))."""
    lines = [(m[0][0], m[1][0]), (m[0][1], m[1][1]), (p[0][0], p[1][0]), (p[0][1], p[1][1])]
    xs = {0.0, 1.0}
    for (a, b), (c, d) in itertools.combinations(lines, 2):
        den = (b - a) - (d - c)
        if den and 0.0 < (c - a) / den < 1.0:
            xs.add((c - a) / den)
    xs = sorted(xs)

    def height(x):
        v = [a + (b - a) * x for a, b in lines]
        return max(0.0, min(v[1], v[3]) - max(v[0], v[2]))

    area = sum(0.5 * (height(a) + height(b)) * (b - a) for a, b in zip(xs, xs[1:]))
    whole = [0.5 * (q[0][1] - q[0][0] + q[1][1] - q[1][0]) for q in (m, p)]
    return tuple(area / w if w > 1.0e-6 else 0.0 for w in whole)


def juxtaposed(s, dead = ()):
    """{(cell, axis, side, cell, axis, side): fractions} across all split column faces; coordinate lines are parallel."""
    nk, nj, ni = s.shape
    direction = None
    for p in ((0, 0),):
        v = s.node(s.nn - 1, 0, 0, 0) - s.node(0, 0, 0, 0)
        direction = v / np.linalg.norm(v)
    out = {}
    for axis in (1, 2):
        for c in np.ndindex((nj, ni)):
            d = (c[0] + 1, c[1]) if axis == 1 else (c[0], c[1] + 1)
            if d[0] >= nj or d[1] >= ni or not columns_split(s, c, d):
                continue

            def face(k, col, side):
                f = s.cp[(k,) + col]  # kp, jp, ip
                f = f[:, side, :] if axis == 1 else f[:, :, side]
                return [[float(np.dot(f[kp, e], direction)) for kp in range(2)] for e in range(2)]

            for k, l in itertools.product(range(nk), repeat = 2):
                if (k,) + c in dead or (l,) + d in dead:
                    continue
                fr = overlap(face(k, c, 1), face(l, d, 0))
                if max(fr) > 1.0e-9:
                    out[(k,) + c, axis, 1, (l,) + d, axis, 0] = fr
    return out


class Fault(ijk.Spec):
    """Two columns on either side of a fault; thickness of the layers, on each side, at each end; throw at each end."""

    def __init__(self, axis, throws, thick, gaps = None, lean = 0.0, up = False):
        self.axis, self.throws, self.thick = axis, throws, thick
        nj, ni = (2, 1) if axis == 1 else (1, 2)
        parts = {}
        for e in range(2):
            parts[(1, e) if axis == 1 else (e, 1)] = [[(0, 0)], [(1, 0) if axis == 1 else (0, 1)]]
        super().__init__(len(thick[0][0]), nj, ni, parts = parts, gaps = gaps, lean = lean, up = up)

    def node(self, n, j, i, g):
        across, end = (j, i) if self.axis == 1 else (i, j)
        side = 1 if across == 2 or g == 1 else 0
        z = self.throws[end] if side else 0.0
        for k, gap in self.intervals[:n]:
            z += 0.6 if gap else self.thick[side][end][k]
        if self.up:
            z = -z
        return np.array((100.0 + 30.0 * i + self.lean * z, 200.0 + 40.0 * j - 0.5 * self.lean * z, 1000.0 + z))


def found(gcs, fa, shape):
    gcs.cache_arrays()
    out = {}
    expect(len(gcs.cell_index_pairs) == gcs.count == len(gcs.face_index_pairs) == len(fa) == len(gcs.feature_indices), 'number of connections')
    for n in range(gcs.count):
        a, b = [tuple(int(x) for x in np.unravel_index(int(q), shape)) for q in gcs.cell_index_pairs[n]]
        fm, fp = [FACE[int(q)] for q in gcs.face_index_pairs[n]]
        key = (a,) + fm + (b,) + fp
        expect(key not in out, 'a pair of faces is present twice', key)
        out[key] = tuple(float(x) for x in fa[n]) if np.ndim(fa[n]) else float(fa[n])
    return out


def check_juxta(got, want, tol = 2.0e-3):
    for key in set(got) | set(want):
        if key not in want:
            expect(max(got[key]) < tol, 'faces are not juxtaposed', key, got[key])
        elif key not in got:
            expect(max(want[key]) < tol, 'juxtaposed faces are missing', key, want[key])
        else:
            expect(rq.near(np.array(got[key]), np.array(want[key]), tol), 'fractions', key, 'are', got[key], 'should be', want[key])


# ---------------------------------------------------------------------------------------------------------------------
# juxtaposition

THICK = {
    'one': [[[2.0], [2.0]], [[2.0], [2.0]]],
    'even': [[[2.0, 2.0], [2.0, 2.0]], [[2.0, 2.0], [2.0, 2.0]]],
    'thin and thick': [[[1.0, 3.0, 0.5]] * 2] * 2,
    'growing': [[[1.0, 3.0], [2.0, 1.5]]] * 2,
    'differing': [[[1.0, 3.0], [1.0, 3.0]], [[2.0, 1.5], [2.0, 1.5]]],
    'all differ': [[[1.0, 3.0], [2.0, 1.0]], [[2.0, 1.5], [1.0, 2.5]]],
    'pinched': [[[2.0, 0.0, 1.5], [2.0, 0.0, 1.5]]] * 2,
    'wedge': [[[2.0, 1.0, 1.5], [1.5, 0.0, 2.0]]] * 2
}


def do_throws(ctx, axis, kind, span):
    from resqpy.olio.transmission import fault_connection_set
    thick = THICK[kind]
    nk = len(thick[0][0])

    def case(lean, up, gaps):
        m = rq.new_model(ctx.path('t.epc'))
        crs = rq.add_crs(m)
        step = 6.0 / (span - 1)
        for a, b in itertools.product(range(span), repeat = 2):
            if (lean or up or gaps) and (a + b) % 3:
                continue
            throws = (-3.0 + a * step, -3.0 + b * step + 0.125)
            s = Fault(axis, throws, thick, gaps = gaps, lean = lean, up = up)
            g = ijk.build(m, crs, s)
            with about(('throws', throws)):
                want = juxtaposed(s)
                gcs, fa = fault_connection_set(g)
                if gcs is None:
                    expect(not want or max(max(f) for f in want.values()) < 2.0e-3, 'no connections', want)
                    expect(fa is None, 'fractions without connections')
                else:
                    check_juxta(found(gcs, fa, s.shape), want)
                    expect(np.all(fa >= 0.0) and np.all(fa <= 1.0), 'fractions out of range')
                ctx.outcome(len(want))
            ctx.step()
        ctx.state((axis, kind, lean, up, gaps))

    for lean, up, gaps in ((0.0, False, None), (0.2, False, None), (0.0, True, None), (0.0, False, (True,) * (nk - 1))):
        if gaps == ():
            continue
        ctx.run(dict(axis = axis, kind = kind, lean = lean, up = up, gaps = gaps), case, lean, up, gaps)


class Upright(ijk.Spec):
    pass


def specs():
    from mc.props.c15 import KINDS
    for nk, nj, ni in ((2, 2, 2), (3, 2, 2), (2, 1, 3), (2, 3, 1)):
        for kind in KINDS:
            if kind == 'a line' and ni == 1:
                continue
            for gaps in ((False,) * (nk - 1), (True,) + (False,) * (nk - 2)):
                yield (nk, nj, ni, kind, gaps), lambda **kw: ijk.Spec(nk, nj, ni, parts = KINDS[kind](nj, ni), gaps = gaps, **kw)


def do_grids(ctx, share, of):
    """Faulted grids, with inactive cells: connection set of the grid, with transmissibilities, which are then stored."""
    from resqpy.fault import GridConnectionSet
    from resqpy.property import PropertyCollection

    def case(mk, dead, skip, store):
        s = mk(lean = 0.0, throw = 1.7)
        m, crs, g, perms, ntg = with_perms(ctx, s)
        g.inactive = np.zeros(s.shape, dtype = bool)
        for c in dead:
            g.inactive[c] = True
        half = half_cells(s, perms, ntg, DARCY['m'])
        want = juxtaposed(s, dead if skip else ())
        gcs, tr = g.fault_connection_set(skip_inactive = skip, compute_transmissibility = True, add_to_model = store)
        if gcs is None:
            expect(not want and tr is None, 'no connections', want)
            return
        if store:
            uuid = gcs.uuid
            m.store_epc()
            m = rq.open_model(m.epc_file)
            gcs = GridConnectionSet(m, uuid = uuid)
            pc = PropertyCollection(support = gcs)
            stored = pc.single_array_ref(property_kind = 'transmissibility', indexable = 'faces')
            expect(stored is not None and rq.near(stored, tr, 1.0e-6), 'stored transmissibilities', stored, tr)
            expect(pc.uom_for_part(pc.parts()[0]) == 'm3.cP/(kPa.d)', 'units of stored transmissibilities')
        got = found(gcs, tr, s.shape)
        expect({k for k, f in want.items() if min(f) > 2.0e-3} <= set(got), 'connections missing')
        for key, t in got.items():
            f = want.get(key, (0.0, 0.0))
            a, b = half[key[0] + key[1:3]], half[key[3] + key[4:]]
            w = join(a * f[0], b * f[1], tol = 1.0e-5 * 1.0e-4)
            expect(rq.near(t, w, 1.0e-3 * (a + b)) or abs(t - w) < 0.005 * w, 'transmissibility', key, t, 'should be', w)
        ctx.state((mk, dead, skip))
        rq.close(m)

    for n, (key, mk) in enumerate(specs()):
        if n % of != share:
            continue
        last = (key[0] - 1, key[1] - 1, key[2] - 1)
        for dead in ((), ((0, 0, 0),), (last, (0, 0, 0))):
            for skip in (True, False):
                for store in (False, True):
                    if store and (not skip or len(dead) == 1):
                        continue
                    ctx.run(dict(grid = key, inactive = dead, skip = skip, store = store), case, mk, dead, skip, store)


def do_missing(ctx):
    """Some coordinate lines have no geometry."""
    from resqpy.olio.transmission import fault_connection_set

    def case(nj, ni, kind, gone):
        from mc.props.c15 import KINDS
        base = ijk.Spec(2, nj, ni, parts = KINDS[kind](nj, ni))
        holes = [(p, l, n) for p, l in gone for n in range(base.nn)]
        s = ijk.Spec(2, nj, ni, parts = KINDS[kind](nj, ni), holes = holes, lean = 0.0, throw = 1.2)
        m = rq.new_model(ctx.path('h.epc'))
        g = ijk.build(m, rq.add_crs(m), s)
        whole = ijk.Spec(2, nj, ni, parts = KINDS[kind](nj, ni), lean = 0.0, throw = 1.2)
        lost = {c for c in np.ndindex(s.shape) if np.any(np.isnan(s.cp[c]))}
        want = {}
        for k, f in juxtaposed(whole).items():
            axis = k[1]
            a = s.cp[k[0]][:, 1] if axis == 1 else s.cp[k[0]][:, :, 1]
            b = s.cp[k[3]][:, 0] if axis == 1 else s.cp[k[3]][:, :, 0]
            if not np.any(np.isnan(a)) and not np.any(np.isnan(b)):
                want[k] = f
        gcs, fa = fault_connection_set(g)
        check_juxta({} if gcs is None else found(gcs, fa, s.shape), want)
        ctx.state((nj, ni, kind, tuple(gone)))
        ctx.outcome(len(lost))

    from mc.props.c15 import KINDS
    for nj, ni, kind in ((2, 1, 'all apart'), (1, 2, 'all apart'), (2, 2, 'all apart'), (2, 2, 'a line')):
        base = ijk.Spec(2, nj, ni, parts = KINDS[kind](nj, ni))
        lines = [(p, l) for p in sorted(base.groups) for l in range(len(base.groups[p]))]
        for gone in [[l] for l in lines] + ([list(q) for q in itertools.combinations(lines, 2)] if nj * ni == 2 else []):
            ctx.run(dict(grid = (nj, ni, kind), gone = gone), case, nj, ni, kind, gone)


# ---------------------------------------------------------------------------------------------------------------------
# half cells and neighbouring cells

def arrays_for(shape, seed = 0):
    n = np.arange(np.prod(shape), dtype = float).reshape(shape)
    perms = [10.0 + 3.0 * n + seed, 150.0 - 7.0 * n + seed, 100.0 + 5.0 * ((3 * n) % 7) + seed]  # k, j, i
    return perms, 0.5 + 0.04 * ((5 * n) % 11)


def add_prop(m, g, a, title, kind, indexable = 'cells', uom = None, **kw):
    from resqpy.property import Property
    return Property.from_array(m, np.array(a), source_info = 'mc', keyword = title, support_uuid = g.uuid, property_kind = kind,
                               indexable_element = indexable, uom = uom, **kw).uuid


def add_perms(m, g, perms, ntg, realization = None):
    for f, p in zip('KJI', perms):
        if p is not None:
            add_prop(m, g, p, 'PERM' + f, 'rock permeability', uom = 'mD', facet_type = 'direction', facet = f, realization = realization)
    if ntg is not None:
        add_prop(m, g, ntg, 'NTG', 'net to gross ratio', uom = 'm3/m3', realization = realization)


def with_perms(ctx, s, units = 'm', perms = None, ntg = None, props = ()):
    from resqpy.grid import Grid
    m = rq.new_model(ctx.path('p.epc'), h5 = True)
    crs = rq.add_crs(m, xy_units = units, z_units = units)
    g = ijk.store(ijk.build(m, crs, s))
    if perms is None:
        perms, ntg = arrays_for(s.shape)
    add_perms(m, g, perms, ntg)
    for kw in props:
        add_prop(m, g, **kw)
    return m, crs, Grid(m, uuid = g.uuid), perms, ntg


def do_half(ctx, share, of):
    from resqpy.olio.transmission import half_cell_t
    from resqpy.grid import Grid

    def check(got, want, what):
        expect(got is not None and np.shape(got) == want.shape, what, 'shape', np.shape(got))
        for at in np.ndindex(want.shape):
            a, b = float(got[at]), want[at]
            expect(np.isnan(a) if np.isnan(b) else rq.near(a, b, 1.0e-9 + 1.0e-6 * abs(b)), what, 'half cell transmissibility', at, a, 'should be', b)

    def case(mk, pinch, holes, units, lean):
        s = mk(lean = lean, pinch = pinch, holes = holes)
        perms, ntg = arrays_for(s.shape)
        m, crs, g, _, _ = with_perms(ctx, s, units, perms, ntg)
        darcy = DARCY[units[:2].rstrip('[')] if units != 'm' else DARCY['m']
        want = half_cells(s, perms, ntg, darcy)
        check(g.half_cell_transmissibility(), want, 'of grid')
        check(g.half_cell_transmissibility(), want, 'of grid, again')
        g = Grid(m, uuid = g.uuid)
        check(g.half_cell_transmissibility(use_property = False), want, 'of grid, without use of property')
        g = Grid(m, uuid = g.uuid)
        check(half_cell_t(g), want, 'from properties')
        check(half_cell_t(g, *perms, ntg = 0.5), half_cells(s, perms, 0.5, darcy), 'constant net to gross')
        check(half_cell_t(g, *perms[::-1], ntg = ntg, darcy_constant = 2.0), half_cells(s, perms[::-1], ntg, 2.0), 'given permeabilities')
        check(half_cell_t(g, perm_j = perms[0]), half_cells(s, [perms[0], perms[0], perms[2]], ntg, darcy), 'one permeability given')
        check(half_cell_t(g, tolerance = 1.0), half_cells(s, perms, ntg, darcy, 1.0), 'with tolerance')
        g = Grid(m, uuid = g.uuid)
        check(g.half_cell_transmissibility(tolerance = 1.0), half_cells(s, perms, ntg, darcy, 1.0), 'of grid, with tolerance')
        expect(np.geterr()['divide'] == 'warn', 'numpy settings')
        ctx.state((units, lean, pinch, holes))
        rq.close(m)

    n = 0
    for key, mk in specs():
        nk, nj, ni, kind, gaps = key
        for pinch in ((), ((1, 0, 0),), tuple((0, j, i) for j in range(nj) for i in range(ni))):
            for holes in ((), tuple(((0, 0), 0, q) for q in range(nk + 1 + sum(gaps)))):
                for units, lean in (('m', 0.0), ('ft', 0.02), ('ft[US]', 0.0)):
                    n += 1
                    if n % of == share and (units != 'ft[US]' or not pinch):
                        ctx.run(dict(grid = key, pinch = pinch, holes = len(holes), units = units, lean = lean), case, mk, pinch, holes, units, lean)


def do_box(ctx):
    """Cells which are boxes: k A / d; turned about the vertical, and regular grids."""
    from resqpy.grid import Grid, RegularGrid
    import resqpy.olio.transmission as rqtr

    def case(d, turn, irregular, units, tilt):
        shape = (2, 2, 3)
        m = rq.new_model(ctx.path('b.epc'), h5 = True)
        crs = rq.add_crs(m, xy_units = units, z_units = units)
        a = np.radians(turn)
        e = np.array([(0.0, 0.0, d[2]), (-d[1] * np.sin(a), d[1] * np.cos(a), 0.0), (d[0] * np.cos(a), d[0] * np.sin(a), 0.0)])
        if tilt:
            t = np.radians(tilt)
            e = e @ np.array(((np.cos(t), 0.0, np.sin(t)), (0.0, 1.0, 0.0), (-np.sin(t), 0.0, np.cos(t))))
        g = RegularGrid(m, extent_kji = shape, origin = (10.0, 20.0, 30.0), crs_uuid = crs.uuid, dxyz_dkji = e, as_irregular_grid = irregular,
                        title = 'b')
        g.write_hdf5()
        g.create_xml()
        perms, ntg = arrays_for(shape)
        add_perms(m, g, perms, ntg)
        new = lambda: (Grid if irregular else RegularGrid)(m, uuid = g.uuid)
        c = DARCY[units]
        lengths = np.array((d[2], d[1], d[0]))
        want = np.empty(shape + (3, 2))
        for axis in range(3):
            area = np.prod(lengths) / lengths[axis]
            want[..., axis, 0] = want[..., axis, 1] = c * perms[axis] * area / (0.5 * lengths[axis]) * (1.0 if axis == 0 else ntg)
        h = new().half_cell_transmissibility()
        expect(np.shape(h) == want.shape and rq.near(h / want, np.ones(want.shape), 1.0e-6), 'half cell transmissibilities', h[0, 0, 0], want[0, 0, 0])
        raw = rqtr.half_cell_t(new())
        w = want if irregular else want[..., 0]
        expect(np.shape(raw) == w.shape and rq.near(raw / w, np.ones(w.shape), 1.0e-6), 'half cell function', np.shape(raw))
        for q in (new().transmissibility(), new().transmissibility(use_tr_properties = False)):
            for axis in range(3):
                t = q[axis]
                up = [slice(None)] * 3
                lo, hi, mid = up[:], up[:], up[:]
                lo[axis], hi[axis], mid[axis] = slice(0, -1), slice(1, None), slice(1, -1)
                hm, hp = want[..., axis, 1][tuple(lo)], want[..., axis, 0][tuple(hi)]
                expect(rq.near(t[tuple(mid)] / (hm * hp / (hm + hp)), np.ones(hm.shape), 1.0e-6), 'transmissibility', axis)
                ends = up[:]
                ends[axis] = [0, -1]
                expect(np.all(t[tuple(ends)] == 0.0), 'outer faces', axis)
        ctx.state((d, turn, irregular, units, tilt))
        rq.close(m)

    for d in ((10.0, 10.0, 10.0), (10.0, 20.0, 5.0), (30.0, 1.0, 2.0)):
        for turn in (0.0, 30.0, 90.0, 135.0, 200.0):
            for irregular in (True, False):
                if turn and not irregular:  # a regular grid which is not aligned cannot be stored as one
                    continue
                for units in ('m', 'ft'):
                    for tilt in (0.0, 20.0, -35.0) if irregular else (0.0,):
                        ctx.run(dict(d = d, turn = turn, irregular = irregular, units = units, tilt = tilt), case, d, turn, irregular, units, tilt)


def same_tr(got, want, what):
    expect(got is not None and len(got) == 3, what)
    for axis in range(3):
        expect(np.shape(got[axis]) == want[axis].shape, what, 'KJI'[axis], 'shape', np.shape(got[axis]))
        for at in np.ndindex(want[axis].shape):
            a, b = float(got[axis][at]), float(want[axis][at])
            expect(abs(a - b) <= 1.0e-9 + 1.0e-5 * abs(b), what, 'KJI'[axis], 'transmissibility', at, a, 'should be', b)


def do_neighbours(ctx, share, of):

    def case(mk, pinch, holes, lean):
        s = mk(lean = lean, pinch = pinch, holes = holes)
        m, crs, g, perms, ntg = with_perms(ctx, s)
        from resqpy.grid import Grid
        half = half_cells(s, perms, ntg, DARCY['m'])
        same_tr(g.transmissibility(), neighbours(s, half), 'first')
        same_tr(g.transmissibility(), neighbours(s, half), 'again')
        tol = float(np.nanmedian(half))
        for use in (True, False):
            g = Grid(m, uuid = g.uuid)
            same_tr(g.transmissibility(tolerance = tol, use_tr_properties = use), neighbours(s, half, tol = tol), 'with tolerance')
        g = Grid(m, uuid = g.uuid)
        same_tr(g.transmissibility(use_tr_properties = False), neighbours(s, half), 'without properties')
        expect(np.geterr()['divide'] == 'warn', 'numpy settings')
        ctx.state((pinch, holes, lean))
        rq.close(m)

    n = 0
    for key, mk in specs():
        nk, nj, ni, kind, gaps = key
        for pinch in ((), ((1, 0, 0),), ((0, 0, 0), (1, nj - 1, ni - 1))):
            for holes in ((), tuple(((0, 0), 0, q) for q in range(nk + 1 + sum(gaps)))):
                for lean in (0.0, 0.02):
                    n += 1
                    if n % of == share:
                        ctx.run(dict(grid = key, pinch = pinch, holes = len(holes), lean = lean), case, mk, pinch, holes, lean)


# ---------------------------------------------------------------------------------------------------------------------
# properties which modify or replace

def face_shapes(shape):
    nk, nj, ni = shape
    return ((nk + 1, nj, ni), (nk, nj + 1, ni), (nk, nj, ni + 1))


def face_values(shape, salt, odd = ()):
    out = []
    for axis, e in enumerate(face_shapes(shape)):
        a = 0.1 + 0.05 * ((np.arange(np.prod(e)) * (3 + axis) + salt) % 17).reshape(e)
        for n, v in enumerate(odd):
            mid = [x // 2 for x in e]
            mid[axis] = 1
            mid[(axis + 1) % 3] = min(n, e[(axis + 1) % 3] - 1)
            a[tuple(mid)] = v
        out.append(a)
    return out


MODES = ('faces multiplier', 'faces per cell multiplier', 'absolute')


def face_props(kind, arrays, present, salt = '', **kw):
    """Arguments of add_prop for the directions which are present."""
    return [dict(a = a, title = kind[:6] + f + salt, kind = kind, indexable = 'faces', uom = 'Euc' if 'mult' in kind else 'm3.cP/(kPa.d)', facet_type = 'direction',
                 facet = f, **kw) for f, a, p in zip('KJI', arrays, present) if p]


def composite(kind, arrays, **kw):
    return [dict(a = np.concatenate([a.flatten() for a in arrays]), title = kind[:6] + 'all', kind = kind, indexable = 'faces',
                 uom = 'Euc' if 'mult' in kind else 'm3.cP/(kPa.d)', **kw)]


def to_six(a):
    """From (..., 3, 2) to the order of faces of a cell in storage."""
    out = np.empty(a.shape[:-2] + (6,))
    for (axis, side), n in FACE_NUMBER.items():
        out[..., n] = a[..., axis, side]
    return out


def mod_specs():
    from mc.props.c15 import KINDS
    yield 'plain', ijk.Spec(3, 2, 2)
    yield 'gap', ijk.Spec(3, 2, 3, gaps = (True, False))
    yield 'faulted', ijk.Spec(2, 2, 2, parts = KINDS['a line'](2, 2))


def do_modifiers(ctx, mode):
    from resqpy.grid import Grid
    odd = {'faces multiplier': (np.nan, 0.0, 2.0), 'absolute': (np.nan, np.inf, 0.0), 'faces per cell multiplier': ()}[mode]

    def case(s, present, whole, use, other):
        mults = face_values(s.shape, 1, odd)
        both = face_values(s.shape, 5, odd)
        props = []
        want_m, want_a, cell_m = None, None, None
        if mode == 'faces multiplier':
            props += face_props('transmissibility multiplier', mults, present)
            if whole:
                props += composite('transmissibility multiplier', both)
            want_m = [mults[x] if present[x] else both[x] if whole else None for x in range(3)]
            if other:
                props += face_props('fault transmissibility', face_values(s.shape, 3), (True,) * 3)
        elif mode == 'absolute':
            props += face_props('fault transmissibility', mults, present)
            want_a = [mults[x] if present[x] else None for x in range(3)]
            if whole:
                props += face_props('mat transmissibility', both, (True, False, False))
                want_a[0] = both[0]
            if other:
                props += face_props('transmissibility multiplier', face_values(s.shape, 3), (True,) * 3)
        else:
            a = 0.1 + 0.07 * ((np.arange(np.prod(s.shape) * 6) * 5) % 13).reshape(s.shape + (3, 2))
            a[0, 0, 0, 0, 1] = np.nan
            a[1, 0, 0, 1, 1] = 0.0
            if whole:
                props.append(dict(a = to_six(a), title = 'fpc', kind = 'transmissibility multiplier', indexable = 'faces per cell', uom = 'Euc'))
                cell_m = np.where(np.isnan(a), 1.0, a)
            if other:
                props += face_props('transmissibility multiplier', mults, present)
        m, crs, g, perms, ntg = with_perms(ctx, s, props = props)
        half = half_cells(s, perms, ntg, DARCY['m'])
        if cell_m is not None:
            half = half * cell_m
        want = neighbours(s, half, want_m, want_a)
        same_tr(g.transmissibility(modifier_mode = mode, use_tr_properties = use), want, mode)
        same_tr(g.transmissibility(modifier_mode = mode, use_tr_properties = use), want, (mode, 'again'))
        ctx.outcome((mode, bool(whole)))
        rq.close(m)

    for name, s in mod_specs():
        for present in itertools.product((True, False), repeat = 3):
            for whole in (False, True):
                for use in (True, False):
                    for other in (False, True):
                        if mode == 'faces per cell multiplier' and not other and not all(present):
                            continue
                        ctx.run(dict(grid = name, present = present, also = whole, use = use, other = other), case, s, present, whole, use, other)
                        ctx.state((name, present, whole, use, other))


def do_stored(ctx):
    """Transmissibilities which are held as properties, some or all of them, for one or more realizations."""
    from resqpy.grid import Grid

    def case(s, present, whole, halves, real):
        tr = [a * 10.0 for a in face_values(s.shape, 2)]
        both = [a * 7.0 for a in face_values(s.shape, 4)]
        given = 0.3 + 0.1 * ((np.arange(np.prod(s.shape) * 6) * 5) % 19).reshape(s.shape + (3, 2))
        kw = dict(realization = 1) if real else {}
        props = face_props('transmissibility', tr, present, **kw)
        if whole:
            props += composite('transmissibility', both, **kw)
        if halves:
            props.append(dict(a = to_six(given), title = 'half', kind = 'transmissibility', indexable = 'faces per cell', uom = 'm3.cP/(kPa.d)', **kw))
        if real:  # another realization, which is not to be used
            props += face_props('transmissibility', [a + 5.0 for a in tr], (True,) * 3, realization = 2, salt = 'x')
        perms, ntg = arrays_for(s.shape)
        m, crs, g, _, _ = with_perms(ctx, s, perms = () if real else perms, ntg = None if real else ntg, props = props)
        if real:
            for r in (1, 2):
                p, q = arrays_for(s.shape, seed = r)
                add_perms(m, g, p, q, realization = r)
            perms, ntg = arrays_for(s.shape, seed = 1)
        computed = half_cells(s, perms, ntg, DARCY['m'])
        plain = neighbours(s, computed)
        half = given if halves else computed
        calc = neighbours(s, half)
        want = [tr[x] if present[x] else both[x] if whole else calc[x] for x in range(3)]
        ask = dict(realization = 1) if real else {}
        new = lambda: Grid(m, uuid = g.uuid)
        same_tr(new().transmissibility(**ask), want, 'with properties')
        same_tr(new().transmissibility(use_tr_properties = False, **ask), plain, 'without properties')
        h = new().half_cell_transmissibility(**ask)
        expect(np.shape(h) == half.shape and rq.near(h, half, 1.0e-6 * np.max(half)), 'half cell transmissibilities')
        h = new().half_cell_transmissibility(use_property = False, **ask)
        expect(np.shape(h) == half.shape and rq.near(h, computed, 1.0e-6 * np.max(half)), 'half cell transmissibilities without properties')
        if real:
            h = new()
            same_tr(h.transmissibility(realization = 2), [a + 5.0 for a in tr], 'other realization')
            same_tr(h.transmissibility(**ask), want, 'after other realization')
        ctx.state((present, whole, halves, real))
        rq.close(m)

    for name, s in mod_specs():
        for present in itertools.product((True, False), repeat = 3):
            for whole in (False, True):
                for halves in (False, True):
                    for real in (False, True):
                        ctx.run(dict(grid = name, present = present, composite = whole, halves = halves, realization = real), case, s, present, whole, halves, real)


QUESTIONS = [dict(), dict(use_tr_properties = False), dict(tolerance = 2.0), dict(modifier_mode = 'faces multiplier'),
             dict(modifier_mode = 'absolute'), dict(modifier_mode = 'faces per cell multiplier'),
             dict(modifier_mode = 'faces multiplier', use_tr_properties = False), dict(realization = 1), 'half', 'half, not property']


def do_histories(ctx, first, depth, stored):
    """All sequences of questions to one grid object; each must be answered as if it were the first."""
    from resqpy.grid import Grid
    from mc.props.c15 import KINDS
    s = ijk.Spec(2, 2, 2, parts = KINDS['a line'](2, 2))

    def ask(g, q):
        if q == 'half':
            return [g.half_cell_transmissibility()]
        if q == 'half, not property':
            return [g.half_cell_transmissibility(use_property = False)]
        return g.transmissibility(**q)

    def case():
        props = face_props('transmissibility multiplier', face_values(s.shape, 1), (True,) * 3)
        props += face_props('fault transmissibility', face_values(s.shape, 3), (True,) * 3)
        a = 0.1 + 0.07 * ((np.arange(np.prod(s.shape) * 6) * 5) % 13).reshape(s.shape + (3, 2))
        props.append(dict(a = to_six(a), title = 'fpc', kind = 'transmissibility multiplier', indexable = 'faces per cell', uom = 'Euc'))
        if stored:
            props += face_props('transmissibility', [3.0 * x for x in face_values(s.shape, 2)], (False, True, False))
            props.append(dict(a = to_six(a) * 5.0, title = 'half', kind = 'transmissibility', indexable = 'faces per cell', uom = 'm3.cP/(kPa.d)'))
        m, crs, g, perms, ntg = with_perms(ctx, s, props = props)
        p, q = arrays_for(s.shape, seed = 1)
        # properties of one realization are also found when no realization is asked for, so this is a model of its own
        alone = [None] * len(QUESTIONS)
        usable = [n for n, q in enumerate(QUESTIONS) if not (isinstance(q, dict) and 'realization' in q)]
        for n in usable:
            alone[n] = [np.array(x) for x in ask(Grid(m, uuid = g.uuid), QUESTIONS[n])]
        if first not in usable:
            return
        for rest in itertools.product(usable, repeat = depth - 1):
            h = Grid(m, uuid = g.uuid)
            with about(('history', first, rest)):
                for n in (first,) + rest:
                    got = ask(h, QUESTIONS[n])
                    for axis, (x, y) in enumerate(zip(got, alone[n])):
                        expect(np.shape(x) == y.shape and np.allclose(x, y, rtol = 1.0e-6, atol = 1.0e-9, equal_nan = True), 'question', QUESTIONS[n], 'is answered differently',
                               axis)
            ctx.step()
            ctx.state((first, rest, stored))
        rq.close(m)

    ctx.run(dict(first = first, depth = depth, stored = stored), case)


# ---------------------------------------------------------------------------------------------------------------------
# connection sets

def do_sets(ctx, share, of):
    """Transmissibilities across connections which were given, with fractions and multipliers."""
    from resqpy.fault import GridConnectionSet
    from resqpy.grid import Grid

    def case(s, faces, fr, mult, two):
        m, crs, g, perms, ntg = with_perms(ctx, s)
        half = [half_cells(s, perms, ntg, DARCY['m'])]
        grids = [g]
        if two:
            s2 = ijk.Spec(2, 1, 2)
            g2 = ijk.store(ijk.build(m, crs, s2))
            perms2, ntg2 = arrays_for(s2.shape, seed = 9)
            add_perms(m, g2, perms2, ntg2)
            grids.append(Grid(m, uuid = g2.uuid))
            half.append(half_cells(s2, perms2, ntg2, DARCY['m']))
        shapes = [tuple(x.extent_kji) for x in grids]
        cells = [list(np.ndindex(x)) for x in shapes]
        pairs = []
        n = 0
        for a in cells[0]:
            for b in (cells[1] if two else cells[0]):
                if a == b and not two:
                    continue
                n += 1
                if n % 5 == 0:
                    pairs.append((a, b))
        gcs = GridConnectionSet(m, grid = grids[0], title = 'c')
        gcs.grid_list = grids
        gcs.count = len(pairs)
        gcs.grid_index_pairs = np.array([(0, 1 if two else 0)] * len(pairs))
        gcs.cell_index_pairs = np.array([[np.ravel_multi_index(a, shapes[0]), np.ravel_multi_index(b, shapes[-1])] for a, b in pairs])
        gcs.face_index_pairs = np.array([[FACE_NUMBER[f] for f in faces]] * len(pairs))
        gcs.feature_indices = np.zeros(len(pairs), dtype = int)
        fi = fault_interpretation(m, 'F1', 0.25 if mult == 'feature' else None)
        gcs.feature_list = [('obj_FaultInterpretation', fi.uuid, 'F1')]
        gcs.write_hdf5()
        gcs.create_xml()
        values = np.ones(len(pairs))
        if mult == 'property':
            values = 0.1 + 0.01 * np.arange(len(pairs))
            add_prop(m, gcs, values, 'mult', 'transmissibility multiplier', 'faces', 'Euc')
            gcs = GridConnectionSet(m, uuid = gcs.uuid)
        elif mult == 'feature':
            values = np.full(len(pairs), 0.25)
        fa = np.array([(fr[0], fr[1] * (0.5 if n % 2 else 1.0)) for n in range(len(pairs))]) if fr else None
        got = gcs.tr_property_array(fa = fa, apply_multipliers = bool(mult))
        expect(len(got) == len(pairs), 'number of values')
        for n, (a, b) in enumerate(pairs):
            ta, tb = half[0][a + faces[0]], half[-1][b + faces[1]]
            if fa is not None:
                if fa[n].min() < 1.0e-4:
                    ta = 0.0
                ta, tb = ta * fa[n, 0], tb * fa[n, 1]
            w = join(ta, tb, values[n], tol = 1.0e-12)
            expect(abs(got[n] - w) <= 1.0e-9 + 1.0e-6 * w, 'transmissibility', a, b, faces, got[n], 'should be', w)
        if mult:
            got = gcs.tr_property_array(fa = fa)
            for n, (a, b) in enumerate(pairs):
                ta, tb = half[0][a + faces[0]], half[-1][b + faces[1]]
                if fa is not None and fa[n].min() < 1.0e-4:
                    ta = 0.0
                w = join(ta * (1.0 if fa is None else fa[n, 0]), tb * (1.0 if fa is None else fa[n, 1]), tol = 1.0e-12)
                expect(abs(got[n] - w) <= 1.0e-9 + 1.0e-6 * w, 'transmissibility without multipliers', a, b, faces, got[n], 'should be', w)
        ctx.state((faces, fr, mult, two))
        rq.close(m)

    s = ijk.Spec(2, 2, 2)
    n = 0
    for faces in itertools.product(sorted(FACE_NUMBER), repeat = 2):
        for fr in (None, (0.5, 0.25), (1.0, 0.0)):
            for mult in (None, 'property', 'feature'):
                for two in (False, True):
                    n += 1
                    if n % of == share and (mult is None or faces[0] != faces[1]):
                        ctx.run(dict(faces = faces, fractions = fr, multiplier = mult, two = two), case, s, faces, fr, mult, two)


def fault_interpretation(m, name, mult):
    import resqpy.organize as rqo
    tbf = rqo.TectonicBoundaryFeature(m, kind = 'fault', feature_name = name)
    tbf.create_xml()
    fi = rqo.FaultInterpretation(m, tectonic_boundary_feature = tbf, title = name, is_normal = True, extra_metadata = {} if mult is None else {'Transmissibility multiplier': mult})
    fi.create_xml()
    return fi


SETS = ('fault', 'pinchout', 'k_gap')


def do_wrappers(ctx, kind, depth):
    """Connection sets of a grid object, asked for repeatedly in different ways."""
    from resqpy.grid import Grid
    from resqpy.property import PropertyCollection
    from resqpy.fault import GridConnectionSet
    from mc.props.c15 import KINDS
    if kind == 'fault':
        s = ijk.Spec(2, 2, 2, parts = KINDS['a line'](2, 2), lean = 0.0, throw = 1.5)
    elif kind == 'pinchout':
        s = ijk.Spec(4, 1, 2, pinch = [(1, 0, 0), (1, 0, 1), (2, 0, 1)], lean = 0.0)
    else:
        s = ijk.Spec(3, 1, 2, gaps = (True, False), shut = [(0, 0, 0), (0, 0, 1)], lean = 0.0)
    dead = (0, 0, 0)
    options = [dict(skip_inactive = a, compute_transmissibility = b, add_to_model = c) for a in (True, False) for b in (True, False) for c in (False, True)]

    def ask(g, kw):
        return getattr(g, kind + '_connection_set')(**kw)

    def case(first, rest):
        m, crs, g, perms, ntg = with_perms(ctx, s)
        half = half_cells(s, perms, ntg, DARCY['m'])
        ina = np.zeros(s.shape, dtype = bool)
        ina[dead] = True
        want = {}
        for skip in (True, False):
            if kind == 'fault':
                w = {k: join(half[k[0] + k[1:3]] * f[0], half[k[3] + k[4:]] * f[1]) for k, f in juxtaposed(s, (dead,) if skip else ()).items() if min(f) > 2.0e-3}
            elif kind == 'pinchout':
                w = {((0, 0, 0), 0, 1, (2, 0, 0), 0, 0): None, ((0, 0, 1), 0, 1, (3, 0, 1), 0, 0): None}
            else:
                w = {((0, 0, i), 0, 1, (1, 0, i), 0, 0): None for i in range(2)}
            if kind != 'fault':
                w = {k: join(half[k[0] + k[1:3]], half[k[3] + k[4:]]) for k in w if not skip or (k[0] != dead and k[3] != dead)}
            want[skip] = w
        g.inactive = ina
        for n in (first,) + rest:
            kw = options[n]
            with about(('asked', n, kw)):
                gcs, tr = ask(g, kw)
                w = want[kw['skip_inactive']]
                expect(gcs is not None, 'no connection set')
                if kw['compute_transmissibility']:
                    expect(tr is not None, 'no transmissibilities')
                if tr is not None:
                    expect(len(tr) == gcs.count, 'number of transmissibilities', len(tr), 'connections', gcs.count)
                    got = found(gcs, tr, s.shape)
                    expect(set(w) <= set(got), 'connections missing', set(w) - set(got))
                    for key, t in got.items():
                        x = w.get(key, 0.0)
                        expect(abs(t - x) <= 0.01 * x + 1.0e-4, 'transmissibility', key, t, 'should be', x)
                else:
                    got = found(gcs, np.ones(gcs.count), s.shape)
                    expect(set(w) <= set(got) and (kind == 'fault' or set(w) == set(got)), 'connections', set(got), 'should be', set(w))
                if kw['add_to_model']:
                    again = GridConnectionSet(m, uuid = gcs.uuid)
                    expect(again.count == gcs.count, 'connection set in model')
                    if kw['compute_transmissibility']:
                        pc = PropertyCollection(support = again)
                        a = pc.single_array_ref(property_kind = 'transmissibility', indexable = 'faces')
                        expect(a is not None and rq.near(a, tr, 1.0e-6), 'transmissibility property in model', a)
        ctx.step(1 + len(rest))
        rq.close(m)

    for seq in itertools.product(range(len(options)), repeat = depth):
        ctx.run(dict(kind = kind, seq = seq), case, seq[0], seq[1:])
        ctx.state((kind, seq))


# ---------------------------------------------------------------------------------------------------------------------
# prisms

def do_prisms(ctx):
    from resqpy.surface import Surface
    from resqpy.unstructured import VerticalPrismGrid
    import resqpy.olio.transmission as rqtr
    base = np.array([(0.0, 0.0), (30.0, 5.0), (10.0, 40.0), (45.0, 35.0), (60.0, -10.0)])
    tris = {'one': [(0, 1, 2)], 'two': [(0, 1, 2), (1, 3, 2)], 'turned': [(2, 0, 1), (3, 2, 1)], 'three': [(1, 2, 0), (2, 1, 3), (4, 3, 1)]}

    def case(name, units, how, dip, ntg_on, up):
        m = rq.new_model(ctx.path('v.epc'), h5 = True)
        crs = rq.add_crs(m, xy_units = units, z_units = units, z_inc_down = not up)
        t = np.array(tris[name])
        xy = base[:np.max(t) + 1]
        levels = (1000.0, 1004.0, 1010.0)
        surfs = []
        for z in levels:
            p = np.zeros((len(xy), 3))
            p[:, :2] = xy
            p[:, 2] = (z + dip * xy[:, 0]) * (-1.0 if up else 1.0)
            q = Surface(m, crs_uuid = crs.uuid, title = 's')
            q.set_from_triangles_and_points(t.copy(), p)
            surfs.append(q)
        g = VerticalPrismGrid.from_surfaces(m, surfs, title = 'v')
        g.write_hdf5()
        g.create_xml()
        nc = len(t)
        n = 2 * nc
        i = np.arange(n, dtype = float)
        k3 = np.stack((100.0 + 10.0 * i, 60.0 + 7.0 * i, 30.0 + 3.0 * i), axis = -1)
        kz = 5.0 + i
        ntg = 0.5 + 0.05 * i if ntg_on else None
        primary, orthogonal, azimuth = 100.0 + 10.0 * i, 20.0 + i, (25.0 * i) % 360.0
        kw = dict(uom = 'mD')
        if how == 'triple':
            add_prop(m, g, k3, 'K3', 'rock permeability', count = 3, **kw)
            add_prop(m, g, kz, 'KZ', 'rock permeability', facet_type = 'direction', facet = 'K', **kw)
        elif how == 'isotropic':
            add_prop(m, g, kz, 'KH', 'rock permeability', **kw)
            k3 = np.repeat(kz, 3).reshape((-1, 3))
        elif how == 'horizontal':
            add_prop(m, g, primary, 'KH', 'rock permeability', facet_type = 'direction', facet = 'horizontal', **kw)
            add_prop(m, g, kz, 'KZ', 'rock permeability', facet_type = 'direction', facet = 'K', **kw)
            k3 = np.repeat(primary, 3).reshape((-1, 3))
        else:
            add_prop(m, g, primary, 'KP', 'rock permeability', facet_type = 'direction', facet = 'primary', **kw)
            add_prop(m, g, orthogonal, 'KO', 'rock permeability', facet_type = 'direction', facet = 'orthogonal', **kw)
            add_prop(m, g, kz, 'KZ', 'rock permeability', facet_type = 'direction', facet = 'K', **kw)
            if how == 'azimuth':
                add_prop(m, g, azimuth, 'AZ', 'plane angle', facet_type = 'direction', facet = 'primary', uom = 'dega')
            elif how == 'radians':
                add_prop(m, g, np.radians(azimuth), 'AZ', 'plane angle', facet_type = 'direction', facet = 'primary', uom = 'rad')
            else:
                azimuth = np.zeros(n)
            k3 = None
        if ntg is not None:
            add_prop(m, g, ntg, 'NTG', 'net to gross ratio', uom = 'm3/m3')
        m.store_epc()
        g = VerticalPrismGrid(rq.open_model(m.epc_file), uuid = g.uuid)
        half = g.half_cell_transmissibility()
        expect(np.shape(half) == (n, 5), 'shape', np.shape(half))
        g.cache_all_geometry_arrays()
        pts = g.points_ref()
        for cell in range(n):
            thick = levels[cell // nc + 1] - levels[cell // nc]
            tri = xy[t[cell % nc]]
            area = 0.5 * abs(np.cross(tri[1] - tri[0], tri[2] - tri[0]))
            w = DARCY[units] * kz[cell] * area / (0.5 * thick)
            for f in range(2):
                expect(abs(half[cell, f] - w) < 1.0e-6 * w, 'vertical', cell, f, half[cell, f], 'should be', w)
            centre = np.mean(tri, axis = 0)
            for f in range(3):
                nodes = g.node_indices_for_face(g.face_indices_for_cell(cell)[f + 2])
                ends = np.unique(np.round(pts[nodes][:, :2], 6), axis = 0)
                expect(len(ends) == 2, 'vertical face')
                v = 0.5 * (ends[0] + ends[1]) - centre
                d = np.linalg.norm(v)
                width = abs(np.cross(ends[1] - ends[0], v / d))
                if k3 is not None:
                    k = k3[cell, f]
                else:
                    a = np.arctan2(v[0], v[1]) - np.radians(azimuth[cell])
                    k = np.sqrt((primary[cell] * np.cos(a))**2 + (orthogonal[cell] * np.sin(a))**2)
                w = DARCY[units] * k * width * thick / d * (1.0 if ntg is None else ntg[cell])
                expect(abs(half[cell, f + 2] - w) < 1.0e-5 * w, 'horizontal', cell, f, half[cell, f + 2], 'should be', w)
        if how == 'triple':
            # held as a property, then found
            m2 = g.model
            add_prop(m2, g, (half * 2.0).flatten(), 'H', 'transmissibility', 'faces per cell', 'm3.cP/(kPa.d)')
            h = VerticalPrismGrid(m2, uuid = g.uuid)
            q = h.half_cell_transmissibility()
            expect(np.shape(q) == (n, 5) and rq.near(q / half, np.full((n, 5), 2.0), 1.0e-6), 'from property')
            q = VerticalPrismGrid(m2, uuid = g.uuid).half_cell_transmissibility(use_property = False)
            expect(np.shape(q) == (n, 5) and rq.near(q / half, np.ones((n, 5)), 1.0e-6), 'not from property')
        ctx.outcome(how)
        ctx.state((name, units, how, dip, ntg_on, up))

    for name in tris:
        for units in ('m', 'ft'):
            for how in ('triple', 'isotropic', 'horizontal', 'pair', 'azimuth', 'radians'):
                for dip in (0.0, 0.1):
                    for ntg_on in (False, True):
                        for up in (False, True):
                            if units == 'ft' and (dip or up):
                                continue
                            ctx.run(dict(triangles = name, units = units, how = how, dip = dip, ntg = ntg_on, up = up), case, name, units, how, dip, ntg_on, up)


def jobs(tier):
    quick = tier == 'quick'
    for axis in (1, 2):
        for kind in THICK:
            yield f'throws {axis} {kind}', do_throws, dict(axis = axis, kind = kind, span = 17 if quick else 25)
    for n in range(8):
        yield f'grids {n}', do_grids, dict(share = n, of = 8)
    yield 'missing', do_missing, {}
    for n in range(8):
        yield f'half {n}', do_half, dict(share = n, of = 8)
        yield f'neighbours {n}', do_neighbours, dict(share = n, of = 8)
    yield 'box', do_box, {}
    for mode in MODES:
        yield f'modifiers {mode}', do_modifiers, dict(mode = mode)
    yield 'stored', do_stored, {}
    for first in range(len(QUESTIONS)):
        for st in (False, True):
            yield f'histories {first} {st}', do_histories, dict(first = first, depth = 2 if quick else 3, stored = st)
    for n in range(8):
        yield f'sets {n}', do_sets, dict(share = n, of = 8)
    for kind in SETS:
        yield f'wrappers {kind}', do_wrappers, dict(kind = kind, depth = 2)
    yield 'prisms', do_prisms, {}
