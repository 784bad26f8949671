"""C25: a grid derived from another grid is the grid which the definition of the derivation says.

Boxes, refinements, coarsenings, unfaulted, tilted, zonal and single layer versions of small IJK grids, made into the same
file or a new one, with properties; looked at as returned and after opening the file again. The oracles are slices, linear
interpolation and sums of a reference corner point array. The mappings between fine and coarse cells, and the handling of
boxes of cells, are enumerated on their own."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect
from mc.props.c15 import KINDS

ID = 'C25'
TITLE = 'Derived grids follow from the geometry and properties of their source'
BOUNDS = dict(quick = 'all boxes of 12 grids; all 15 kinds of split at an inner pillar x all 9 column boxes; 24 refinements x 8 grids; 16 coarsenings; '
              'all subsets of 5 upscaled properties; all layer compositions; all zone vectors of 4 layers; all pairs of boxes of a 3x3x3 lattice; '
              'all compositions of up to 6 fine cells',
              thorough = 'all boxes of 48 grids; all pairs of kinds of split at two pillars; 54 refinements x 12 grids; all coarsenings of 4x2x3; '
              'all compositions of up to 7 fine cells')


def warm(tier):
    import resqpy.derived_model, resqpy.grid, resqpy.model, resqpy.property, resqpy.olio.fine_coarse  # noqa
    import resqpy.olio.box_utilities, resqpy.rq_import, resqpy.well  # noqa


# ---------------------------------------------------------------------------------------------------------------------
# sources

def all_boxes(shape):
    axes = [[(a, b) for a in range(n) for b in range(a, n)] for n in shape]
    for k, j, i in itertools.product(*axes):
        yield np.array([[k[0], j[0], i[0]], [k[1], j[1], i[1]]], dtype = int)


def cut(a, box):
    return a[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]


def pattern(shape, which = 0):
    """Array of distinct values."""
    n = int(np.prod(shape))
    return (np.arange(n).reshape(shape) * 7 % (n * 3 + 1) + 1.0) * (1.0 + which) + 0.25 * which


def dead(shape):
    a = np.zeros(shape, dtype = bool)
    a.reshape(-1)[::3] = True
    return a


# (title, kind, keywords)
def simple_props(s, m):
    from resqpy.property import StringLookup
    sl = StringLookup(m, int_to_str_dict = {k: 'facies %d' % k for k in range(0, 200)}, title = 'facies table')
    sl.create_xml()
    c = s.shape
    return [
        dict(a = pattern(c), title = 'PORO', kind = 'porosity', uom = 'm3/m3'),
        dict(a = pattern(c, 1), title = 'SW', kind = 'saturation', uom = 'm3/m3', facet_type = 'what', facet = 'water'),
        dict(a = (pattern(c) * 2).astype(int), title = 'REGION', kind = 'region initialization', discrete = True, null_value = -7),
        dict(a = (pattern(c) % 5).astype(int), title = 'FACIES', kind = 'facies', discrete = True, string_lookup_uuid = sl.uuid),
        dict(a = pattern(c, 2), title = 'DI', kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'I'),
        dict(a = pattern(c, 3), title = 'DK', kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'K'),
        dict(a = pattern(c, 4), title = 'PORO', kind = 'porosity', uom = 'm3/m3', realization = 0),
        dict(a = pattern(c, 5), title = 'PORO', kind = 'porosity', uom = 'm3/m3', realization = 1),
    ]


def more_props(s, m):
    c = s.shape
    return [
        dict(a = np.stack((pattern(c), pattern(c, 1)), axis = -1), title = 'PAIR', kind = 'continuous', uom = 'm', count = 2),
        dict(a = pattern(c[1:]), title = 'COL', kind = 'continuous', uom = 'm', indexable = 'columns'),
        dict(a = pattern(c[:1]), title = 'LAY', kind = 'continuous', uom = 'm', indexable = 'layers'),
        dict(a = None, title = 'FLAT', kind = 'porosity', uom = 'm3/m3', const_value = 0.3),
    ]


def put(m, g, d):
    from resqpy.property import Property
    d = dict(d)
    a = d.pop('a')
    const = d.pop('const_value', None)
    return Property.from_array(m, None if a is None else a.copy(), source_info = 'mc', keyword = d.pop('title'), support_uuid = g.uuid,
                               property_kind = d.pop('kind'), indexable_element = d.pop('indexable', 'cells'), uom = d.pop('uom', None),
                               const_value = const, **d).uuid


class Source:
    """A stored grid."""

    def __init__(self, ctx, s, inactive = None, props = None, regular = None, crs = None):
        from resqpy.grid import RegularGrid
        self.s, self.inactive = s, inactive
        self.path = ctx.path('source.epc')
        m = rq.new_model(self.path, h5 = True)
        if regular is not None:
            crs = dict(zip(('x_offset', 'y_offset', 'z_offset'), regular.get('offsets', (0.0, 0.0, 0.0))))
            regular = {k: v for k, v in regular.items() if k != 'offsets'}
        crs = rq.add_crs(m, **({} if crs is None else crs))
        self.crs_uuid = crs.uuid
        if regular is not None:
            g = RegularGrid(m, crs_uuid = crs.uuid, title = 'source', **regular)
            g.create_xml()
            self.cp = block(regular)
        else:
            g = ijk.build(m, crs, s, title = 'source')
            if inactive is not None:
                g.inactive = inactive.copy()
            ijk.store(g)
            self.cp = s.cp
        self.props = [] if props is None else props(s, m)
        for p in self.props:
            put(m, g, p)
        m.store_epc()
        rq.close(m)
        self.uuid = g.uuid
        self.new = self.path[:-4] + '_new.epc'

    def call(self, how):
        """Keyword arguments for a derivation, and the file the result should be in."""
        from resqpy.grid import any_grid
        m = rq.open_model(self.path)
        if how == 'file':
            return dict(epc_file = self.path, source_grid = None), self.path
        if how == 'grid':
            return dict(epc_file = self.path, source_grid = any_grid(m, uuid = self.uuid)), self.path
        if how == 'new file':
            return dict(epc_file = self.path, source_grid = None, new_epc_file = self.new), self.new
        assert how == 'grid, new file'
        return dict(epc_file = None, source_grid = any_grid(m, uuid = self.uuid), new_epc_file = self.new), self.new

    def unharmed(self):
        from resqpy.grid import any_grid
        m = rq.open_model(self.path)
        g = any_grid(m, uuid = self.uuid)
        expect(rq.near(g.corner_points(), self.cp), 'source grid changed')
        n = len(m.uuids(obj_type = 'LocalDepth3dCrs'))
        expect(n == 1, 'coordinate reference systems in the source model', n)
        pc = g.extract_property_collection()
        for p in self.props:
            u = [x for x in pc.uuids() if same_prop(m, x, p)]
            expect(len(u) == 1, 'property of source grid', p['title'], len(u))
        rq.close(m)


HOWS = ('file', 'grid', 'new file', 'grid, new file')


def block(r):
    """Corner points of a regular grid."""
    ext = r['extent_kji']
    d = np.array(r.get('dxyz_dkji', None) if r.get('dxyz_dkji', None) is not None else np.diag(r['dxyz'])[::-1], dtype = float)
    cp = np.empty(tuple(ext) + (2, 2, 2, 3))
    for c in np.ndindex(tuple(ext)):
        for e in np.ndindex((2, 2, 2)):
            cp[c + e] = sum((c[a] + e[a]) * d[a] for a in range(3))
    return cp


# ---------------------------------------------------------------------------------------------------------------------
# looking at results

def same_prop(m, uuid, p):
    from resqpy.property import Property
    q = Property(m, uuid = uuid)
    return q.title == p['title'] and q.realization() == p.get('realization')


def check_grid(g, cp, gaps = None, inactive = None, crs_uuid = None, defined = None):
    shape = cp.shape[:3]
    expect(tuple(g.extent_kji) == shape and (g.nk, g.nj, g.ni) == shape, 'extent', g.extent_kji, shape)
    got = g.corner_points()
    expect(got.shape == cp.shape and rq.near(got, cp, 1.0e-4), 'corner points', worst(got, cp))
    g.invalidate_corner_points()
    for c in {(0, 0, 0), tuple(n - 1 for n in shape)}:
        if not np.isnan(cp[c]).any():
            expect(rq.near(g.corner_points(c), cp[c], 1.0e-4), 'corner points of one cell', c)
    if not np.isnan(cp).any():
        expect(rq.near(g.centre_point(), np.mean(cp, axis = (3, 4, 5)), 1.0e-4), 'centre points')
    if gaps is not None:
        has = [bool(x) for x in g.k_gap_after_array] if g.k_gaps else [False] * (shape[0] - 1)
        expect(has == [bool(x) for x in gaps], 'k gaps', has, gaps)
    live = np.ones(shape, dtype = bool) if inactive is None else np.logical_not(inactive)
    if defined is not None:
        live = np.logical_and(live, defined)
        expect(g.geometry_defined_for_all_cells() == bool(np.all(defined)), 'geometry defined for all cells')
        for c in np.ndindex(shape):
            expect(bool(g.cell_geometry_is_defined(cell_kji0 = c)) == bool(defined[c]), 'cell geometry defined', c)
    ina = np.zeros(shape, dtype = bool) if g.inactive is None else g.inactive
    expect(rq.same(np.array(ina, dtype = bool), np.logical_not(live)), 'inactive cells', ina.astype(int).tolist())
    if crs_uuid is not None:
        expect(rq_eq(g.crs_uuid, crs_uuid), 'crs of grid', g.crs_uuid, crs_uuid)
        expect(g.crs is not None and rq_eq(g.crs.uuid, crs_uuid), 'crs object of grid')


def worst(a, b):
    if a.shape != b.shape:
        return a.shape, b.shape
    d = np.nan_to_num(np.abs(a - b), nan = 9.0e9 if np.isnan(a).any() != np.isnan(b).any() else 0.0)
    i = np.unravel_index(np.argmax(d), d.shape)
    return [int(x) for x in i], float(a[i]), float(b[i])


def rq_eq(a, b):
    return str(a) == str(b)


def check_props(m, g, want, allow_more = False):
    """want: list of dicts as made by simple_props, with arrays as expected."""
    from resqpy.property import Property
    uuids = [u for u in m.uuids(obj_type = 'ContinuousProperty') + m.uuids(obj_type = 'DiscreteProperty') + m.uuids(obj_type = 'CategoricalProperty')
             if rq_eq(Property(m, uuid = u).collection.support_uuid, g.uuid)]
    seen = []
    for p in want:
        with about('property %s realization %s' % (p['title'], p.get('realization'))):
            u = [x for x in uuids if same_prop(m, x, p)]
            expect(len(u) == 1, 'number found', len(u))
            seen.append(u[0])
            q = Property(m, uuid = u[0])
            a = q.array_ref()
            expect(a is not None and a.shape == p['a'].shape, 'shape', None if a is None else a.shape, p['a'].shape)
            if p.get('discrete'):
                expect(np.issubdtype(a.dtype, np.integer) and rq.same(a.astype(int), p['a'].astype(int)), 'values', a.tolist(), p['a'].tolist())
                expect(not q.is_continuous(), 'is continuous')
                expect(q.null_value() == p.get('null_value', -1) or p.get('null_value') is None, 'null value', q.null_value())
                sl = p.get('string_lookup_uuid')
                expect(q.is_categorical() == (sl is not None), 'is categorical', q.is_categorical())
                if sl is not None:
                    expect(q.string_lookup() is not None and q.string_lookup().get_string(3) == 'facies 3', 'string lookup')
            else:
                expect(np.issubdtype(a.dtype, np.floating) and rq.near(a, p['a'], 1.0e-5), 'values', worst(a, p['a']))
                expect(q.is_continuous(), 'is not continuous')
                expect(q.uom() == p.get('uom'), 'uom', q.uom())
            expect(q.property_kind() == (p['title'] if p['kind'] == 'continuous' else p['kind']), 'kind', q.property_kind())
            expect(q.indexable_element() == p.get('indexable', 'cells'), 'indexable element', q.indexable_element())
            expect(q.count() == p.get('count', 1), 'count', q.count())
            expect((q.facet_type(), q.facet()) == (p.get('facet_type'), p.get('facet')), 'facet', q.facet_type(), q.facet())
    rest = [Property(m, uuid = u).title for u in uuids if u not in seen]
    rest = [t for t in rest if t != 'ACTIVE']
    expect(allow_more or not rest, 'more properties than expected', rest)


def reopened(path, uuid):
    from resqpy.grid import any_grid
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    return m, any_grid(m, uuid = uuid)


def finish(src, g, path, check, want = None, title = None, allow_more = False):
    """Both the returned grid and the stored one."""
    with about('returned'):
        check(g)
    with about('stored'):
        m, h = reopened(path, g.uuid)
        if title is not None:
            expect(h.title == title, 'title', h.title)
        check(h)
        if want is not None:
            check_props(m, h, want, allow_more)
        if path != src.path:
            n = len(m.uuids(obj_type = 'LocalDepth3dCrs'))
            expect(n == 1, 'coordinate reference systems in the new model', n)
            n = len(m.uuids(obj_type = 'IjkGridRepresentation'))
            expect(n == 1, 'grids in the new model', n)
    src.unharmed()
    return m, h


def selected(props, realization, every):
    if realization is not None:
        return [p for p in props if p.get('realization') == realization]
    return [p for p in props if every or p.get('realization') is None]


# ---------------------------------------------------------------------------------------------------------------------
# boxes of cells

def box_case(ctx, s, box, how, inactive = None, box_inactive = None, props = None, realization = None, every = False, window = None,
             regular = None, defined = None):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s, inactive, props, regular)
    kw, path = src.call(how)
    if props is not None:
        kw.update(inherit_properties = True, inherit_realization = realization, inherit_all_realizations = every)
    given = box.copy()
    g = rqdm.extract_box(box = given, box_inactive = None if box_inactive is None else box_inactive.copy(), set_parent_window = window,
                         new_grid_title = 'piece', **kw)
    expect(rq.same(given, box), 'box argument changed')
    ina = None
    if inactive is not None:
        ina = cut(inactive, box)
    if box_inactive is not None:
        ina = box_inactive if ina is None else np.logical_or(ina, box_inactive)
    gaps = None if s is None else s.gaps[box[0, 0]:box[1, 0]]
    cp = cut(src.cp, box)
    dfd = None if defined is None else cut(defined, box)
    want = None
    if props is not None:
        want = [dict(p, a = cut(p['a'], box)) for p in selected(src.props, realization, every)]
    m, h = finish(src, g, path, lambda x: check_grid(x, cp, gaps, ina, src.crs_uuid, dfd), want, 'piece')
    expected_window = window if window is not None else path == src.path
    for x in (g, h):
        if expected_window and path == src.path:
            expect(rq_eq(x.parent_grid_uuid, src.uuid), 'parent grid')
            expect(x.is_refinement, 'is refinement')
            w = x.parent_window
            expect(w is not None and rq.same(np.array(w.within_coarse_box), box), 'parent window')
            expect(tuple(w.fine_extent_kji) == tuple(w.coarse_extent_kji) == cp.shape[:3], 'window extents')
        elif not expected_window:
            expect(x.parent_window is None, 'parent window set')
    ctx.state(h)
    rq.close(m)


def all_gaps(nk):
    return list(itertools.product((False, True), repeat = nk - 1))


def boxes(ctx, share, of):
    n = 0
    thorough = ctx.tier != 'quick'
    for kind, gaps in itertools.product(sorted(KINDS), all_gaps(3)):
        for mask in ((False, True) if thorough else (None,)):
            for h, box in enumerate(all_boxes((3, 2, 2))):
                n += 1
                if n % of != share:
                    continue
                how = HOWS[h % 4]
                masked = (n // 4) % 2 == 0 if mask is None else mask
                ctx.run((kind, gaps, box.tolist(), how, masked),
                        lambda: box_case(ctx, ijk.Spec(3, 2, 2, parts = KINDS[kind](2, 2), gaps = gaps), box, how,
                                         inactive = dead((3, 2, 2)) if masked else None))


def boxes_wide(ctx, share, of):
    n = 0
    for kind in sorted(KINDS):
        for box in all_boxes((1, 3, 3)):
            n += 1
            if n % of != share:
                continue
            ctx.run((kind, box.tolist()), lambda: box_case(ctx, ijk.Spec(1, 3, 3, parts = KINDS[kind](3, 3)), box, 'file'))


def boxes_pillar(ctx, share, of):
    """Every way of splitting an inner pillar (thorough: and a second one)."""
    n = 0
    if ctx.tier == 'quick':
        specs = [((2, 2), [(1, 1)])]
    else:
        specs = [((2, 2), [(1, 1)]), ((2, 3), [(1, 1), (1, 2)])]
    for (nj, ni), which in specs:
        for parts in ijk.all_parts(nj, ni, which):
            for box in all_boxes((1, nj, ni)):
                n += 1
                if n % of != share:
                    continue
                ctx.run((nj, ni, sorted((k, v) for k, v in parts.items()), box.tolist()),
                        lambda: box_case(ctx, ijk.Spec(1, nj, ni, parts = parts), box, 'file'))


def boxes_masks(ctx):
    for kind, how in itertools.product(('unsplit', 'a line'), HOWS):
        for inactive, extra, window in itertools.product((None, dead((2, 2, 3))), (False, True), (None, False, True)):
            if window and 'new' in how:
                continue
            box = np.array([[0, 0, 1], [1, 1, 2]])
            be = None
            if extra:
                be = np.zeros((2, 2, 2), dtype = bool)
                be[1, 0, 1] = be[0, 1, 0] = True
            ctx.run((kind, how, inactive is not None, extra, window),
                    lambda: box_case(ctx, ijk.Spec(2, 2, 3, parts = KINDS[kind](2, 3)), box, how, inactive, be, window = window))


def boxes_props(ctx):
    boxes_ = [np.array(b) for b in ([[0, 0, 0], [1, 1, 2]], [[1, 0, 1], [1, 1, 1]], [[0, 1, 0], [1, 1, 1]])]
    for box, how in itertools.product(boxes_, HOWS):
        for realization, every in ((None, False), (None, True), (0, False), (1, False)):
            ctx.run((box.tolist(), how, realization, every),
                    lambda: box_case(ctx, ijk.Spec(2, 2, 3), box, how, props = simple_props, realization = realization, every = every))


def boxes_more(ctx, which):
    """Properties which do not have one value per cell: inherited properly or not at all."""
    import resqpy.derived_model as rqdm
    box = np.array([[1, 0, 1], [2, 0, 2]])

    def one(how):
        s = ijk.Spec(3, 2, 3)
        src = Source(ctx, s, None, lambda s, m: [more_props(s, m)[which]])
        kw, path = src.call(how)
        g = rqdm.extract_box(box = box.copy(), inherit_properties = True, new_grid_title = 'piece', **kw)
        p = src.props[0]
        if p['a'] is None:
            want = np.full(s.shape, p['const_value'])
            want = cut(want, box)
        elif p.get('indexable') == 'columns':
            want = p['a'][box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
        elif p.get('indexable') == 'layers':
            want = p['a'][box[0, 0]:box[1, 0] + 1]
        else:
            want = cut(p['a'], box)
        finish(src, g, path, lambda x: check_grid(x, cut(s.cp, box)), [dict(p, a = want)])

    for how in HOWS:
        ctx.run((more_props(ijk.Spec(1, 1, 1), None)[which]['title'], how), lambda: one(how))


def holes_for(s, dead_line):
    return [(p, g, n) for p, g, n in dead_line]


def boxes_holes(ctx):
    """Parts of the source geometry not defined."""
    for kind in ('unsplit', 'a line'):
        for pillar in ((0, 0), (1, 1), (2, 2), (0, 2)):
            for raw in ((0,), (2,), (0, 1, 2)):
                for box in all_boxes((2, 2, 2)):
                    if box[0].sum() % 2 and ctx.tier == 'quick':
                        continue

                    def one():
                        s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), holes = [(pillar, 0, n) for n in raw])
                        dfd = np.logical_not(np.isnan(s.cp).any(axis = (3, 4, 5, 6)))
                        if not cut(dfd, box).any():
                            return
                        box_case(ctx, s, box, 'file', defined = dfd, inactive = np.logical_not(dfd))

                    ctx.run((kind, pillar, raw, box.tolist()), one)


REGULAR = (dict(extent_kji = (2, 2, 3), dxyz = (100.0, 50.0, 20.0)),
           dict(extent_kji = (2, 2, 3), dxyz = (100.0, 50.0, 20.0), offsets = (500.0, 700.0, 1000.0)),
           dict(extent_kji = (2, 2, 3), dxyz = (10.0, -50.0, 20.0), offsets = (-5.0, 70.0, 10.0)))


def boxes_regular(ctx):
    for r, reg in enumerate(REGULAR):
        for how in HOWS:
            for box in all_boxes((2, 2, 3)):
                if box.sum() % 3:
                    continue
                ctx.run((r, how, box.tolist()), lambda: box_case(ctx, None, box, how, regular = reg))


# ---------------------------------------------------------------------------------------------------------------------
# refinement and coarsening

def compositions(n, parts = None):
    if n == 0:
        return [()] if parts in (None, 0) else []
    if parts == 0:
        return []
    out = []
    for first in range(1, n + 1):
        for rest in compositions(n - first, None if parts is None else parts - 1):
            out.append((first,) + rest)
    return out


def mapping(ratios, proportions = None, box = None, fine_box = None):
    """FineCoarse for ratios per axis: a tuple of ratios for each axis."""
    from resqpy.olio.fine_coarse import FineCoarse
    fc = FineCoarse(tuple(int(sum(r)) for r in ratios), tuple(len(r) for r in ratios), within_coarse_box = box, within_fine_box = fine_box)
    for axis, r in enumerate(ratios):
        if len(set(r)) == 1:
            fc.set_constant_ratio(axis)
        else:
            fc.set_ratio_vector(axis, np.array(r, dtype = int))
        if proportions is not None and proportions[axis] is not None:
            fc.set_proportions_list_of_vectors(axis, [np.array(v, dtype = float) for v in proportions[axis]])
    return fc


def shares(r, proportions):
    """Fractions of each coarse slice taken by its fine slices: list of lists."""
    out = []
    for c, n in enumerate(r):
        v = [1.0] * n if proportions is None else list(proportions[c])
        out.append([x / sum(v) for x in v])
    return out


def fine_points(cp, ratios, proportions):
    """Reference corner points of a refinement."""
    fr = [shares(r, None if proportions is None else proportions[a]) for a, r in enumerate(ratios)]
    ext = tuple(int(sum(r)) for r in ratios)
    out = np.empty(ext + (2, 2, 2, 3))
    where = []
    for a, r in enumerate(ratios):
        w = []
        for c in range(len(r)):
            at = 0.0
            for f in fr[a][c]:
                w.append((c, at, at + f))
                at += f
        where.append(w)
    for f in np.ndindex(ext):
        c = tuple(where[a][f[a]][0] for a in range(3))
        for e in np.ndindex((2, 2, 2)):
            t = [where[a][f[a]][1 + e[a]] for a in range(3)]
            p = np.zeros(3)
            for v in np.ndindex((2, 2, 2)):
                w = 1.0
                for a in range(3):
                    w *= t[a] if v[a] else 1.0 - t[a]
                p += w * cp[c + v]
            out[f + e] = p
    return out, where, fr


def spread(a, where):
    return a[np.ix_(*[[w[0] for w in where[x]] for x in range(3)])]


def fine_gaps(gaps, r):
    out = []
    for c, n in enumerate(r):
        out += [False] * (n - 1)
        if c < len(r) - 1:
            out.append(gaps[c])
    return out


def same_window(w, ratios, proportions, box, refining):
    ext = tuple(int(sum(r)) for r in ratios), tuple(len(r) for r in ratios)
    expect((tuple(w.fine_extent_kji), tuple(w.coarse_extent_kji)) == ext, 'window extents', w.fine_extent_kji, w.coarse_extent_kji)
    w.assert_valid()
    for a, r in enumerate(ratios):
        expect(tuple(w.ratio(a, c) for c in range(len(r))) == tuple(r), 'window ratios', a, [w.ratio(a, c) for c in range(len(r))], r)
        if refining:
            want = sum(shares(r, None if proportions is None else proportions[a]), [])
            expect(rq.near(w.proportions_for_axis(a), np.array(want), 1.0e-6), 'window proportions', a)
    b = w.within_coarse_box if refining else w.within_fine_box
    whole = np.array([(0, 0, 0), [n - 1 for n in (ext[1] if refining else ext[0])]])
    expect(rq.same(np.array(b) if b is not None else whole, box if box is not None else whole), 'window box', b)


def fine_case(ctx, s, ratios, proportions, how, props = None, realization = None, every = False, window = None, regular = None):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s, None, props, regular)
    kw, path = src.call(how)
    if props is not None:
        kw.update(inherit_properties = True, inherit_realization = realization, inherit_all_realizations = every)
    g = rqdm.refined_grid(fine_coarse = mapping(ratios, proportions), set_parent_window = window, new_grid_title = 'fine', **kw)
    cp, where, fr = fine_points(src.cp, ratios, proportions)
    gaps = None if s is None else fine_gaps(s.gaps, ratios[0])
    want = None
    if props is not None:
        want = []
        for p in selected(src.props, realization, every):
            a = spread(p['a'], where)
            if p['kind'] == 'cell length':
                ax = 'KJI'.index(p['facet'])
                f = np.array(sum(fr[ax], []))
                a = a * f.reshape([-1 if x == ax else 1 for x in range(3)])
            want.append(dict(p, a = a))
    m, h = finish(src, g, path, lambda x: check_grid(x, cp, gaps, None, src.crs_uuid), want, 'fine')
    expected = (window is None and path == src.path) or bool(window)
    if path == src.path:
        for x in (g, h):
            if expected:
                expect(rq_eq(x.parent_grid_uuid, src.uuid) and x.is_refinement, 'parent grid')
                same_window(x.parent_window, ratios, proportions, None, True)
            else:
                expect(x.parent_window is None, 'parent window set')
    ctx.state(h)
    rq.close(m)


def grids_for_refining(tier):
    out = [(kind, gaps) for kind in sorted(KINDS) for gaps in ((False,), (True,))]
    return out


RATIOS_2 = ((1, 1), (2, 2), (1, 2), (3, 1))
PROPS = {None: None, 'uneven': lambda r: [[1.0 + (c + f) % 3 for f in range(n)] for c, n in enumerate(r)]}


def refinements(ctx, share, of):
    n = 0
    combos = [c for c in itertools.product(RATIOS_2, repeat = 3) if ctx.tier != 'quick' or len(set(c)) > 1 or c[0] in ((2, 2), (1, 2))]
    for (kind, gaps), combo in itertools.product(grids_for_refining(ctx.tier), combos):
        for pr in PROPS:
            n += 1
            if n % of != share:
                continue
            if ctx.tier == 'quick' and (n // of) % 3:
                continue
            prop = None if pr is None else [PROPS[pr](r) for r in combo]
            ctx.run((kind, gaps, combo, pr, HOWS[(n // of) % 4]),
                    lambda: fine_case(ctx, ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = gaps), combo, prop, HOWS[(n // of) % 4]))


def refinements_props(ctx):
    for kind in ('unsplit', 'a line'):
        for combo in (((2, 1), (1, 2), (2, 2)), ((3, 3), (1, 1), (1, 2))):
            for pr in PROPS:
                for realization, every in ((None, False), (None, True), (1, False)):
                    for how in ('file', 'grid, new file', 'new file'):
                        ctx.run((kind, combo, pr, realization, every, how),
                                lambda: fine_case(ctx, ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2)), combo,
                                                  None if pr is None else [PROPS[pr](r) for r in combo], how, simple_props, realization, every))


def refinements_regular(ctx):
    for r, reg in enumerate(REGULAR):
        for how in HOWS:
            for combo in (((2, 2), (1, 2), (1, 1, 1)), ((1, 1), (3, 1), (2, 1, 2))):
                ctx.run((r, how, combo), lambda: fine_case(ctx, None, combo, None, how, regular = reg))


def solid(nk, nj, ni):
    """A grid where the volumes of cells add up exactly."""
    return ijk.Spec(nk, nj, ni, warp = 0.0, lean = 0.0)


def coarse_points(cp, ratios):
    """First and last fine cells of each coarse one."""
    ext = tuple(len(r) for r in ratios)
    at = [np.cumsum((0,) + tuple(r)) for r in ratios]
    out = np.empty(ext + (2, 2, 2, 3))
    for c in np.ndindex(ext):
        for e in np.ndindex((2, 2, 2)):
            f = tuple(at[a][c[a] + 1] - 1 if e[a] else at[a][c[a]] for a in range(3))
            out[c + e] = cp[f + e]
    return out, at


def within(a, at, c):
    return a[tuple(slice(at[x][c[x]], at[x][c[x] + 1]) for x in range(3))]


UPSCALED = ('RV', 'NTG', 'PORO', 'SW', 'KH')


def upscale_props(which, realization = None):

    def make(s, m):
        c = s.shape
        all_ = dict(RV = dict(kind = 'rock volume', uom = 'm3', a = pattern(c, 1) * 10.0),
                    NTG = dict(kind = 'net to gross ratio', uom = 'm3/m3', a = 1.0 / (1.0 + pattern(c, 0))),
                    PORO = dict(kind = 'porosity', uom = 'm3/m3', a = 0.3 / (1.0 + 0.1 * pattern(c, 2))),
                    SW = dict(kind = 'saturation', uom = 'm3/m3', a = 0.9 / (1.0 + 0.2 * pattern(c, 3))),
                    KH = dict(kind = 'rock permeability', uom = 'mD', a = pattern(c, 4), facet_type = 'direction', facet = 'I'))
        out = [dict(all_[k], title = k, realization = realization) for k in UPSCALED if k in which]
        out += [
            dict(title = 'DK', kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'K', a = pattern(c, 2), realization = realization),
            dict(title = 'DJ', kind = 'cell length', uom = 'm', facet_type = 'direction', facet = 'J', a = pattern(c, 3), realization = realization),
            dict(title = 'TEMP', kind = 'thermodynamic temperature', uom = 'degC', a = pattern(c, 1), realization = realization),
            dict(title = 'REGION', kind = 'region initialization', discrete = True, null_value = -7, a = pattern(c).astype(int),
                 realization = realization)
        ]
        return out

    return make


def upscaled(s, props, at, ext):
    """Expected coarse arrays by title."""
    d = {p['title']: p['a'] for p in props}
    vol = volumes(s)
    rv = d.get('RV', vol)
    nrv = rv * d.get('NTG', np.ones(s.shape))
    pv = nrv * d.get('PORO', np.ones(s.shape))
    weight = dict(NTG = rv, PORO = nrv, SW = pv, KH = nrv, TEMP = rv)
    out = []
    for p in props:
        a = np.zeros(ext, dtype = p['a'].dtype)
        for c in np.ndindex(ext):
            f = within(p['a'], at, c)
            if p['title'] == 'RV':
                a[c] = f.sum()
            elif p['kind'] == 'cell length':
                a[c] = f.sum(axis = 'KJI'.index(p['facet'])).mean()
            elif p.get('discrete'):
                a[c] = f.reshape(-1)[0]
            else:
                w = within(weight[p['title']], at, c)
                a[c] = (f * w).sum() / w.sum()
        out.append(dict(p, a = a))
    return out


def volumes(s):
    c = s.cp
    i, j, k = (np.mean(np.take(c, 1, axis = x) - np.take(c, 0, axis = x), axis = (3, 4)) for x in (5, 4, 3))
    return np.abs(np.sum(np.cross(i, j) * k, axis = -1))


def coarse_case(ctx, s, ratios, how, props = None, realization = None, every = False, window = None):
    import resqpy.derived_model as rqdm
    src = Source(ctx, s, None, props)
    kw, path = src.call(how)
    if props is not None:
        kw.update(inherit_properties = True, inherit_realization = realization, inherit_all_realizations = every)
    g = rqdm.coarsened_grid(fine_coarse = mapping(ratios), set_parent_window = window, new_grid_title = 'coarse', **kw)
    cp, at = coarse_points(src.cp, ratios)
    ext = tuple(len(r) for r in ratios)
    want = None
    if props is not None:
        want = upscaled(s, selected(src.props, realization, every), at, ext)
    m, h = finish(src, g, path, lambda x: check_grid(x, cp, None, None, src.crs_uuid), want, 'coarse')
    if path == src.path:
        for x in (g, h):
            if window is None or window:
                expect(rq_eq(x.parent_grid_uuid, src.uuid) and x.is_refinement is not None, 'parent grid')
                if ext != s.shape:
                    expect(not x.is_refinement, 'is refinement')
                    same_window(x.parent_window, ratios, None, None, False)
            else:
                expect(x.parent_window is None, 'parent window set')
    ctx.state(h)
    rq.close(m)


def coarsenings(ctx, share, of):
    n = 0
    shape = (3, 2, 3) if ctx.tier == 'quick' else (4, 2, 3)
    for ratios in itertools.product(*[compositions(x) for x in shape]):
        n += 1
        if n % of != share:
            continue
        for how in (HOWS if ctx.tier != 'quick' else (HOWS[(n // of) % 4], HOWS[(n // of + 1) % 4])):
            ctx.run((ratios, how), lambda: coarse_case(ctx, ijk.Spec(*shape), ratios, how, window = None if n % 3 else False))


def upscaling(ctx, share, of):
    n = 0
    for which in (x for r in range(6) for x in itertools.combinations(UPSCALED, r)):
        for ratios in (((2, 1), (2,), (1, 2)), ((3,), (1, 1), (3,))):
            n += 1
            if n % of != share:
                continue
            ctx.run((which, ratios), lambda: coarse_case(ctx, solid(3, 2, 3), ratios, 'file', upscale_props(which)))
            if n % 4 == 0:
                ctx.run((which, ratios, 'realization 2'),
                        lambda: coarse_case(ctx, solid(3, 2, 3), ratios, 'grid, new file', upscale_props(which, 2), realization = 2))


def grandparents(ctx):
    """Box, then finer or coarser, related to the first grid."""
    import resqpy.derived_model as rqdm

    def one(box, ratios, pr, finer, stay):
        s = ijk.Spec(3, 3, 4)
        src = Source(ctx, s)
        b = rqdm.extract_box(epc_file = src.path, box = box.copy(), set_parent_window = True, source_grid = None)
        m = rq.open_model(src.path)
        from resqpy.grid import any_grid
        g = any_grid(m, uuid = b.uuid)
        g.title
        fn = rqdm.refined_grid if finer else rqdm.coarsened_grid
        h = fn(epc_file = src.path, source_grid = g, fine_coarse = mapping(ratios, pr), set_parent_window = 'parent' if stay else 'grandparent')
        if finer:
            cp = fine_points(cut(s.cp, box), ratios, pr)[0]
        else:
            cp = coarse_points(cut(s.cp, box), ratios)[0]

        def look(x):
            check_grid(x, cp)
            expect(rq_eq(x.parent_grid_uuid, b.uuid if stay else src.uuid), 'parent grid')
            expect(bool(x.is_refinement) == finer, 'is refinement')
            same_window(x.parent_window, ratios, pr, None if stay else box, finer)

        finish(src, h, src.path, look)

    for box in (np.array([[0, 1, 1], [1, 2, 3]]), np.array([[0, 0, 0], [1, 1, 2]]), np.array([[1, 0, 1], [2, 1, 3]])):
        for stay in (True, False):
            for ratios in (((1, 2), (2, 2), (1, 1, 3)), ((2, 2), (1, 1), (2, 2, 2))):
                for pr in PROPS:
                    ctx.run((box.tolist(), stay, ratios, pr, 'finer'),
                            lambda: one(box, ratios, None if pr is None else [PROPS[pr](r) for r in ratios], True, stay))
            for ratios in (((2,), (1, 1), (1, 2)), ((2,), (2,), (3,)), ((1, 1), (2,), (2, 1))):
                ctx.run((box.tolist(), stay, ratios, 'coarser'), lambda: one(box, ratios, None, False, stay))


# ---------------------------------------------------------------------------------------------------------------------
# other versions of a grid

def healed(s):
    out = np.empty(s.cp.shape)
    for c in np.ndindex(s.shape):
        for e in np.ndindex((2, 2, 2)):
            j, i = c[1] + e[1], c[2] + e[2]
            cols = ijk.columns_around(s.nj, s.ni, j, i)
            out[c + e] = np.mean([s.node(s.raw[c[0]] + e[0], j, i, s.group_of(j, i, col)) for col in cols], axis = 0)
    return out


def versions(ctx, share, of):
    import resqpy.derived_model as rqdm

    def unsplit(s, how, props, mask):
        src = Source(ctx, s, dead(s.shape) if mask else None, props)
        kw, path = src.call(how)
        g = rqdm.unsplit_grid(inherit_properties = props is not None, new_grid_title = 'healed', **kw)
        cp = healed(s)

        def look(x):
            check_grid(x, cp, s.gaps, src.inactive, src.crs_uuid)
            expect(not x.has_split_coordinate_lines, 'still split')

        m, _ = finish(src, g, path, look, None if props is None else selected(src.props, None, False), 'healed')
        rq.close(m)

    def tilted(s, how, props, mask, pivot, azimuth, dip):
        src = Source(ctx, s, dead(s.shape) if mask else None, props)
        kw, path = src.call(how)
        g = rqdm.tilted_grid(pivot_xyz = pivot, azimuth = azimuth, dip = dip, inherit_properties = props is not None, new_grid_title = 'tilt', **kw)
        a, d = np.radians(azimuth), np.radians(dip)
        u = np.array((np.sin(a), np.cos(a), 0.0))  # direction of dip
        w = np.array((0.0, 0.0, 1.0))  # down
        v = s.cp - np.array(pivot)
        along, down = np.dot(v, u), np.dot(v, w)
        rest = v - along[..., np.newaxis] * u - down[..., np.newaxis] * w
        cp = (np.array(pivot) + rest + (along * np.cos(d) - down * np.sin(d))[..., np.newaxis] * u +
              (along * np.sin(d) + down * np.cos(d))[..., np.newaxis] * w)
        m, _ = finish(src, g, path, lambda x: check_grid(x, cp, s.gaps, src.inactive, src.crs_uuid),
                      None if props is None else selected(src.props, None, False), 'tilt')
        rq.close(m)

    n = 0
    for kind, gaps, how, mask in itertools.product(sorted(KINDS), all_gaps(2), HOWS, (False, True)):
        props = simple_props if mask else None
        n += 1
        if n % of == share and kind != 'unsplit':
            ctx.run(('unsplit', kind, gaps, how, mask), lambda: unsplit(ijk.Spec(2, 2, 3, parts = KINDS[kind](2, 3), gaps = gaps), how, props, mask))
        for pivot, az, dip in (((0.0, 0.0, 0.0), 0.0, 30.0), ((1000.0, 2000.0, 1000.0), 90.0, 10.0), ((100.0, 200.0, 1000.0), 205.0, 45.0),
                               ((100.0, 200.0, 1000.0), 300.0, 0.0), ((100.0, 200.0, 1000.0), 60.0, -20.0)):
            n += 1
            if n % of == share:
                ctx.run(('tilt', kind, gaps, how, mask, pivot, az, dip),
                        lambda: tilted(ijk.Spec(2, 2, 3, parts = KINDS[kind](2, 3), gaps = gaps), how, props, mask, pivot, az, dip))


def unsplit_all(ctx, share, of):
    """All ways of splitting an inner pillar and an edge pillar."""
    import resqpy.derived_model as rqdm

    def one(parts):
        s = ijk.Spec(1, 2, 2, parts = parts)
        if not s.split():
            return
        src = Source(ctx, s)
        g = rqdm.unsplit_grid(epc_file = src.path)
        finish(src, g, src.path, lambda x: check_grid(x, healed(s), crs_uuid = src.crs_uuid))

    n = 0
    for parts in ijk.all_parts(2, 2, [(1, 1), (0, 1), (1, 2)]):
        n += 1
        if n % of == share:
            ctx.run(sorted(parts.items()), lambda: one(parts))


def copies(ctx):
    from resqpy.derived_model import copy_grid
    from resqpy.grid import any_grid

    def one(kind, gaps, mask, other):
        s = ijk.Spec(2, 2, 2, parts = KINDS[kind](2, 2), gaps = gaps)
        src = Source(ctx, s, dead(s.shape) if mask else None)
        m = rq.open_model(src.path)
        g = any_grid(m, uuid = src.uuid)
        t = rq.new_model(src.new, h5 = True) if other else None
        h = copy_grid(g, t)
        expect(not rq_eq(h.uuid, g.uuid), 'copy has the same uuid')
        check_grid(h, s.cp, gaps, src.inactive)
        h.write_hdf5()
        h.create_xml()
        h.model.store_epc()
        # a copy is independent
        h.points_cached[:] += 100.0
        h.invalidate_corner_points()
        expect(rq.near(g.corner_points(), s.cp), 'source shares points with copy')
        for x in (m, h.model):
            rq.close(x)
        m, k = reopened(src.new if other else src.path, h.uuid)
        check_grid(k, s.cp, gaps, src.inactive, src.crs_uuid)

    for kind, gaps, mask, other in itertools.product(sorted(KINDS), all_gaps(2), (False, True), (False, True)):
        ctx.run((kind, gaps, mask, other), lambda: one(kind, gaps, mask, other))


def merged(cp, ranges):
    """Layers of cells between the top of the first layer of each range and the base of the last."""
    out = np.empty((len(ranges),) + cp.shape[1:])
    for z, (a, b) in enumerate(ranges):
        out[z, :, :, 0] = cp[a, :, :, 0]
        out[z, :, :, 1] = cp[b, :, :, 1]
    return out


def zone_mask(inactive, ranges, easy):
    if inactive is None:
        return None
    f = np.all if easy else np.any
    return np.array([f(inactive[a:b + 1], axis = 0) for a, b in ranges])


def some_dead(shape):
    a = dead(shape)
    a[:, 0, 0] = True
    a[1:, -1, -1] = True
    return a


def zones(ctx, share, of):
    import resqpy.derived_model as rqdm

    def one(kind, gaps, ranges, how, mask, easy, by):
        s = ijk.Spec(4, 2, 2, parts = KINDS[kind](2, 2), gaps = gaps)
        vec = np.zeros(4, dtype = int) - 1
        for z, (a, b) in enumerate(ranges):
            vec[a:b + 1] = z + 3
        zone = np.zeros(s.shape, dtype = int) + vec.reshape((-1, 1, 1))
        props = None
        if by != 'ranges':
            props = lambda s, m: [dict(a = zone, title = 'ZONES', kind = 'zone', discrete = True)]
        src = Source(ctx, s, some_dead(s.shape) if mask else None, props)
        kw, path = src.call(how)
        if by == 'ranges':
            kw['zone_layer_range_list'] = [(a, b, z + 3) for z, (a, b) in enumerate(ranges)]
        elif by == 'title':
            kw['zone_title'] = 'ZONES'
        else:
            m = rq.open_model(src.path)
            kw['zone_uuid'] = m.uuid(title = 'ZONES')
            rq.close(m)
        g = rqdm.zonal_grid(inactive_laissez_faire = easy, new_grid_title = 'zones', **kw)
        m, _ = finish(src, g, path, lambda x: check_grid(x, merged(s.cp, ranges), None, zone_mask(src.inactive, ranges, easy), src.crs_uuid),
                      None, 'zones')
        rq.close(m)

    n = 0
    for r in compositions(4):
        at = np.cumsum((0,) + r)
        ranges = [(int(at[z]), int(at[z + 1]) - 1) for z in range(len(r))]
        inner = [tuple(k == g for k in range(3)) for g in range(3) if any(a <= g < b for a, b in ranges)]
        for kind, gaps in itertools.product(sorted(KINDS), [(False,) * 3] + inner):
            for mask, easy, by in ((False, True, 'ranges'), (True, True, 'title'), (True, False, 'uuid')):
                n += 1
                if n % of == share:
                    ctx.run((kind, gaps, ranges, HOWS[(n // of) % 4], mask, easy, by),
                            lambda: one(kind, gaps, ranges, HOWS[(n // of) % 4], mask, easy, by))


def single_layers(ctx, share, of):
    import resqpy.derived_model as rqdm

    def one(s, a, b, how, mask, easy, fn, reg = None):
        src = Source(ctx, s, some_dead(s.shape) if mask else None, regular = reg)
        kw, path = src.call(how)
        if fn == 'zonal':
            g = rqdm.zonal_grid(zone_layer_range_list = [(a, b, 0)], inactive_laissez_faire = easy, new_grid_title = 'one', **kw)
        else:
            lim = dict(k0_min = a, k0_max = b)
            if fn == 'open':
                lim = {k: v for k, v in lim.items() if not (k == 'k0_min' and a == 0 or k == 'k0_max' and b == src.cp.shape[0] - 1)}
            g = rqdm.single_layer_grid(inactive_laissez_faire = easy, new_grid_title = 'one', **lim, **kw)
        m, h = finish(src, g, path, lambda x: check_grid(x, merged(src.cp, [(a, b)]), None, zone_mask(src.inactive, [(a, b)], easy), src.crs_uuid),
                      None, 'one')
        rq.close(m)

    n = 0
    for kind, gaps in itertools.product(sorted(KINDS), all_gaps(3)):
        for a, b in ((x, y) for x in range(3) for y in range(x, 3)):
            for mask, easy in ((False, True), (True, True), (True, False)):
                n += 1
                if n % of == share:
                    fn = ('layer', 'zonal', 'open')[(n // of) % 3]
                    ctx.run((kind, gaps, a, b, HOWS[(n // of) % 4], mask, easy, fn),
                            lambda: one(ijk.Spec(3, 2, 2, parts = KINDS[kind](2, 2), gaps = gaps), a, b, HOWS[(n // of) % 4], mask, easy, fn))
    for r, reg in enumerate(REGULAR):
        for (a, b), how in itertools.product(((0, 0), (0, 1), (1, 1)), HOWS):
            n += 1
            if n % of == share:
                ctx.run(('regular', r, a, b, how), lambda: one(None, a, b, how, False, True, 'layer', reg))


# ---------------------------------------------------------------------------------------------------------------------
# zones of layers

def zone_ranges(vec, lo, hi):
    """Expected list, or None if it cannot be done; layers without cells are -."""
    zones_ = {}
    for k in range(lo, hi + 1):
        if vec[k] is not None:
            zones_.setdefault(vec[k], []).append(k)
    out = []
    for z, ks in zones_.items():
        for k in range(ks[0], ks[-1] + 1):
            if vec[k] is not None and vec[k] != z:
                return None
        out.append([ks[0], ks[-1], z])
    out.sort()
    for a, b in zip(out, out[1:]):
        b[0] = a[1] + 1
    return [tuple(x) for x in out] or None


def zone_vectors(ctx, share, of):
    from resqpy.derived_model import zone_layer_ranges_from_array as f

    def one(vec, lo, hi, part):
        a = np.zeros((4, 2, 2), dtype = int)
        mask = np.zeros(a.shape, dtype = bool)
        for k, z in enumerate(vec):
            a[k] = -1 if z is None else z
            mask[k] = z is None
        if part:
            mask[:, 0, 1] = True
            a[mask] = -1
        arr = np.ma.masked_array(a, mask = mask) if mask.any() else a
        want = zone_ranges(vec, lo, hi)
        if want is None:
            expect(rq.raises(f, arr, lo, hi), 'zones which are not ranges of layers were accepted')
        else:
            got = f(arr, lo, hi)
            expect([tuple(int(v) for v in x) for x in got] == want, 'zone ranges', got, want)
        if lo == 0 and hi == 3:
            got = rq.raises(f, arr)
            expect(bool(got) == (want is None), 'default limits', got)

    n = 0
    for vec in itertools.product((0, 1, 2, None), repeat = 4):
        for lo, hi in ((0, 3), (1, 3), (0, 2), (1, 2)):
            for part in (False, True):
                n += 1
                if n % of == share:
                    ctx.run((vec, lo, hi, part), lambda: one(vec, lo, hi, part))


def dominant(ctx):
    from resqpy.derived_model import zone_layer_ranges_from_array as f

    def one(layers):
        a = np.array(layers, dtype = int).reshape((2, 1, 3))
        most = []
        for k in range(2):
            v, c = np.unique(a[k], return_counts = True)
            if np.count_nonzero(c == c.max()) > 1:
                most.append(None)
            else:
                most.append(int(v[np.argmax(c)]))
        if None not in most:
            b = a.copy()
            got = [tuple(int(v) for v in x) for x in f(b, use_dominant_zone = True)]
            expect(got == zone_ranges(most, 0, 1), 'dominant zones', got)
        uniform = all(len(set(x)) == 1 for x in layers)
        expect(bool(rq.raises(f, a.copy())) == (not uniform), 'zones varying in a layer')

    for layers in itertools.product(itertools.product((1, 2, 4), repeat = 3), repeat = 2):
        ctx.run(layers, lambda: one(layers))


def zone_properties(ctx):
    import resqpy.derived_model as rqdm
    from resqpy.property import Property

    def one(vec, by, local):
        s = ijk.Spec(4, 1, 2)
        zone = np.zeros(s.shape, dtype = int) + np.array(vec).reshape((-1, 1, 1))
        src = Source(ctx, s, None, lambda s, m: [dict(a = zone, title = 'ZONES', kind = 'zone', discrete = True)])
        kw = {}
        if by == 'cells':
            m = rq.open_model(src.path)
            kw['zone_by_cell_property_uuid'] = m.uuid(title = 'ZONES')
            rq.close(m)
        else:
            kw['zone_by_layer_vector'] = list(vec)
        a, u = rqdm.add_zone_by_layer_property(src.path, use_local_property_kind = local, title = 'BYLAYER', realization = 3, **kw)
        expect(list(a) == list(vec), 'returned array', a)
        rq.Stored(src.path).check_wellformed()
        m = rq.open_model(src.path)
        p = Property(m, uuid = u)
        expect(list(p.array_ref()) == list(vec) and p.indexable_element() == 'layers' and p.realization() == 3 and p.title == 'BYLAYER', 'stored property')
        expect(not local or p.property_kind() == 'zone', 'kind', p.property_kind())
        g = m.grid()
        expect(rq_eq(p.collection.support_uuid, g.uuid), 'support')

    for vec in ((0, 0, 1, 1), (5, 2, 2, 7), (1, 1, 1, 1)):
        for by, local in itertools.product(('cells', 'layers'), (False, True)):
            ctx.run((vec, by, local), lambda: one(vec, by, local))


# ---------------------------------------------------------------------------------------------------------------------
# mappings and boxes on their own

def mappings(ctx, share, of):
    top = 6 if ctx.tier == 'quick' else 7
    axis_ratios = [r for n in range(1, top + 1) for r in compositions(n)]
    few = [(1,), (2, 1), (1, 3, 1)]

    def one(ratios, pr):
        fc = mapping(ratios, pr)
        fc.assert_valid()
        of_fine = [sum(([c] * n for c, n in enumerate(r)), []) for r in ratios]
        at = [np.cumsum((0,) + tuple(r)) for r in ratios]
        for a, r in enumerate(ratios):
            want = shares(r, None if pr is None else pr[a])
            for c in range(len(r)):
                expect(fc.ratio(a, c) == r[c], 'ratio', a, c)
                expect(fc.fine_base_for_coarse_axial(a, c) == at[a][c], 'fine base', a, c)
                expect(rq.near(np.array(fc.proportion(a, c)), np.array(want[c]), 1.0e-9), 'proportion', a, c)
                expect(rq.near(np.array(fc.interpolation(a, c)), np.cumsum([0.0] + want[c])[:-1], 1.0e-9), 'interpolation', a, c)
            expect(rq.near(fc.proportions_for_axis(a), np.array(sum(want, [])), 1.0e-9), 'proportions for axis', a)
            expect(list(fc.coarse_for_fine_axial_vector(a)) == of_fine[a] == list(fc.coarse_for_fine()[a]), 'coarse for fine vector', a)
            for f in range(sum(r)):
                expect(fc.coarse_for_fine_axial(a, f) == of_fine[a][f], 'coarse for fine', a, f)
        ext, fine = tuple(len(r) for r in ratios), tuple(sum(r) for r in ratios)
        for c in np.ndindex(ext):
            expect(tuple(fc.ratios(c)) == tuple(r[x] for r, x in zip(ratios, c)), 'ratios', c)
            b = fc.fine_box_for_coarse(c)
            expect(b.tolist() == [[int(at[a][c[a]]) for a in range(3)], [int(at[a][c[a] + 1]) - 1 for a in range(3)]], 'fine box', c, b)
            expect(tuple(fc.fine_base_for_coarse(c)) == tuple(b[0]), 'fine base of cell', c)
        for f in np.ndindex(fine):
            expect(tuple(fc.coarse_for_fine_kji0(f)) == tuple(of_fine[a][f[a]] for a in range(3)), 'coarse cell', f)
        for j, i in np.ndindex(ext[1:]):
            expect(fc.fine_for_coarse_natural_column_index(j * ext[2] + i) == at[1][j] * fine[2] + at[2][i], 'column', j, i)
        for j, i in np.ndindex((ext[1] + 1, ext[2] + 1)):
            expect(fc.fine_for_coarse_natural_pillar_index(j * (ext[2] + 1) + i) == at[1][j] * (fine[2] + 1) + at[2][i], 'pillar', j, i)

    n = 0
    for a in range(3):
        for r in axis_ratios:
            for x, y in itertools.product(few, repeat = 2):
                n += 1
                if n % of != share:
                    continue
                ratios = [x, y]
                ratios.insert(a, r)
                for pr in PROPS:
                    ctx.run((ratios, pr), lambda: one(tuple(ratios), None if pr is None else [PROPS[pr](v) for v in ratios]))


def cartrefs(ctx):

    def one(ratios, box, root):
        fc = mapping(ratios, box = box)
        path = ctx.path('c.inc')
        fc.write_cartref(path, 'FINE', mode = 'w', root_name = root, preceeding_blank_lines = 1, trailing_blank_lines = 2)
        with open(path) as f:
            words = f.read().split()
        want = (['LGR', root] if root else []) + ['LGR', 'CARTREF', 'FINE']
        for a in (2, 1, 0):
            want += [str(box[0, a] + 1), str(box[1, a] + 1)]
        for a in (2, 1, 0):
            want += [str(x) for x in ratios[a]]
        expect(words == want + ['ENDREF', 'ENDLGR'], 'cartref', words)

    for ratios in itertools.product(((1, 2), (2, 2)), ((3,), (1, 1)), ((1, 2, 1), (4,))):
        for root in (None, 'ROOT'):
            lo = np.array((1, 0, 2))
            box = np.array([lo, lo + [len(r) - 1 for r in ratios]])
            ctx.run((ratios, root), lambda: one(ratios, box, root))


def tartans(ctx):
    from resqpy.olio.fine_coarse import tartan_refinement

    def one(n, lo, hi, top, rate, mode):
        ext = (n, 3, n)
        box = np.array([[lo, 1, 0], [hi, 1, n - 1]])
        within_box = np.array([[2, 1, 0], [n + 1, 3, n - 1]])
        fc = tartan_refinement(ext, box, (top, 1, 3), decay_rates_kji = None if rate is None else (rate,) * 3, decay_mode = mode,
                               within_coarse_box = within_box)
        fc.assert_valid()
        expect(tuple(fc.coarse_extent_kji) == ext and rq.same(fc.within_coarse_box, within_box), 'extent and box')
        r = [int(fc.ratio(0, c)) for c in range(n)]
        expect(sum(r) == fc.fine_extent_kji[0], 'fine extent')
        expect(all(x == top for x in r[lo:hi + 1]), 'ratios in the fovea', r)
        expect([int(fc.ratio(1, c)) for c in range(3)] == [1, 1, 1], 'unrefined axis')
        expect([int(fc.ratio(2, c)) for c in range(n)] == [3] * n, 'axis covered by the fovea')
        for side in (r[hi:], r[lo::-1]):
            expect(all(x >= y >= 1 for x, y in zip(side, side[1:])), 'ratios away from the fovea', r)
        if rate is not None:
            for c in range(n):
                d = max(lo - c, c - hi, 0)
                v = top - rate * d if mode == 'linear' else top * rate**d
                if abs(v - np.floor(v) - 0.5) > 1.0e-9:
                    expect(r[c] == max(1, int(np.floor(v + 0.5))), 'ratio at', c, r)

    for n in range(1, 6):
        for lo in range(n):
            for hi in range(lo, n):
                for top in (1, 2, 5):
                    for rate, mode in ((None, 'exponential'), (None, 'linear'), (0.5, 'exponential'), (0.0, 'exponential'), (1.0, 'exponential'),
                                       (1, 'linear'), (2, 'linear'), (0, 'linear')):
                        ctx.run((n, lo, hi, top, rate, mode), lambda: one(n, lo, hi, top, rate, mode))


def box_cells(b):
    return {c for c in itertools.product(*[range(b[0, a], b[1, a] + 1) for a in range(3)])}


def box_pairs(ctx, share, of):
    import resqpy.olio.box_utilities as bx
    every = [(b, box_cells(b)) for b in all_boxes((3, 3, 3))]

    def one(a, ca):
        ext = bx.extent_of_box(a)
        expect(int(np.prod(ext)) == len(ca) == bx.volume_of_box(a), 'extent and volume')
        expect(tuple(bx.central_cell(a)) in ca, 'central cell')
        words = bx.spaced_string_iijjkk1_for_box_kji0(a).split()
        expect([int(x) for x in words] == [a[0, 2] + 1, a[1, 2] + 1, a[0, 1] + 1, a[1, 1] + 1, a[0, 0] + 1, a[1, 0] + 1], 'words', words)
        expect(rq.same(bx.box_kji0_from_words_iijjkk1(words), a), 'box from words')
        expect(bx.string_iijjkk1_for_box_kji0(a) == '[%s:%s, %s:%s, %s:%s]' % tuple(words), 'string')
        for c in itertools.product(range(3), repeat = 3):
            inside = c in ca
            expect(bx.cell_in_box(np.array(c), a) == inside, 'cell in box', c)
            for base in (0, 1):
                loc = bx.local_box_cell_from_parent_cell(a, np.array(c), base)
                expect((loc is not None) == inside, 'local cell', c)
                if inside:
                    expect(list(loc) == [c[x] - a[0, x] + base for x in range(3)], 'local cell', c, loc)
                    expect(tuple(bx.parent_cell_from_local_box_cell(a, loc, base)) == c, 'parent cell', c)
        for e in itertools.product((1, 2, 3), repeat = 3):
            expect(bool(bx.valid_box(a, e)) == all(a[1, x] < e[x] for x in range(3)), 'valid box', e)
        for b, cb in every:
            both = ca & cb
            expect(bool(bx.boxes_overlap(a, b)) == bool(both), 'overlap', b)
            u = bx.union(a, b)
            expect(rq.same(u, np.array([np.minimum(a[0], b[0]), np.maximum(a[1], b[1])])), 'union', b, u)
            t = np.zeros((2, 3), dtype = int)
            got = bx.overlapping_boxes(a, b, t)
            expect(bool(got) == bool(both), 'overlapping boxes', b)
            if not both:
                continue
            ct = box_cells(t)
            expect(both <= ct <= cb, 'trim box', b, t)
            slab = [x for x in range(3) if not (t[0, x] == b[0, x] and t[1, x] == b[1, x])]
            expect(len(slab) <= 1, 'trim box is not a slab', b, t)
            best = min(len(cb) // (b[1, x] - b[0, x] + 1) * (min(a[1, x], b[1, x]) - max(a[0, x], b[0, x]) + 1) for x in range(3))
            expect(len(ct) == best, 'trim box is not the smallest slab', b, t)
            if ct != cb and (np.all(t[0] == b[0]) or np.all(t[1] == b[1])):
                full = np.arange(27).reshape((3, 3, 3))
                mask = cut(full, b) % 2 == 0
                d = b.copy()
                m = bx.trim_box_by_box_returning_new_mask(d, t, mask)
                expect(box_cells(d) == cb - ct, 'trimmed box', b, t, d)
                expect(rq.same(m, cut(full, d) % 2 == 0), 'mask of trimmed box', b, t)
        ctx.step(len(every))

    for n, (a, ca) in enumerate(every):
        if n % of == share:
            ctx.run(a.tolist(), lambda: one(a, ca))
    if share == 0:
        ctx.run('none', lambda: expect(bx.union(None, None) is None and rq.same(bx.union(every[5][0], None), every[5][0]) and
                                       rq.same(bx.union(None, every[5][0]), every[5][0]), 'union with nothing'))


def box_masks(ctx):
    import resqpy.olio.box_utilities as bx

    def one(bits, lo):
        mask = np.array(bits, dtype = bool).reshape((2, 2, 2))
        box = np.array([lo, np.array(lo) + 1])
        whole = np.zeros((4, 4, 4), dtype = bool)
        cut(whole, box)[:] = mask
        got = bx.trim_box_to_mask_returning_new_mask(box, mask)
        w = np.stack(np.where(whole))
        expect(rq.same(box, np.array([w.min(axis = 1), w.max(axis = 1)])), 'box', box)
        expect(rq.same(got, cut(whole, box)), 'mask')

    for bits in itertools.product((False, True), repeat = 8):
        if any(bits):
            for lo in ((0, 0, 0), (1, 0, 2)):
                ctx.run((bits, lo), lambda: one(bits, lo))
    for cell in itertools.product(range(3), repeat = 3):
        ctx.run(('cell', cell), lambda: (expect(bx.single_cell_box(np.array(cell)).tolist() == [list(cell)] * 2, 'single cell'),
                                         expect(bx.full_extent_box0(np.array(cell) + 1).tolist() == [[0, 0, 0], list(cell)], 'full extent')))


def jobs(tier):
    out = []

    def add(name, fn, n = 1, **kw):
        if n == 1:
            out.append((name, fn, kw))
        else:
            out.extend((name + ' ' + str(x), fn, dict(kw, share = x, of = n)) for x in range(n))

    add('boxes', boxes, 8)
    add('boxes of wide grids', boxes_wide, 2)
    add('boxes at a pillar', boxes_pillar, 2 if tier == 'quick' else 8)
    add('masks of boxes', boxes_masks)
    add('properties of boxes', boxes_props)
    for w in range(4):
        add('other properties of boxes %d' % w, boxes_more, which = w)
    add('missing geometry', boxes_holes)
    add('boxes of regular grids', boxes_regular)
    add('refinements', refinements, 8)
    add('properties of refinements', refinements_props)
    add('refinements of regular grids', refinements_regular)
    add('coarsenings', coarsenings, 2)
    add('upscaling', upscaling, 3)
    add('grandparents', grandparents)
    add('versions', versions, 4)
    add('unsplit', unsplit_all, 2)
    add('copies', copies)
    add('zones', zones, 4)
    add('single layers', single_layers, 3)
    add('zone vectors', zone_vectors, 2)
    add('dominant zones', dominant)
    add('zone properties', zone_properties)
    add('mappings', mappings, 4)
    add('cartref', cartrefs)
    add('tartans', tartans)
    add('box pairs', box_pairs, 4)
    add('box masks', box_masks)
    return out
