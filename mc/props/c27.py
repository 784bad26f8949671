"""C27: an unstructured grid is the cells, faces and nodes which it was made from.

Small complexes of cells of every shape are built with faces in all orders and senses, over crs's of both hands and
mixed units, and all pairs of questions are put to a grid freshly read from file; each answer is compared with plain
geometry of the complex.  Grids derived from other grids, from cells and from surfaces likewise."""

import itertools

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C27'
TITLE = 'An unstructured grid is the cells, faces and nodes it was made from'
BOUNDS = dict(quick = '10 complexes x 3 shapes of space x 4 orders x 6 crs; all pairs of 27 questions on fresh grids; all subsets of cells masked',
              thorough = '12 complexes x 4 shapes of space x 8 orders x 8 crs; all pairs of 27 questions on fresh grids; all subsets of cells masked')

FT = 0.3048


# complexes

def cube(x, y, z):
    """Nodes of a unit cube as (k, j, i)."""
    return [[[(x + i, y + j, z + k) for i in range(2)] for j in range(2)] for k in range(2)]


def cube_faces(x, y, z):
    c = cube(x, y, z)
    return [(c[0][0][0], c[0][0][1], c[0][1][1], c[0][1][0]), (c[1][0][0], c[1][0][1], c[1][1][1], c[1][1][0]),
            (c[0][0][0], c[0][0][1], c[1][0][1], c[1][0][0]), (c[0][1][0], c[0][1][1], c[1][1][1], c[1][1][0]),
            (c[0][0][0], c[0][1][0], c[1][1][0], c[1][0][0]), (c[0][0][1], c[0][1][1], c[1][1][1], c[1][0][1])]


def complex_of(kind):
    """List of cells, each a list of faces, each a tuple of points (which are numbers in units of the lattice)."""
    shape, _, size = kind.partition(' ')
    cubes = {'1': [(0, 0, 0)], '2': [(0, 0, 0), (1, 0, 0)], '2z': [(0, 0, 0), (0, 0, 1)], '4': [(x, y, 0) for y in (0, 1) for x in (0, 1)],
             '': [(0, 0, 0)]}[size]
    cells = []
    if shape in ('hexa', 'poly'):
        cells = [cube_faces(*c) for c in cubes]
    elif shape == 'prism':
        for x, y, z in cubes:
            c = cube(x, y, z)
            for a, b, d in (((0, 0), (0, 1), (1, 1)), ((0, 0), (1, 1), (1, 0))):
                t = [[c[k][j][i] for j, i in (a, b, d)] for k in (0, 1)]
                cells.append([tuple(t[0]), tuple(t[1])] + [(t[0][e - 1], t[0][e], t[1][e], t[1][e - 1]) for e in range(3)])
    elif shape == 'pyramid':
        for x, y, z in cubes:
            apex = (x + 0.5, y + 0.5, z + 0.5)
            for f in cube_faces(x, y, z):
                cells.append([f] + [(f[e - 1], f[e], apex) for e in range(4)])
    elif shape == 'tetra':
        for x, y, z in cubes:
            for order in itertools.permutations(range(3)):
                p = [(x, y, z)]
                for a in order:
                    q = list(p[-1])
                    q[a] += 1
                    p.append(tuple(q))
                cells.append([tuple(f) for f in itertools.combinations(p, 3)])
    elif shape == 'mixed':
        cells.append(cube_faces(0, 0, 0))
        f = cube_faces(0, 0, 0)[5]
        apex = (2, 0.5, 0.5)
        cells.append([f] + [(f[e - 1], f[e], apex) for e in range(4)])
        r0, r1 = (0, 0.5, 2), (1, 0.5, 2)
        a, b, c, d = cube_faces(0, 0, 0)[1]
        cells.append([(a, b, c, d), (a, b, r1, r0), (d, c, r1, r0), (a, d, r0), (b, c, r1)])
        if size == '':
            pass
    elif shape == 'hexagon':
        ring = [(1, 0), (2, 0), (3, 1), (2, 2), (1, 2), (0, 1)]
        for k in (0, 1):
            cells.append([tuple((x, y, k + e) for x, y in ring) for e in (0, 1)] +
                         [((*ring[i - 1], k), (*ring[i], k), (*ring[i], k + 1), (*ring[i - 1], k + 1)) for i in range(6)])
    return cells


SPACES = {
    'plain': np.diag((10.0, 20.0, 5.0)),
    'sheared': np.array([(10.0, 3.0, 0.0), (-2.0, 12.0, 0.0), (1.0, 2.0, 5.0)]),
    'turned': np.array([(8.0, 3.0, 2.0), (-4.0, 9.0, 3.0), (-2.0, -3.0, 6.0)]),
    'mirrored': np.array([(-9.0, 2.0, 1.0), (3.0, 11.0, 2.0), (1.0, -2.0, 4.0)])
}
CRSS = {
    'down': dict(), 'up': dict(z_inc_down = False), 'down ne': dict(axis_order = 'northing easting'),
    'up ne': dict(axis_order = 'northing easting', z_inc_down = False), 'ft': dict(xy_units = 'ft', z_units = 'ft'),
    'm ft': dict(xy_units = 'm', z_units = 'ft'), 'ft m up': dict(xy_units = 'ft', z_units = 'm', z_inc_down = False),
    'ft up': dict(xy_units = 'ft', z_units = 'ft', z_inc_down = False)
}
RIGHT = ('down ne', 'up')  # right handed xyz axes, for equal order of questions: easting northing with z up, northing easting with z down


class Complex:

    def __init__(self, kind, space, order, crs):
        self.kind, self.space, self.order, self.crs = kind, space, order, crs
        cells = complex_of(kind)
        self.right = (crs.startswith('up') or crs.endswith('up')) != ('ne' in crs)
        if order & 1:
            cells = cells[::-1]
        nodes = []
        for c in cells:
            for f in c:
                for p in f:
                    if p not in nodes:
                        nodes.append(p)
        if order & 2:
            nodes = nodes[::-1]
        if kind.startswith('hexa '):
            nodes.sort(key = lambda p: (p[2], p[1], p[0]))
        faces = []  # node indices
        keys = []
        self.cells = []
        for ci, c in enumerate(cells):
            fs = []
            for fi, f in enumerate(c):
                key = frozenset(f)
                if key not in keys:
                    n = len(keys)
                    keys.append(key)
                    ids = [nodes.index(p) for p in f]
                    r = (n * (order >> 1)) % len(ids)
                    ids = ids[r:] + ids[:r]
                    if (n + order) % 3 == 1:
                        ids = ids[::-1]
                    faces.append(ids)
                fs.append(keys.index(key))
            if order & 4:
                fs = fs[::-1]
            r = ci % len(fs) if order & 2 else 0
            self.cells.append(fs[r:] + fs[:r])
        if order & 4:
            k = len(faces)
            faces = faces[::-1]
            self.cells = [[k - 1 - f for f in c] for c in self.cells]
        self.faces = faces
        self.points = np.array(nodes, dtype = float) @ SPACES[space] + np.array((100.0, 50.0, 30.0))
        u = dict(m = 1.0, ft = FT)
        kw = CRSS[crs]
        self.xy, self.z = kw.get('xy_units', 'm'), kw.get('z_units', 'm')
        self.fz = u[self.z] / u[self.xy]  # factor taking z to xy units
        self.true = self.points * np.array((1.0, 1.0, self.fz))
        self.hands = []
        for c in self.cells:
            mid = self.centre(c)
            for f in c:
                out = np.dot(self.normal(f), np.mean(self.points[self.faces[f]], axis = 0) - mid) > 0.0
                self.hands.append(out == self.right)

    def centre(self, c):
        return np.mean([np.mean(self.points[self.faces[f]], axis = 0) for f in c], axis = 0)

    def normal(self, f, true = False):
        p = (self.true if true else self.points)[self.faces[f]]
        v = np.zeros(3)
        for i in range(1, len(p) - 1):
            v += np.cross(p[i] - p[0], p[i + 1] - p[0])
        return v

    def area(self, f):
        """In xy units."""
        return 0.5 * float(np.linalg.norm(self.normal(f, True)))

    def volume(self, n):
        """In local units, by pyramids to the centre."""
        c = self.cells[n]
        mid = self.centre(c)
        v = 0.0
        for f in c:
            p = self.points[self.faces[f]]
            v += abs(np.dot(self.normal(f), p[0] - mid)) / 6.0
        return v

    def stated(self, n, uom = None):
        v = self.volume(n)
        m = dict(m = 1.0, ft = FT)
        if uom is None:
            if self.xy == self.z:
                return v
            uom = 'm3'
        v *= m[self.xy]**2 * m[self.z]
        return v / {'m3': 1.0, 'ft3': FT**3, 'bbl': 0.158987294928}[uom]

    def cls(self):
        import resqpy.unstructured as rug
        return dict(hexa = rug.HexaGrid, poly = rug.UnstructuredGrid, prism = rug.PrismGrid, pyramid = rug.PyramidGrid, tetra = rug.TetraGrid,
                    mixed = rug.UnstructuredGrid, hexagon = rug.UnstructuredGrid)[self.kind.split(' ')[0]]

    def build(self, m, title = 'g'):
        crs = rq.add_crs(m, **CRSS[self.crs])
        g = self.cls()(m, title = title)
        g.crs_uuid = crs.uuid
        g.set_cell_count(len(self.cells))
        g.face_count = len(self.faces)
        g.node_count = len(self.points)
        g.points_cached = self.points.copy()
        g.nodes_per_face = np.array([n for f in self.faces for n in f], dtype = int)
        g.nodes_per_face_cl = np.cumsum([len(f) for f in self.faces])
        g.faces_per_cell = np.array([f for c in self.cells for f in c], dtype = int)
        g.faces_per_cell_cl = np.cumsum([len(c) for c in self.cells])
        g.cell_face_is_right_handed = np.array(self.hands, dtype = bool)
        return g


def as_set(a):
    return sorted(tuple(sorted(int(x) for x in p)) for p in a)


def face_order(c, n):
    """Order of the faces of a cell as given by the grid: base first in a pyramid."""
    fs = c.cells[n]
    if c.kind.startswith('pyramid'):
        fs = [f for f in fs if len(c.faces[f]) == 4] + [f for f in fs if len(c.faces[f]) == 3]
    return fs


def questions(c):
    """name -> (ask(g), check(answer))."""
    q = {}
    nc, nf = len(c.cells), len(c.faces)

    def add(name, ask, check):
        q[name] = (ask, check)

    def each(fn, n):
        return lambda g: [fn(g, i) for i in range(n)]

    def eq(want):
        return lambda a: expect(len(a) == len(want) and all(np.array_equal(np.asarray(x), np.asarray(w)) for x, w in zip(a, want)), a, 'should be', want)

    def near(want, tol = 1.0e-6):
        return lambda a: expect(len(a) == len(want) and all(rq.near(np.asarray(x), np.asarray(w), tol) for x, w in zip(a, want)), a, 'should be', want)

    fo = [face_order(c, n) for n in range(nc)]
    at = np.cumsum([0] + [len(x) for x in c.cells])
    hand = [[c.hands[at[n] + c.cells[n].index(f)] for f in fo[n]] for n in range(nc)]
    cpf = [[n for n in range(nc) if f in c.cells[n]] for f in range(nf)]
    add('points', lambda g: g.points_ref(), lambda a: expect(rq.same(a, c.points), 'points', a))
    add('box', lambda g: g.xyz_box(), lambda a: expect(rq.near(a, [np.min(c.points, axis = 0), np.max(c.points, axis = 0)]), a))
    add('face centre', each(lambda g, i: g.face_centre_point(i), nf), near([np.mean(c.points[f], axis = 0) for f in c.faces]))
    add('face counts', lambda g: [g.face_count_for_cell(n) for n in range(nc)] + [g.max_face_count_for_any_cell()],
        eq([len(x) for x in c.cells] + [max(len(x) for x in c.cells)]))
    add('node counts', lambda g: [g.node_count_for_face(f) for f in range(nf)] + [g.max_node_count_for_any_face()],
        eq([len(x) for x in c.faces] + [max(len(x) for x in c.faces)]))
    add('nodes of faces', each(lambda g, f: g.node_indices_for_face(f), nf), eq(c.faces))
    add('nodes of cells', each(lambda g, n: g.distinct_node_indices_for_cell(n), nc),
        eq([sorted(set(x for f in cell for x in c.faces[f])) for cell in c.cells]))
    add('faces of cells', each(lambda g, n: g.face_indices_for_cell(n), nc), eq(fo))
    add('handedness', each(lambda g, n: g.face_indices_and_handedness_for_cell(n), nc),
        lambda a: expect([(list(x), [bool(v) for v in h]) for x, h in a] == [(list(x), [bool(v) for v in h]) for x, h in zip(fo, hand)], a, 'should be', hand))
    add('edges of faces', each(lambda g, f: g.edges_for_face(f), nf), eq([[(f[i - 1], f[i]) for i in range(len(f))] for f in c.faces]))
    add('ordered edges of faces', each(lambda g, f: g.edges_for_face_with_node_indices_ordered_within_pairs(f), nf),
        eq([[tuple(sorted((f[i - 1], f[i]))) for i in range(len(f))] for f in c.faces]))

    def edges(a):
        for n, e in enumerate(a):
            want = sorted(set(tuple(sorted((c.faces[f][i - 1], c.faces[f][i]))) for f in c.cells[n] for i in range(len(c.faces[f]))))
            expect(all(x < y for x, y in e) and as_set(e) == want, 'edges of cell', n, e)

    add('edges of cells', each(lambda g, n: g.distinct_edges_for_cell(n), nc), edges)
    add('face centres of cells', each(lambda g, n: g.cell_face_centre_points(n), nc), near([[np.mean(c.points[c.faces[f]], axis = 0) for f in x] for x in fo]))
    add('cell centre', each(lambda g, n: g.cell_centre_point(n), nc), near([c.centre(x) for x in c.cells]))
    add('centre', each(lambda g, n: g.centre_point(n), nc), near([c.centre(x) for x in c.cells]))
    add('centres', lambda g: g.centre_point(), near([c.centre(x) for x in c.cells]))
    add('centre cached', lambda g: [g.centre_point(nc - 1, cache_centre_array = True), g.centre_point(0)], near([c.centre(c.cells[-1]), c.centre(c.cells[0])]))

    def normals(a):
        # sense of the normal relative to order of nodes is the same for all faces
        s = []
        for f, n in enumerate(a):
            w = c.normal(f, True)
            w = w / np.linalg.norm(w)
            expect(rq.near(n, w, 1.0e-6) or rq.near(n, -w, 1.0e-6), 'normal of face', f, n, 'should be', w)
            s.append(np.dot(n, w) > 0.0)
        expect(all(x == s[0] for x in s), 'normals are not all in the same sense relative to nodes', s)

    add('normals', each(lambda g, f: g.face_normal(f), nf), normals)

    def planar(a):
        for f, p in enumerate(a):
            expect(rq.near(p, c.points[c.faces[f]], 1.0e-5), 'planar points of face', f, p, 'should be', c.points[c.faces[f]])

    add('planar points', each(lambda g, f: g.planar_face_points(f), nf), planar)

    def flat(a):
        for f, p in enumerate(a):
            w = c.true[c.faces[f]]
            expect(p.shape == w.shape and np.all(np.abs(p[:, 2]) < 1.0e-9), 'flattened face', f, p)
            for i, j in itertools.combinations(range(len(w)), 2):
                expect(abs(np.linalg.norm(p[i] - p[j]) - np.linalg.norm(w[i] - w[j])) < 1.0e-5, 'flattened face', f, p, 'is not the shape of', w)

    add('flattened', each(lambda g, f: g.planar_face_points(f, xy_plane = True), nf), flat)

    def triangles(a):
        for f, (t, l) in enumerate(a):
            fn = c.faces[f]
            expect(t.shape == (len(fn) - 2, 3) and l.shape == t.shape and np.array_equal(np.array(fn)[l], t), 'triangles of face', f, t, l)
            s = sum(0.5 * np.linalg.norm(np.cross(c.true[y] - c.true[x], c.true[z] - c.true[x])) for x, y, z in t)
            expect(abs(s - c.area(f)) < 1.0e-5, 'triangles of face', f, t, 'have area', s, 'of', c.area(f))

    add('triangles', each(lambda g, f: (g.face_triangulation(f), g.face_triangulation(f, local_nodes = True)), nf), triangles)
    if c.xy == c.z:
        add('areas', each(lambda g, f: g.area_of_face(f), nf), near([c.area(f) for f in range(nf)], 1.0e-4))
    add('areas in plane', each(lambda g, f: g.area_of_face(f, in_plane = True), nf), near([c.area(f) for f in range(nf)], 1.0e-4))
    add('volumes', each(lambda g, n: g.volume(n), nc), near([c.stated(n) for n in range(nc)], 1.0e-4))
    if c.kind.split(' ')[0] in ('tetra', 'hexa', 'pyramid'):
        add('volumes by uom', lambda g: [g.volume(n, required_uom = u) for n in range(nc) for u in ('m3', 'ft3', 'bbl')],
            near([c.stated(n, u) for n in range(nc) for u in ('m3', 'ft3', 'bbl')], 1.0e-3))
    if c.kind.startswith('tetra'):
        add('grid volume', lambda g: [g.grid_volume()], near([sum(c.stated(n) for n in range(nc))], 1.0e-3))
        add('hands from geometry', each(lambda g, n: g.determine_cell_face_right_handedness(n), nc), eq(hand))
    if c.kind.startswith('hexa '):
        add('corner points', each(lambda g, n: g.corner_points(n), nc), near([c.points[sorted(set(x for f in cell for x in c.faces[f]))] for cell in c.cells]))
    add('cells per face', lambda g: g.set_cells_per_face(), lambda a: expect([[x for x in p if x >= 0] for p in a.tolist()] == cpf and a.shape == (nf, 2), a, 'should be', cpf))
    add('external faces', lambda g: list(g.external_face_indices()), eq([f for f in range(nf) if len(cpf[f]) == 1]))
    add('check', lambda g: g.check_indices(), lambda a: None)
    add('uoms', lambda g: (g.xy_units(), g.z_units(), g.active_cell_count(), g.cell_count, g.node_count, g.face_count),
        lambda a: expect(a == (c.xy, c.z, nc, nc, len(c.points), nf), a))
    return q


def ask_all(g, c, names, qs):
    for n in names:
        with about(n):
            qs[n][1](qs[n][0](g))


def complex_case(ctx, kind, space, order, crs, pairs):
    c = Complex(kind, space, order, crs)
    qs = questions(c)
    path = ctx.path('u.epc')
    m = rq.new_model(path, h5 = True)
    g = c.build(m)
    ask_all(g, c, qs, qs)
    g = c.build(m)
    g.write_hdf5()
    g.create_xml()
    ask_all(g, c, list(qs)[::-1], qs)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    names = list(qs)

    def fresh(**kw):
        x = c.cls()(m, uuid = g.uuid, **kw)
        expect(x.title == 'g' and str(x.crs_uuid) == str(g.crs_uuid), 'read back', x.title)
        return x

    ask_all(fresh(), c, names, qs)
    ask_all(fresh(cache_geometry = True, find_properties = False), c, names[::-1], qs)
    h = fresh(cache_geometry = True)
    expect([bool(b) for b in h.cell_face_is_right_handed] == [bool(b) for b in c.hands], 'hands read back', h.cell_face_is_right_handed)
    todo = itertools.product(names, repeat = 2) if pairs else [(n, names[0]) for n in names]
    for p in todo:
        with about('asked in order ' + str(p)):
            ask_all(fresh(), c, p, qs)
        ctx.step(1)
    ctx.state((kind, space, order, crs))
    ctx.outcome((kind, c.right))
    rq.close(m)


def complexes(ctx, kind, spaces, orders, crss):
    for s in spaces:
        for o in orders:
            for crs in crss:
                pairs = o == orders[0] and s == 'turned' and crs == 'ft m up'
                ctx.run((kind, s, o, crs), complex_case, ctx, kind, s, o, crs, pairs)


# masks and inactive cells

def masks_case(ctx, kind, order):
    c = Complex(kind, 'plain', order, 'down')
    nc, nf = len(c.cells), len(c.faces)
    path = ctx.path('u.epc')
    m = rq.new_model(path, h5 = True)
    g = c.build(m)
    for bits in itertools.product((False, True), repeat = nc) if nc < 7 else [tuple((b >> n) & 1 == 1 for n in range(nc)) for b in range(0, 1 << nc, 17)]:
        mask = np.array(bits)
        cpf = [[n for n in range(nc) if f in c.cells[n] and not bits[n]] for f in range(nf)]
        got = g.masked_cells_per_face(mask)
        expect([[x for x in p if x >= 0] for p in got.tolist()] == cpf, 'cells per face without', bits, got, cpf)
        expect(list(g.external_face_indices_for_masked_cells(mask)) == [f for f in range(nf) if len(cpf[f]) == 1], 'external faces without', bits)
        expect(list(g.internal_face_indices_for_masked_cells(mask)) == [f for f in range(nf) if len(cpf[f]) == 2], 'internal faces without', bits)
        ctx.step(1)
    ctx.state((kind, order))
    ctx.outcome(kind)
    rq.close(m)


def inactive_case(ctx, kind, bits, how):
    c = Complex(kind, 'plain', 0, 'down')
    path = ctx.path('u.epc')
    m = rq.new_model(path, h5 = True)
    g = c.build(m)
    g.inactive = np.array(bits)
    g.all_inactive = all(bits)
    if how == 'off':
        g.write_hdf5(write_active = False)
        g.create_xml(write_active = False)
    else:
        g.write_hdf5()
        g.create_xml()
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    for kw in (dict(), dict(find_properties = False), dict(cache_geometry = True)):
        h = c.cls()(m, uuid = g.uuid, **kw)
        want = np.array(bits) if how == 'on' else np.zeros(len(bits), dtype = bool)
        expect(np.array_equal(h.inactive, want) and h.active_cell_count() == np.count_nonzero(~want), kw, 'inactive', h.inactive, 'should be', want)
        expect(bool(h.all_inactive) == bool(np.all(want)), kw, 'all inactive', h.all_inactive)
        expect(np.array_equal(h.extract_inactive_mask(), want), kw, 'extracted')
    expect(len(m.uuids(obj_type = 'DiscreteProperty')) == (1 if how == 'on' else 0), 'properties stored', m.titles())
    ctx.state((kind, bits, how))
    ctx.outcome(bits)
    rq.close(m)


def masks(ctx, kind):
    for o in (0, 3):
        ctx.run((kind, o), masks_case, ctx, kind, o)
    n = len(complex_of(kind))
    if n < 5:
        for bits in itertools.product((False, True), repeat = n):
            for how in ('on', 'off'):
                ctx.run((kind, bits, how), inactive_case, ctx, kind, bits, how)


# tetrahedra of a cell

def tetra_case(ctx, kind, space, order, crs, hands):
    import resqpy.unstructured as rug
    c = Complex(kind, space, order, crs)
    path = ctx.path('u.epc')
    m = rq.new_model(path, h5 = True)
    g = c.build(m)
    g.write_hdf5()
    g.create_xml()
    ts = []
    for n in range(len(c.cells)):
        t = rug.TetraGrid.from_unstructured_cell(g, n, set_handedness = hands)
        t.write_hdf5()
        t.create_xml()
        ts.append(t)
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    for n, t in enumerate(ts):
        for g in (t, rug.TetraGrid(m, uuid = t.uuid)):
            expect(abs(g.grid_volume() - c.stated(n)) < 1.0e-4 * c.stated(n), 'volume', g.grid_volume(), 'should be', c.stated(n))
            g.check_indices()
            g.check_tetra()
            # outer surface of the tetrahedra is that of the cell
            ext = sum(np.linalg.norm(np.cross(*(p[1:] - p[0]))) * 0.5 for p in
                      (g.points_ref()[g.node_indices_for_face(f)] * np.array((1.0, 1.0, c.fz)) for f in g.external_face_indices()))
            expect(abs(ext - sum(c.area(f) for f in c.cells[n])) < 1.0e-4 * ext, 'surface area', ext)
            if hands:
                for k in range(g.cell_count):
                    fs, h = g.face_indices_and_handedness_for_cell(k)
                    p = g.points_ref()
                    mid = np.mean(p[g.distinct_node_indices_for_cell(k)], axis = 0)
                    for f, r in zip(fs, h):
                        x = p[g.node_indices_for_face(f)]
                        out = np.dot(np.cross(x[1] - x[0], x[2] - x[0]), x[0] - mid) > 0.0
                        expect(bool(r) == (out == c.right), 'hand of face', f, 'of tetrahedron', k, r)
    ctx.state((kind, space, order, crs, hands))
    ctx.outcome((kind, hands))
    rq.close(m)


def tetras(ctx, kind, spaces, orders, crss):
    for s in spaces:
        for o in orders:
            for crs in crss:
                for hands in (False, True):
                    ctx.run((kind, s, o, crs, hands), tetra_case, ctx, kind, s, o, crs, hands)


# hexahedral grid from an ijk grid

def hexa_case(ctx, shape, lean, flip, up, ne, inactive, props, again):
    import resqpy.grid as grr
    import resqpy.property as rqp
    import resqpy.unstructured as rug
    path = ctx.path('h.epc')
    m = rq.new_model(path, h5 = True)
    crs = rq.add_crs(m, z_inc_down = not up, axis_order = 'northing easting' if ne else 'easting northing')
    spec = ijk.Spec(*shape, lean = lean, flip_i = flip)
    g = ijk.build(m, crs, spec, 'source')
    n = g.cell_count()
    if inactive is not None:
        g.inactive = (np.arange(n) % 3 == inactive).reshape(tuple(g.extent_kji))
    ijk.store(g)
    g = grr.any_grid(m, uuid = g.uuid)
    made = []
    if props:
        look = rqp.StringLookup(m, int_to_str_dict = {0: 'sand', 1: 'shale', 2: 'coal'}, title = 'facies')
        look.create_xml()
        import resqpy.time_series as rqt
        ts = rqt.TimeSeries(m, first_timestamp = '2020-01-01', title = 'ts')
        ts.add_timestamp('2021-01-01')
        ts.create_xml()
        v = np.arange(n, dtype = float).reshape(tuple(g.extent_kji))
        todo = [('A', v + 0.5, dict(property_kind = 'porosity', uom = 'm3/m3', realization = 2)),
                ('F', (v % 3).astype(int), dict(property_kind = 'facies', discrete = True, string_lookup_uuid = look.uuid, null_value = -1)),
                ('S', v * 0.1, dict(property_kind = 'saturation', uom = 'm3/m3', facet_type = 'what', facet = 'oil', time_index = 1, time_series_uuid = ts.uuid)),
                ('K', v + 3.0, dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'K', extra_metadata = {'from': 'core'})),
                ('C', None, dict(property_kind = 'net to gross ratio', uom = 'm3/m3', const_value = 0.75))][-props if props < 0 else 0:][:abs(props)]
        for title, a, kw in todo:
            if a is None:
                p = rqp.Property.from_array(m, cached_array = None, source_info = 'x', keyword = title, support_uuid = g.uuid, expand_const_arrays = False, **kw)
            else:
                p = rqp.Property.from_array(m, cached_array = a, source_info = 'x', keyword = title, support_uuid = g.uuid, **kw)
            made.append((p, a if a is not None else np.full(tuple(g.extent_kji), 0.75), kw))
    if again:
        m.store_epc()
        rq.close(m)
        m = rq.open_model(path)
    cp = spec.cp.reshape((n, 2, 2, 2, 3))
    h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = props != 0, title = 'hexa')
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    g = grr.any_grid(m, uuid = g.uuid)
    vols = g.volume().reshape(-1)
    for x in (h, rug.HexaGrid(m, uuid = h.uuid)):
        expect(x.cell_count == n and x.title == 'hexa' and str(x.crs_uuid) == str(crs.uuid), 'cells', x.cell_count)
        expect(x.node_count == (shape[0] + 1) * (shape[1] + 1) * (shape[2] + 1), 'nodes', x.node_count)
        x.check_indices()
        x.check_hexahedral()
        right = up != ne
        p = x.points_ref()
        for c in range(n):
            expect(rq.near(x.corner_points(c).reshape((2, 2, 2, 3)), cp[c]), 'corner points of cell', c, x.corner_points(c), 'should be', cp[c])
            expect(abs(x.volume(c) - vols[c]) < 1.0e-6 * abs(vols[c]) and x.volume(c) > 0.0, 'volume', c, x.volume(c), 'should be', vols[c])
            expect(rq.near(x.centre_point(c), np.mean(cp[c], axis = (0, 1, 2))), 'centre', c)
            fs, hs = x.face_indices_and_handedness_for_cell(c)
            mid = np.mean(cp[c], axis = (0, 1, 2))
            for n_, (f, r) in enumerate(zip(fs, hs)):
                ax, pol = divmod(n_, 2)
                q = p[x.node_indices_for_face(f)]
                want = np.take(cp[c], pol, axis = ax).reshape((4, 3))
                expect(sorted(map(tuple, np.round(q, 6))) == sorted(map(tuple, np.round(want, 6))), 'face', n_, 'of cell', c, q, 'should be', want)
                out = np.dot(np.cross(q[2] - q[0], q[3] - q[1]), np.mean(q, axis = 0) - mid) > 0.0
                expect(bool(r) == (out == right), 'hand of face', n_, 'of cell', c, r)
        cpf = x.set_cells_per_face()
        for f in range(x.face_count):
            pair = [y for y in cpf[f] if y >= 0]
            if len(pair) == 2:
                a, b = [np.array(np.unravel_index(y, shape)) for y in pair]
                expect(np.sum(np.abs(a - b)) == 1, 'face', f, 'is between cells', pair)
        nint = shape[1] * shape[2] * (shape[0] - 1) + shape[0] * shape[2] * (shape[1] - 1) + shape[0] * shape[1] * (shape[2] - 1)
        expect(np.count_nonzero(cpf[:, 1] >= 0) == nint, 'internal faces', np.count_nonzero(cpf[:, 1] >= 0), nint)
        want = np.zeros(n, dtype = bool) if inactive is None else np.arange(n) % 3 == inactive
        got = x.inactive if x.inactive is not None else np.zeros(n, dtype = bool)
        expect(np.array_equal(got, want), 'inactive', got)
    if props:
        pc = rug.HexaGrid(m, uuid = h.uuid).extract_property_collection()
        for p, a, kw in made:
            with about('property ' + p.title):
                parts = [x for x in pc.parts() if pc.citation_title_for_part(x) == p.title]
                expect(len(parts) == 1, 'found', len(parts))
                x = parts[0]
                expect(rq.near(pc.cached_part_array_ref(x), a.reshape(-1), 1.0e-6), 'values', pc.cached_part_array_ref(x))
                expect(pc.indexable_for_part(x) == 'cells' and pc.property_kind_for_part(x) == kw['property_kind'], 'kind', pc.property_kind_for_part(x))
                expect(pc.uom_for_part(x) == kw.get('uom') and pc.facet_for_part(x) == kw.get('facet') and pc.realization_for_part(x) == kw.get('realization'), 'uom etc.')
                for name, got in (('string_lookup_uuid', pc.string_lookup_uuid_for_part(x)), ('time_series_uuid', pc.time_series_uuid_for_part(x))):
                    w = kw.get(name)
                    expect((got is None) == (w is None) and (w is None or str(got) == str(w)), name, got, 'should be', w)
                expect(pc.time_index_for_part(x) == kw.get('time_index'), 'time index', pc.time_index_for_part(x))
                expect((pc.extra_metadata_for_part(x) or {}).get('from') == (kw.get('extra_metadata') or {}).get('from'), 'metadata', pc.extra_metadata_for_part(x))
    ctx.state((shape, lean, flip, up, ne, inactive, props, again))
    ctx.outcome((flip, up, ne))
    rq.close(m)


def hexas(ctx, flip, up, ne):
    for shape in ((1, 1, 1), (2, 1, 1), (1, 2, 3), (2, 3, 2), (3, 2, 1)):
        for lean in (0.0, 0.02):
            ctx.run((shape, lean, flip, up, ne), hexa_case, ctx, shape, lean, flip, up, ne, None, 0, False)


def hexa_props(ctx, inactive):
    for props in (0, 1, 2, 3, 4, 5, -1, -2, -3, -4):
        for again in (False, True):
            ctx.run((inactive, props, again), hexa_case, ctx, (2, 2, 3), 0.0, False, False, False, inactive, props, again)
    ctx.run((inactive, 'none to inherit'), hexa_none_case, ctx, inactive)


def hexa_none_case(ctx, inactive):
    import resqpy.unstructured as rug
    m = rq.new_model(ctx.path('h.epc'), h5 = True)
    crs = rq.add_crs(m)
    g = ijk.build(m, crs, ijk.Spec(2, 2, 2), 'source')
    ijk.store(g)
    h = rug.HexaGrid.from_unsplit_grid(m, g.uuid, inherit_properties = True, title = 'hexa')
    expect(h.cell_count == 8, 'cells', h.cell_count)
    ctx.outcome('none')
    rq.close(m)


# vertical prisms

TRIS = {
    'one': ([(0, 0), (40, 0), (0, 30)], [(0, 1, 2)]),
    'two': ([(0, 0), (40, 0), (0, 30), (40, 30)], [(0, 1, 2), (1, 3, 2)]),
    'turned': ([(0, 30), (40, 0), (0, 0), (40, 30)], [(1, 2, 0), (0, 3, 1)]),
    'fan': ([(20, 15), (0, 0), (40, 0), (40, 30), (0, 30)], [(0, 1, 2), (3, 0, 2), (4, 0, 3), (4, 1, 0)])
}


def level(shape, n, xy, up):
    x, y = xy
    z = dict(flat = 100.0 + 10.0 * n, dip = 100.0 + 10.0 * n + 0.1 * x + (0.05 + 0.02 * n) * y, fold = 100.0 + 10.0 * n + 0.2 * abs(x - 20.0))[shape]
    return -z if up else z


def prism_case(ctx, name, shape, nk, how, crs_name, where):
    from resqpy.surface import Surface
    import resqpy.unstructured as rug
    path = ctx.path('v.epc')
    m = rq.new_model(path, h5 = True)
    kw = CRSS[crs_name]
    crs = rq.add_crs(m, **kw)
    up = not kw.get('z_inc_down', True)
    pts, tris = TRIS[name]
    pts = np.array(pts, dtype = float)
    surfs = []
    cut = []
    for n in range(nk + 1):
        if n == 0 and how == 'top':
            xy, t = pts, np.array(tris)
        else:
            # another triangulation, folded along x = 20
            x1 = 30.0 if how == 'partial' and n == 1 else 60.0
            xy = np.array([(-10.0, -20.0), (20.0, -20.0), (x1, -20.0), (-10.0, 50.0), (20.0, 50.0), (x1, 50.0)])
            t = np.array([(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4)])
        cut.append(n == 1 and how == 'partial')
        p = np.array([(x, y, level(shape, n, (x, y), up)) for x, y in xy])
        s = Surface(m, crs_uuid = crs.uuid, title = f's{n}')
        s.set_from_triangles_and_points(t, p)
        surfs.append(s)
    args = dict()
    if how != 'top':
        args = dict(column_points = pts if where == 2 else np.concatenate((pts, np.zeros((len(pts), 1))), axis = 1), column_triangles = np.array(tris))
    if how == 'top' and shape == 'fold' and name != 'fan':
        pass  # top surface is then not folded; levels below are
    g = rug.VerticalPrismGrid.from_surfaces(m, surfs, title = 'v', **args)
    # expected points
    want = np.zeros((nk + 1, len(pts), 3))
    for n in range(nk + 1):
        for i, (x, y) in enumerate(pts):
            z = level(shape, n, (x, y), up)
            if cut[n] and x > 30.0:
                z = want[n - 1, i, 2]
            want[n, i] = (x, y, z)
    nc = len(tris)
    g.write_hdf5()
    g.create_xml()
    m.store_epc()
    rq.close(m)
    rq.Stored(path).check_wellformed()
    m = rq.open_model(path)
    cells = [(k, t) for k in range(nk) for t in range(nc)]
    wcp = np.array([[want[k][list(tris[t])], want[k + 1][list(tris[t])]] for k, t in cells])
    thick = np.mean(wcp[:, 1, :, 2] - wcp[:, 0, :, 2], axis = 1)
    area = np.array([0.5 * abs(np.cross(pts[list(tris[t])][1] - pts[list(tris[t])][0], pts[list(tris[t])][2] - pts[list(tris[t])][0])) for _, t in cells])
    u = dict(m = 1.0, ft = FT)
    fx, fz = u[kw.get('xy_units', 'm')], u[kw.get('z_units', 'm')]
    vol = np.abs(thick) * area * (1.0 if fx == fz else fx * fx * fz)
    qs = {
        'columns': lambda g: expect(g.column_count() == nc and g.nk == nk and g.cell_count == nc * nk, 'columns', g.column_count(), g.nk),
        'triangulation': lambda g: expect([tuple(np.roll(t, -list(t).index(min(t)))) for t in g.triangulation().tolist()] ==
                                          [tuple(np.roll(t, -list(t).index(min(t)))) for t in tris], 'triangulation', g.triangulation()),
        'corner points': lambda g: expect(rq.near(same_start(g.corner_points(), wcp), wcp, 1.0e-5), 'corner points', g.corner_points(), 'should be', wcp),
        'corner point': lambda g: expect(all(rq.near(same_start(g.corner_points(c)[None], wcp[c][None])[0], wcp[c], 1.0e-5) for c in range(len(cells))), 'corner points one by one'),
        'thickness': lambda g: expect(rq.near(g.thickness(), thick, 1.0e-5), 'thickness', g.thickness(), thick),
        'thickness one': lambda g: expect(all(rq.near(g.thickness(c), thick[c], 1.0e-5) for c in range(len(cells))), 'thickness one by one'),
        'centre': lambda g: expect(rq.near(g.centre_point(), np.mean(wcp, axis = (1, 2)), 1.0e-5), 'centres', g.centre_point()),
        'centre one': lambda g: expect(all(rq.near(g.centre_point(c), np.mean(wcp[c], axis = (0, 1)), 1.0e-5) for c in range(len(cells))), 'centres one by one',
                                       g.centre_point(0)),
        'centres': lambda g: expect(rq.near(g.cell_centre_point(), np.mean(wcp, axis = (1, 2)), 1.0e-5), 'cell centres', g.cell_centre_point()),
        'top faces': lambda g: expect(all(rq.near(np.sort(g.points_ref()[g.node_indices_for_face(f)], axis = 0), np.sort(wcp[c, 0], axis = 0), 1.0e-5)
                                          for c, f in enumerate(g.top_faces())), 'top faces', g.top_faces()),
        'check': lambda g: (g.check_indices(), g.check_prism()),
        'box': lambda g: expect(rq.near(g.xyz_box(), [np.min(want, axis = (0, 1)), np.max(want, axis = (0, 1))], 1.0e-5), 'box', g.xyz_box()),
        'external': lambda g: expect(len(g.external_face_indices()) == 2 * nc + nk * sum(1 for c in edge_counts(tris).values() if c == 1), 'external faces'),
    }
    if how != 'partial' and np.all(np.abs(thick) > 0.01):
        qs['volume'] = lambda g: expect(rq.near([g.volume(c) for c in range(len(cells))], vol, 1.0e-3), 'volumes', [g.volume(c) for c in range(len(cells))], vol)

    def upright(g):
        for c in range(len(cells)):
            fs = g.face_indices_for_cell(c)
            expect(len(fs) == 5 and [len(g.node_indices_for_face(f)) for f in fs] == [3, 3, 4, 4, 4], 'faces of cell', c)
            for f in fs[2:]:
                p = g.points_ref()[g.node_indices_for_face(f)]
                expect(len(set(map(tuple, np.round(p[:, :2], 6)))) == 2 and rq.near(p[0, :2], p[3, :2]) and rq.near(p[1, :2], p[2, :2]), 'upright face', p)

    qs['upright'] = upright
    for name_, q in qs.items():
        with about(name_):
            q(g)
    for a, b in itertools.product(qs, repeat = 2):
        h = rug.VerticalPrismGrid(m, uuid = g.uuid)
        with about('asked in order ' + str((a, b))):
            qs[a](h)
            qs[b](h)
        ctx.step(1)
    ctx.state((name, shape, nk, how, crs_name, where))
    ctx.outcome((how, nk))
    rq.close(m)


def same_start(cp, want):
    """Triangles may start from any corner."""
    cp = np.array(cp)
    for c in range(len(cp)):
        for r in range(3):
            x = np.roll(cp[c], r, axis = 1)
            if rq.near(x[0], want[c][0], 1.0e-5):
                cp[c] = x
                break
    return cp


def edge_counts(tris):
    d = {}
    for t in tris:
        for e in range(3):
            k = frozenset((t[e - 1], t[e]))
            d[k] = d.get(k, 0) + 1
    return d


def prisms(ctx, name, nk, crss):
    for shape in ('flat', 'dip', 'fold'):
        for how, where in (('top', 3), ('columns', 2), ('columns', 3), ('partial', 2)):
            for crs in crss:
                ctx.run((name, shape, nk, how, crs, where), prism_case, ctx, name, shape, nk, how, crs, where)


def jobs(tier):
    q = tier == 'quick'
    out = []
    kinds = ['hexa 1', 'hexa 2', 'hexa 4', 'poly 2', 'prism 1', 'prism 2', 'pyramid 1', 'tetra 1', 'mixed', 'hexagon'] + ([] if q else ['tetra 2', 'hexa 2z'])
    for k in kinds:
        for crs in list(CRSS)[:6 if not q else 7] if q else list(CRSS):
            big = k.startswith(('tetra', 'pyramid', 'hexa 4'))
            out.append((f'{k} {crs}', complexes, dict(kind = k, spaces = ['turned', 'plain', 'sheared'] if q else list(SPACES), orders = ((0, 7) if big else (0, 3, 5, 6)) if q else tuple(range(8)), crss = [crs])))
        out.append((f'masks {k}', masks, dict(kind = k)))
        for crs in ('down', 'up', 'ft m up'):
            out.append((f'tetrahedra {k} {crs}', tetras, dict(kind = k, spaces = ['plain', 'turned'], orders = (0, 3) if q else tuple(range(8)), crss = [crs])))
    for flip, up, ne in itertools.product((False, True), repeat = 3):
        out.append((f'hexa from ijk {flip} {up} {ne}', hexas, dict(flip = flip, up = up, ne = ne)))
    for inactive in (None, 0, 1):
        out.append((f'hexa properties {inactive}', hexa_props, dict(inactive = inactive)))
    for name in TRIS:
        for nk in (1, 2, 3):
            out.append((f'prisms {name} {nk}', prisms, dict(name = name, nk = nk, crss = ['down', 'ft m up'] if q else ['down', 'up', 'ft m up', 'down ne'])))
    return out
