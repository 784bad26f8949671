"""C22: a triangulated surface is the triangles which it was made from, and answers accordingly.

Surfaces are made in every way from small sources (all patterns of missing values, all shapes up to a bound), put through
all short histories of changes, and compared with a plain list of triangles.  Lines between all pairs of points of a
lattice are intersected with triangles of that lattice by each of the functions, and compared with exact integer
arithmetic.  Trimming, splitting, point sets and paths of wells likewise."""

import itertools
import os
from fractions import Fraction

import numpy as np

from mc import ijk, rq
from mc.core import about, expect

ID = 'C22'
TITLE = 'A triangulated surface is the triangles it was made from, and answers as such'
BOUNDS = dict(quick = 'all patterns of missing values in 3x3 and 2x4 meshes; 6 makings x all pairs of 11 operations; 600 lines x 56 triangles',
              thorough = 'all patterns of missing values in 3x4 meshes; 6 makings x all triples of 11 operations; 600 lines x 230 triangles')

FT = 0.3048


def area_xy(q):
    return 0.5 * ((q[..., 1, 0] - q[..., 0, 0]) * (q[..., 2, 1] - q[..., 0, 1]) - (q[..., 2, 0] - q[..., 0, 0]) * (q[..., 1, 1] - q[..., 0, 1]))


def area(q):
    return 0.5 * np.linalg.norm(np.cross(q[..., 1, :] - q[..., 0, :], q[..., 2, :] - q[..., 0, :]), axis = -1)


def joined(patches):
    ts, ps, n = [], [], 0
    for t, p in patches:
        ts.append(np.asarray(t) + n)
        ps.append(p)
        n += len(p)
    return np.concatenate(ts), np.concatenate(ps)


def same_triangles(got, want, p, what):
    """Same triangles in the same order with the same sense, from whichever corner each starts; a triangle
    which is upright has no sense."""
    got, want = np.asarray(got), np.asarray(want)
    expect(got.shape == want.shape, what, 'triangles', got.tolist(), 'should be', want.tolist())
    flat = np.abs(area_xy(p[want])) < 1.0e-9
    for n in range(len(want)):
        g, w = got[n], want[n]
        ok = any(tuple(np.roll(g, r)) == tuple(w) for r in range(3)) or (flat[n] and sorted(g) == sorted(w))
        expect(ok, what, 'triangle', n, g.tolist(), 'should be', w.tolist())


def check_surface(s, patches, what = '', tol = 1.0e-6):
    expect(s.number_of_patches() == len(patches), what, 'patches', s.number_of_patches())
    expect(s.triangle_count() == sum(len(t) for t, _ in patches), what, 'triangle count', s.triangle_count())
    expect(s.node_count() == sum(len(p) for _, p in patches), what, 'node count', s.node_count())
    for n, (t, p) in enumerate(patches):
        expect(s.triangle_count(patch = n) == len(t) and s.node_count(patch = n) == len(p), what, 'counts of patch', n)
        gt, gp = s.triangles_and_points(patch = n)
        expect(rq.near(gp, p, tol), what, 'points of patch', n, gp, 'should be', p)
        same_triangles(gt, t, p, (what, 'patch', n))
    t, p = joined(patches)
    for copy in (False, True):
        gt, gp = s.triangles_and_points(copy = copy)
        expect(gt is not None and gp is not None, what, 'no triangles or points')
        expect(rq.near(gp, p, tol), what, 'points', gp, 'should be', p)
        same_triangles(gt, t, p, (what, 'all'))


def store(s):
    s.write_hdf5()
    s.create_xml()
    s.model.store_epc()
    path = s.model.epc_file
    rq.close(s.model)
    from resqpy.surface import Surface
    m = rq.open_model(path)
    return m, Surface(m, uuid = s.uuid)


# ---------------------------------------------------------------------------------------------------------------------
# making


def mesh_points(nj, ni, n = 0):
    j, i = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
    return np.stack((100.0 + 10.0 * i + 0.5 * j, 50.0 - 8.0 * j + 0.25 * i, 1000.0 + ((3 + n) * i + (7 + 2 * n) * j * j + i * j) % 11), axis = -1).astype(float)


def check_quads(s, corners, quad, points, split = None):
    """corners: array (nj, ni, 4, 3) of the corners of each quadrilateral, in order round it."""
    nj, ni = corners.shape[:2]
    t, p = s.triangles_and_points()
    per = 4 if quad else 2
    expect(len(t) == per * nj * ni, 'count of triangles', len(t))
    expect(len(p) == points + (nj * ni if quad else 0), 'count of points', len(p))
    every = np.arange(len(t))
    ja, ia = s.column_from_triangle_index(every)
    found = {}
    for n in range(len(t)):
        ji = tuple(int(x) for x in s.column_from_triangle_index(n))
        expect(ji == (int(ja[n]), int(ia[n])), 'column of triangle', n, 'alone', ji, 'of all', (ja[n], ia[n]))
        found.setdefault(ji, []).append(n)
    expect(set(found) == set(itertools.product(range(nj), range(ni))), 'columns', sorted(found))
    expect(tuple(s.column_from_triangle_index(len(t))) == (None, None), 'column of a triangle too many')
    for ji, ns in found.items():
        c = corners[ji]
        expect(len(ns) == per, 'triangles for column', ji, len(ns))
        allowed = list(c) + ([c.mean(axis = 0)] if quad else [])
        sides = []
        for n in ns:
            which = []
            for v in p[t[n]]:
                d = [np.abs(v - a).max() for a in allowed]
                expect(min(d) < 1.0e-6, 'corner', v, 'of a triangle of column', ji, 'is none of', allowed)
                which.append(int(np.argmin(d)))
            expect(len(set(which)) == 3, 'corners of a triangle', which)
            if quad:
                expect(4 in which, 'triangle without the mean of the corners')
            sides += [frozenset(x) for x in ((which[0], which[1]), (which[1], which[2]), (which[2], which[0]))]
        outer = [frozenset((a, (a + 1) % 4)) for a in range(4)]
        for o in outer:
            expect(sides.count(o) == 1, 'side', sorted(o), 'of column', ji, 'is used', sides.count(o), 'times')
        rest = [x for x in sides if x not in outer]
        expect(all(rest.count(x) == 2 for x in rest), 'inner edges of column', ji)


def quad_corners(xyz):
    return np.stack((xyz[:-1, :-1], xyz[:-1, 1:], xyz[1:, 1:], xyz[1:, :-1]), axis = 2)


def do_meshes(ctx, most):
    from resqpy.surface import Surface, Mesh
    for nj, ni in itertools.product(range(2, most + 1), repeat = 2):
        for quad in (False, True):
            for way in ('array', 'mesh', 'regular mesh', 'ref&z mesh'):

                def case(nj = nj, ni = ni, quad = quad, way = way):
                    m = rq.new_model(ctx.path('m.epc'), h5 = True)
                    crs = rq.add_crs(m)
                    xyz = mesh_points(nj, ni)
                    s = Surface(m, crs_uuid = crs.uuid, title = 's')
                    if way == 'array':
                        s.set_from_irregular_mesh(xyz, quad_triangles = quad)
                    else:
                        if way == 'mesh':
                            mesh = Mesh(m, xyz_values = xyz, crs_uuid = crs.uuid, title = 'm')
                        else:
                            d = np.array([[5.0, 0.5, 0.25], [-0.5, 6.0, 0.5]])
                            origin = (10.0, 20.0, 30.0)
                            mesh = Mesh(m, mesh_flavour = 'regular', ni = ni, nj = nj, origin = origin, dxyz_dij = d, crs_uuid = crs.uuid, title = 'm')
                            j, i = np.meshgrid(np.arange(nj), np.arange(ni), indexing = 'ij')
                            reg = np.array(origin) + i[..., None] * d[0] + j[..., None] * d[1]
                            if way == 'ref&z mesh':
                                mesh.write_hdf5()
                                mesh.create_xml()
                                mesh = Mesh(m, mesh_flavour = 'ref&z', ni = ni, nj = nj, z_supporting_mesh_uuid = mesh.uuid, z_values = xyz[..., 2].copy(), crs_uuid = crs.uuid, title = 'z')
                                reg[..., 2] = xyz[..., 2]
                            xyz = reg
                        s = Surface(m, mesh = mesh, quad_triangles = quad, crs_uuid = crs.uuid, title = 's')
                    check_quads(s, quad_corners(xyz), quad, nj * ni)
                    expect(rq.near(s.triangles_and_points()[1][:nj * ni], xyz.reshape((-1, 3))), 'points are not those of the mesh')
                    want = [tuple(a.copy() for a in s.triangles_and_points())]
                    m, s = store(s)
                    check_surface(s, want, 'stored', 1.0e-9)
                    rq.close(m)
                    ctx.outcome('quads')

                ctx.run(dict(shape = (nj, ni), quad = quad, way = way), case)
                ctx.state((nj, ni, quad, way))
    for nj, ni in itertools.product(range(1, most), repeat = 2):
        for quad in (False, True):

            def case(nj = nj, ni = ni, quad = quad):
                m = rq.new_model(ctx.path('t.epc'), h5 = True)
                crs = rq.add_crs(m)
                base = mesh_points(nj + 1, ni + 1)
                xyz = np.stack((np.stack((base[:-1, :-1], base[:-1, 1:]), axis = 2), np.stack((base[1:, :-1], base[1:, 1:]), axis = 2)), axis = 2)
                xyz = xyz + np.arange(nj * ni).reshape((nj, ni, 1, 1, 1)) * (0.0, 0.0, 2.0)
                s = Surface(m, crs_uuid = crs.uuid)
                s.set_from_torn_mesh(xyz, quad_triangles = quad)
                check_quads(s, xyz[:, :, (0, 0, 1, 1), (0, 1, 1, 0)], quad, 4 * nj * ni)
                want = [tuple(a.copy() for a in s.triangles_and_points())]
                m, s = store(s)
                check_surface(s, want, 'stored', 1.0e-9)
                rq.close(m)
                ctx.outcome('torn')

            ctx.run(dict(shape = (nj, ni), quad = quad, way = 'torn'), case)


def zmap_text(x, y, z):
    nj, ni = z.shape
    rows = ['!comment', f'@grid, GRID, {3}', '15, 1E30, , 4, 1', f'{nj}, {ni}, {x.min()}, {x.max()}, {y.min()}, {y.max()}', '0.0, 0.0, 0.0', '@']
    flat = np.where(np.isnan(z), 1.0e30, z).T.flatten()
    rows += [' '.join('1E30' if v > 1.0e29 else f'{v:.4f}' for v in flat[n:n + 3]) for n in range(0, len(flat), 3)]
    return '\n'.join(rows) + '\n'


def rms_text(x, y, z):
    nj, ni = z.shape
    rows = [f'-996 {nj} {(x.max() - x.min()) / (ni - 1)} {(y.max() - y.min()) / (nj - 1)}', f'{x.min()} {x.max()} {y.min()} {y.max()}', f'{ni} 0.0 {x.min()} {y.min()}', '0 0 0 0 0 0 0']
    flat = z.flatten()
    rows += [' '.join('9999900.0000' if np.isnan(v) else f'{v:.4f}' for v in flat[n:n + 3]) for n in range(0, len(flat), 3)]
    return '\n'.join(rows) + '\n'


def sparse_expected(xyz):
    """For each quadrilateral with one corner missing that triangle, and for each with none missing its corners."""
    out = []
    nj, ni = xyz.shape[:2]
    for j in range(nj - 1):
        for i in range(ni - 1):
            c = [xyz[j, i], xyz[j, i + 1], xyz[j + 1, i + 1], xyz[j + 1, i]]
            there = [v for v in c if not np.isnan(v[2])]
            if len(there) >= 3:
                out.append(there)
    return out


def check_sparse(s, xyz):
    t, p = s.triangles_and_points()
    nodes = xyz.reshape((-1, 3))
    nodes = nodes[~np.isnan(nodes[:, 2])]
    expect(rq.near(p, nodes, 1.0e-4), 'points', p, 'should be', nodes)
    want = sparse_expected(xyz)
    expect(len(t) == sum(len(c) - 2 for c in want), 'triangles', len(t), 'for', want)
    n = 0
    for c in want:
        c = np.array(c)
        got = p[t[n:n + len(c) - 2]]
        n += len(c) - 2
        for v in got.reshape((-1, 3)):
            expect(np.abs(c - v).max(axis = 1).min() < 1.0e-4, 'corner', v, 'is none of', c)
        expect(abs(np.abs(area_xy(got)).sum() - sum(abs(area_xy(np.array((c[0], c[k + 1], c[k + 2])))) for k in range(len(c) - 2))) < 1.0e-3, 'area of', got, 'in', c)


def do_sparse(ctx, shape, lo, hi, ways = ('array', 'mesh')):
    from resqpy.surface import Surface, Mesh
    nj, ni = shape
    x, y = np.meshgrid(100.0 + 10.0 * np.arange(ni), 50.0 + 8.0 * np.arange(nj))
    zs = 1000.0 + np.arange(nj * ni).reshape(shape) % 7
    m = rq.new_model(ctx.path('s.epc'), h5 = True)
    crs = rq.add_crs(m)
    for pattern in range(lo, hi):
        for way in ways:

            def case(pattern = pattern, way = way):
                mask = np.array([(pattern >> b) & 1 for b in range(nj * ni)], dtype = bool).reshape(shape)
                xyz = np.stack((x, y, np.where(mask, np.nan, zs)), axis = -1)
                if way == 'array':
                    s = Surface(m, crs_uuid = crs.uuid)
                    s.set_from_sparse_mesh(xyz)
                elif way == 'mesh':
                    s = Surface(m, crs_uuid = crs.uuid, mesh = Mesh(m, xyz_values = xyz, crs_uuid = crs.uuid))
                else:
                    if not sparse_expected(xyz):
                        return
                    fn = ctx.path('mesh.txt')
                    text = zmap_text if way.startswith('zmap') else rms_text
                    with open(fn, 'w') as f:
                        f.write(text(x, y, xyz[..., 2]))
                    if way.startswith('zmap'):
                        xyz = xyz.copy()
                        xyz[..., 1] = xyz[::-1, :, 1]  # rows run from the greatest y
                    s = Surface(m, crs_uuid = crs.uuid, mesh_file = fn, mesh_format = way.split()[0])
                    if pattern == 0:
                        check_quads(s, quad_corners(xyz), False, nj * ni)
                        q = Surface(m, crs_uuid = crs.uuid)
                        dict(zmap = q.set_from_zmap_file, rms = q.set_from_rms_file, roxar = q.set_from_roxar_file)[way](fn, quad_triangles = True)
                        check_quads(q, quad_corners(xyz), True, nj * ni)
                if way != 'mesh' or pattern:
                    check_sparse(s, xyz)
                if not sparse_expected(xyz):
                    ctx.outcome('nothing')
                ctx.outcome('sparse')

            ctx.run(dict(shape = shape, pattern = pattern, way = way), case)
            ctx.state((shape, pattern, way))
    rq.close(m)


def do_tsurf(ctx):
    from resqpy.surface import Surface
    p = mesh_points(2, 3).reshape((-1, 3))
    tris = [(0, 1, 3), (1, 4, 3), (1, 2, 4), (2, 5, 4)]
    for first, word, head, extra in itertools.product((0, 1, 7), ('VRTX', 'PVRTX'), (True, False), (False, True)):
        for n in range(1, 5):
            for which in itertools.combinations(range(4), n):

                def case(first = first, word = word, head = head, which = which, extra = extra):
                    m = rq.new_model(ctx.path('f.epc'))
                    crs = rq.add_crs(m)
                    fn = ctx.path('a.ts')
                    rows = ['GOCAD TSurf 1', 'HEADER {', 'name: s', '}'] if head else []
                    rows += ['TFACE']
                    rows += ['%s %d %.3f %.3f %.3f' % ((word, first + n) + tuple(v)) + (' CNXYZ' if extra else '') for n, v in enumerate(p)]
                    rows += ['TRGL %d %d %d' % tuple(first + x for x in tris[w]) + (' ' if extra else '') for w in which]
                    rows += ['END']
                    with open(fn, 'w') as f:
                        f.write('\n'.join(rows) + '\n')
                    s = Surface(m, tsurf_file = fn, crs_uuid = crs.uuid, title = 's')
                    check_surface(s, [(np.array([tris[w] for w in which]), p)], 'tsurf', 0.001)
                    rq.close(m)
                    ctx.outcome('tsurf')

                ctx.run(dict(first = first, word = word, head = head, extra = extra, triangles = which), case)


CELL = np.array([[[(0.0, 0.0, 0.0), (10.0, 1.0, 0.5)], [(-1.0, 9.0, 1.0), (9.0, 10.0, 1.5)]], [[(0.5, 0.0, 5.0), (10.5, 1.0, 6.0)], [(-0.5, 9.5, 6.5), (9.0, 10.5, 7.0)]]])


def do_cells(ctx):
    """Faces of cells, planes, single triangles, sails and tri meshes."""
    from resqpy.surface import Surface, TriMesh, CombinedSurface
    for n, quad, hand in itertools.product((1, 2, 3), (False, True), (False, True)):

        def case(n = n, quad = quad, hand = hand):
            m = rq.new_model(ctx.path('c.epc'), h5 = True)
            crs = rq.add_crs(m)
            cp = np.stack([CELL + (20.0 * k, 3.0 * k, 0.0) for k in range(n)])
            if hand:
                cp = cp[:, :, :, ::-1]
            s = Surface(m, crs_uuid = crs.uuid)
            if n == 1:
                s.set_to_single_cell_faces_from_corner_points(cp[0].copy(), quad_triangles = quad)
            else:
                s.set_to_multi_cell_faces_from_corner_points(cp.copy(), quad_triangles = quad)
            per = 4 if quad else 2
            t, p = s.triangles_and_points()
            expect(s.number_of_patches() == n and len(t) == n * 6 * per, 'triangles', len(t))
            faces = {}
            for x in range(len(t)):
                c, axis, pol = (int(v) for v in s.cell_axis_and_polarity_from_triangle_index(x))
                expect((axis, pol) == tuple(s.patch_list[c].face_from_triangle_index(x - c * 6 * per)), 'face of triangle in its patch')
                face = np.take(cp[c], pol, axis = axis).reshape((4, 3))
                allowed = np.concatenate((face, face.mean(axis = 0)[None]))[:5 if quad else 4]
                for v in p[t[x]]:
                    expect(np.abs(allowed - v).max(axis = 1).min() < 1.0e-6, 'corner', v, 'of triangle', x, 'is not of face', (c, axis, pol))
                faces.setdefault((c, axis, pol), []).append(x)
            expect(len(faces) == 6 * n and all(len(v) == per for v in faces.values()), 'faces', faces)
            e, counts = s.distinct_edges_and_counts()
            expect(np.all(counts == 2), 'the faces of a cell should enclose it', counts)
            want = [tuple(a.copy() for a in s.triangles_and_points(patch = k)) for k in range(n)]
            m, s = store(s)
            check_surface(s, want, 'stored', 1e-9)
            rq.close(m)
            ctx.outcome('cells')

        ctx.run(dict(cells = n, quad = quad, hand = hand), case)
    for depth, border, quad in itertools.product((-5.0, 0.0, 1000.0), (0.0, 3.0), (False, True)):

        def case(depth = depth, border = border, quad = quad):
            m = rq.new_model(ctx.path('p.epc'))
            crs = rq.add_crs(m)
            s = Surface(m, crs_uuid = crs.uuid)
            box = np.array([(10.0, 20.0, 5.0), (40.0, 80.0, 9.0)])
            given = box.copy()
            s.set_to_horizontal_plane(depth, box, border = border, quad_triangles = quad)
            expect(np.all(box == given), 'the box was changed')
            t, p = s.triangles_and_points()
            expect(np.all(p[:, 2] == depth), 'depths', p)
            expect(rq.near(p[:, :2].min(axis = 0), box[0, :2] - border) and rq.near(p[:, :2].max(axis = 0), box[1, :2] + border), 'extent', p)
            expect(abs(np.abs(area_xy(p[t])).sum() - (30.0 + 2 * border) * (60.0 + 2 * border)) < 1e-6 and len(t) == (4 if quad else 2), 'area', t)
            ctx.outcome('plane')
            rq.close(m)

        ctx.run(dict(depth = depth, border = border, quad = quad), case)
    corners = [(0.0, 0.0, 1.0), (10.0, 0.0, 2.0), (0.0, 10.0, 3.0), (10.0, 10.0, 5.0)]
    for perm in itertools.permutations(range(4), 3):

        def case(perm = perm):
            m = rq.new_model(ctx.path('p.epc'))
            crs = rq.add_crs(m)
            s = Surface(m, crs_uuid = crs.uuid)
            c = np.array([corners[x] for x in perm])
            s.set_to_triangle(c)
            check_surface(s, [(np.array([(0, 1, 2)]), c)], 'triangle')
            s2 = Surface(m, crs_uuid = crs.uuid)
            quad = np.array(corners)
            s2.set_to_triangle_pair(quad if perm[0] else quad.reshape((2, 2, 3)))
            t, p = s2.triangles_and_points()
            expect(rq.near(p, quad) and len(t) == 2 and abs(np.abs(area_xy(p[t])).sum() - 100.0) < 1e-9 and len(set(map(int, t.flatten()))) == 4, 'pair', t)
            both = CombinedSurface([s, s2])
            tc, pc = both.triangles_and_points()
            wt, wp = joined([s.triangles_and_points(), s2.triangles_and_points()])
            expect(np.all(tc == wt) and np.all(pc == wp), 'combined', tc)
            expect([both.surface_index_for_triangle_index(x) for x in range(4)] == [(0, 0), (1, 0), (1, 1), None], 'index in combined')
            three = CombinedSurface([both, s])
            tc, pc = three.triangles_and_points()
            wt, wp = joined([(wt, wp), s.triangles_and_points()])
            expect(np.all(tc == wt) and np.all(pc == wp), 'combined again', tc)
            ctx.outcome('triangles')
            rq.close(m)

        ctx.run(dict(corners = perm), case)
    for n, radius, azimuth, delta in itertools.product((1, 2, 3, 4), (10.0, 50.0), (0.0, 70.0, 200.0), (5.0, 12.0)):

        def case(n = n, radius = radius, azimuth = azimuth, delta = delta):
            m = rq.new_model(ctx.path('p.epc'))
            crs = rq.add_crs(m)
            s = Surface(m, crs_uuid = crs.uuid)
            centre = np.array((100.0, 200.0, 300.0))
            s.set_to_sail(n, centre.copy(), radius, azimuth, delta)
            t, p = s.triangles_and_points()
            expect(len(t) == n * n and len(p) == (n + 1) * (n + 2) // 2, 'counts', len(t), len(p))
            expect(rq.near(np.linalg.norm(p - centre, axis = 1), np.full(len(p), radius), 1e-6), 'distances from the centre')
            expect(set(map(int, t.flatten())) == set(range(len(p))), 'nodes in use')
            e, counts = s.distinct_edges_and_counts()
            expect(np.count_nonzero(counts == 1) == 3 * n and np.all(counts <= 2), 'edges', counts)
            ctx.outcome('sail')
            rq.close(m)

        ctx.run(dict(n = n, radius = radius, azimuth = azimuth, delta = delta), case)
    for nj, ni in ((2, 2), (3, 3), (4, 3)):
        for pattern in range(0, 2**(nj * ni), 1 if nj < 4 else 37):

            def case(nj = nj, ni = ni, pattern = pattern):
                m = rq.new_model(ctx.path('p.epc'))
                crs = rq.add_crs(m)
                mask = np.array([(pattern >> b) & 1 for b in range(nj * ni)], dtype = bool).reshape((nj, ni))
                z = np.where(mask, np.nan, np.arange(nj * ni).reshape((nj, ni)) % 5)
                tm = TriMesh(m, t_side = 10.0, nj = nj, ni = ni, z_values = z, crs_uuid = crs.uuid, title = 't')
                t, p = tm.triangles_and_points()
                if not pattern:
                    check_surface(Surface.from_tri_mesh(tm), [(t, p)], 'tri mesh')
                keep = [x for x in t if not np.any(np.isnan(p[x, 2]))]
                s = Surface.from_tri_mesh(tm, exclude_nans = True)
                gt, gp = s.triangles_and_points()
                expect(rq.near(gp, p[~np.isnan(p[:, 2])]), 'points', gp)
                expect(len(gt) == len(keep) and all(rq.near(gp[a], p[b]) for a, b in zip(gt, keep)), 'triangles', gt, 'for', keep)
                ctx.outcome('tri mesh')
                rq.close(m)

            ctx.run(dict(shape = (nj, ni), missing = pattern), case)


def hull_area(q):
    pts = sorted(set(map(tuple, q)))

    def half(ps):
        h = []
        for v in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (v[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (v[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(v)
        return h[:-1]

    h = np.array(half(pts) + half(pts[::-1]))
    return 0.5 * abs(np.dot(h[:, 0], np.roll(h[:, 1], -1)) - np.dot(h[:, 1], np.roll(h[:, 0], -1)))


SPOTS = [(0.0, 0.0, 5.0), (40.0, 3.0, 7.0), (37.0, 45.0, 3.0), (-4.0, 38.0, 6.0), (18.0, 20.0, 9.0), (25.0, 11.0, 1.0), (9.0, 29.0, 4.0)]


def do_from_points(ctx, kind):
    """Surfaces triangulating all subsets of four or more of some points."""
    from resqpy.surface import Surface, PointSet
    kw = [{}, dict(xy_units = 'm', z_units = 'ft')][kind]
    for r in range(4, len(SPOTS) + 1):
        for which in itertools.combinations(range(len(SPOTS)), r):

            def case(which = which):
                m = rq.new_model(ctx.path('p.epc'), h5 = True)
                crs = rq.add_crs(m, **kw)
                p = np.array([SPOTS[x] for x in which])
                q = np.insert(p, 2, (5.0, np.nan, 1.0), axis = 0)
                ps = PointSet(m, points_array = p, crs_uuid = crs.uuid)
                for opts in (dict(), dict(reorient = True), dict(make_clockwise = True), dict(reorient = True, reorient_max_dip = 10.0), dict(missing = True),
                             dict(extend_with_flange = True, flange_point_count = 9), dict(extend_with_flange = True, reorient = True, flange_inner_ring = True),
                             dict(extend_with_flange = True, reorient = True, flange_radial_distance = 500.0, flange_point_count = 12)):
                    opts = dict(opts)
                    src = ps
                    if opts.pop('missing', False):
                        src = PointSet(m, points_array = q, crs_uuid = crs.uuid)
                    with about(('options', opts)):
                        s = Surface(m)
                        flange = s.set_from_point_set(src, convexity_parameter = 1000.0, **opts)
                        expect(str(s.crs_uuid) == str(crs.uuid), 'crs')
                        expect(rq.near(ps.full_array_ref(), p, 0.0), 'the point set was changed')
                        t, gp = s.triangles_and_points()
                        expect(rq.near(gp[:len(p)], p, 1.0e-6), 'points', gp, 'should be', p)
                        expect(set(map(int, t.flatten())) == set(range(len(gp))), 'points in use', t)
                        e, c = s.distinct_edges_and_counts()
                        expect(np.all(c <= 2), 'an edge is used by more than two triangles')
                        if opts.get('extend_with_flange'):
                            n = opts.get('flange_point_count', 11)
                            n += n if opts.get('flange_inner_ring') else 0
                            expect(flange is not None and len(flange) == len(t) and np.all(flange == np.any(t >= len(p), axis = 1)), 'flange', flange)
                        else:
                            expect(flange is None and len(gp) == len(p), 'points')
                        if not opts.get('reorient'):
                            expect(abs(np.abs(area_xy(gp[t])).sum() - hull_area(gp[:, :2])) < 1.0e-6, 'area', np.abs(area_xy(gp[t])).sum(), 'should be', hull_area(gp[:, :2]))
                        if opts.get('make_clockwise'):
                            expect(np.all(area_xy(gp[t]) < 0.0), 'not all clockwise')
                    ctx.step()
                ctx.state((kind, which))
                ctx.outcome('triangulated')
                rq.close(m)

            ctx.run(dict(points = which, kind = kind), case)


# ---------------------------------------------------------------------------------------------------------------------
# histories

P0 = mesh_points(3, 3, 1).reshape((-1, 3))
T0 = np.array([(0, 1, 3), (1, 4, 3), (4, 1, 2), (2, 5, 4), (3, 4, 6), (4, 7, 6), (4, 5, 7), (5, 8, 7)])
STRIP = (np.array([(0, 1, 2), (1, 3, 2), (2, 3, 4)]), np.array([(60.0, 0.0, 10.0), (70.0, 1.0, 12.0), (61.0, 9.0, 15.0), (73.0, 11.0, 9.0), (63.0, 20.0, 11.0)]))
WALL = (np.array([(0, 1, 2), (1, 3, 2)]), np.array([(60.0, 40.0, 10.0), (80.0, 40.0, 12.0), (60.0, 40.0, 35.0), (80.0, 40.0, 39.0)]))


def m_one(s):
    s.set_from_triangles_and_points(T0, P0)
    return [(T0, P0)]


def m_flat(s):
    s.set_from_triangles_and_points(T0[:3], P0[:5, :2].copy())
    return [(T0[:3], np.concatenate((P0[:5, :2], np.zeros((5, 1))), axis = 1))]


def m_multi(s):
    s.set_multi_patch_from_triangles_and_points([STRIP, WALL, (T0[:2], P0[:5])])
    return [STRIP, WALL, (T0[:2], P0[:5])]


def m_mesh(s):
    xyz = mesh_points(2, 3, 2)
    s.set_from_irregular_mesh(xyz)
    return [tuple(a.copy() for a in s.patch_list[0].triangles_and_points())]


def m_sparse(s):
    xyz = mesh_points(3, 3, 2)
    xyz[1, 1, 2] = np.nan
    s.set_from_sparse_mesh(xyz)
    return [tuple(a.copy() for a in s.patch_list[0].triangles_and_points())]


def m_plane(s):
    s.set_to_horizontal_plane(100.0, np.array([(0.0, 0.0, 0.0), (20.0, 30.0, 0.0)]))
    return [tuple(a.copy() for a in s.patch_list[0].triangles_and_points())]


def m_cells(s):
    s.set_to_multi_cell_faces_from_corner_points(np.stack((CELL, CELL + 30.0)), quad_triangles = False)
    return [tuple(a.copy() for a in x.triangles_and_points()) for x in s.patch_list]


MAKE = dict(one = m_one, flat = m_flat, multi = m_multi, mesh = m_mesh, sparse = m_sparse, plane = m_plane, cells = m_cells)
OPS = ['one', 'multi', 'mesh', 'plane', 'cells', 'crs', 'scale', 'scale about', 'clockwise', 'ask', 'store']


class Walk:

    def __init__(self, ctx):
        from resqpy.crs import Crs
        from resqpy.surface import Surface
        self.m = rq.new_model(ctx.path('h.epc'), h5 = True)
        self.crs = [rq.add_crs(self.m, title = 'a'), rq.add_crs(self.m, title = 'b', xy_units = 'ft', z_units = 'ft', z_inc_down = False)]
        self.at = 0
        self.s = Surface(self.m, crs_uuid = self.crs[0].uuid, title = 's')
        self.patches = None

    def step(self, op):
        from resqpy.surface import Surface
        import resqpy.olio.uuid as bu
        s = self.s
        if op in MAKE:
            self.patches = [(np.array(t), np.array(p)) for t, p in MAKE[op](s)]
        elif op == 'crs':
            to = 1 - self.at
            if s.root is not None:
                s.uuid = bu.new_uuid()
            s.change_crs(self.crs[to])
            f = np.array((1.0, 1.0, -1.0)) * (1.0 / FT if to else FT)
            self.patches = [(t, p * f) for t, p in self.patches]
            self.at = to
        elif op.startswith('scale'):
            ref = 7.0 if op == 'scale about' else min(p[:, 2].min() for _, p in self.patches)
            s.vertical_rescale_points(ref_depth = 7.0 if op == 'scale about' else None, scaling_factor = 1.5)
            self.patches = [(t, np.concatenate((p[:, :2], ref + 1.5 * (p[:, 2:] - ref)), axis = 1)) for t, p in self.patches]
        elif op == 'clockwise':
            s.make_all_clockwise_xy()
            self.patches = [(np.where((area_xy(p[t]) > 0.0)[:, None], t[:, (1, 0, 2)], t), p) for t, p in self.patches]
        elif op == 'ask':
            self.ask()
        elif op == 'store':
            s.uuid = bu.new_uuid()
            s.write_hdf5()
            s.create_xml()
            self.s = Surface(self.m, uuid = s.uuid)
            expect(str(self.s.crs_uuid) == str(self.crs[self.at].uuid), 'crs of the stored surface')

    def ask(self):
        s, crs = self.s, self.crs[self.at]
        for patch in [None] + list(range(len(self.patches))):
            t, p = joined(self.patches) if patch is None else self.patches[patch]
            edges = {}
            for a in t:
                for x in ((a[0], a[1]), (a[1], a[2]), (a[2], a[0])):
                    k = tuple(sorted(map(int, x)))
                    edges[k] = edges.get(k, 0) + 1
            e, c = s.distinct_edges_and_counts(patch = patch)
            expect({tuple(map(int, a)): int(b) for a, b in zip(e, c)} == edges and len(e) == len(edges), 'edges and counts', e.tolist(), 'should be', edges)
            expect(sorted(tuple(map(int, a)) for a in s.distinct_edges(patch = patch)) == sorted(edges), 'distinct edges')
            m = p * (FT if crs.xy_units == 'ft' else 1.0)
            for uom, f in ((None, FT if crs.xy_units == 'ft' else 1.0), ('m', 1.0), ('ft', FT)):
                got = s.edge_lengths(required_uom = uom, patch = patch)
                want = np.linalg.norm(m[t] - m[t[:, (1, 2, 0)]], axis = 2) / f
                expect(got.shape == want.shape and rq.near(np.sort(got, axis = 1), np.sort(want, axis = 1), 1.0e-5), 'edge lengths in', uom, got, 'should be', want)
            nv = s.normal_vectors(patch = patch)
            w = np.cross(p[t[:, 1]] - p[t[:, 0]], p[t[:, 2]] - p[t[:, 0]])
            w /= np.linalg.norm(w, axis = 1)[:, None]
            ok = np.abs(np.abs(np.sum(w * nv, axis = 1)) - 1.0) < 1.0e-6
            expect(np.all(ok) and rq.near(np.linalg.norm(nv, axis = 1), np.ones(len(t))), 'normal vectors', nv, 'should be', w)
            up = -1.0 if crs.z_inc_down else 1.0
            expect(np.all(nv[:, 2] * up > -1.0e-6), 'normal vectors should point up', nv)
            # samples
            centres = p[t].mean(axis = 1)
            flat = np.abs(area_xy(p[t])) < 1.0e-9
            for n in np.where(~flat)[0]:
                hits = []
                for a in np.where(~flat)[0]:
                    b = bary(p[t[a]], centres[n])
                    if min(b) > -1.0e-9:
                        hits.append(float(np.dot(b, p[t[a], 2])))
                for how, fn in (('any', None), ('minimum', min), ('maximum', max)):
                    for dims in (2, 3):
                        z = s.sample_z_at_xy_points(np.array([centres[n, :dims], (-500.0, -500.0, 0.0)[:dims]]), multiple_handling = how, patch = patch)
                        expect(z.shape == (2,) and np.isnan(z[1]), 'sample outside', z)
                        expect(abs(z[0] - fn(hits)) < 1.0e-5 if fn else min(abs(z[0] - h) for h in hits) < 1.0e-5, 'z at centre of triangle', n, z, how, 'should be of', hits)
                x = s.line_intersection(centres[n], np.array((0.0, 0.0, 1.0)), patch = patch)
                expect(x is not None and rq.near(x[:2], centres[n, :2], 1.0e-6) and min(abs(x[2] - h) for h in hits) < 1.0e-5, 'line through centre of triangle', n, x, hits)
                x = s.line_intersection(centres[n] + (0.0, 0.0, 1000.0), np.array((0.0, 0.0, 1.0)), line_segment = True, patch = patch)
                expect(x is None, 'segment away from the surface meets it at', x)
        t, p = joined(self.patches)
        for axis in range(3):
            v = sorted(p[:, axis])
            value = 0.37 * v[len(v) // 2] + 0.63 * v[len(v) // 2 - 1] + 0.011
            got = s.axial_edge_crossings(axis, value)
            want = []
            for a, b in {tuple(sorted(map(int, x))) for q in t for x in ((q[0], q[1]), (q[1], q[2]), (q[2], q[0]))}:
                za, zb = p[a, axis] - value, p[b, axis] - value
                if za * zb < 0.0:
                    want.append(p[a] + (p[b] - p[a]) * za / (za - zb))
            if not want:
                expect(got is None, 'crossings', got)
                continue
            want = np.array(want)
            expect(got is not None and got.shape == want.shape, 'crossings in axis', axis, got, 'should be', want)
            expect(rq.near(got[np.lexsort(np.round(got, 4).T)], want[np.lexsort(np.round(want, 4).T)], 1.0e-4), 'crossings in axis', axis, got, 'should be', want)
        r = s.resampled_surface()
        rt, rp = r.triangles_and_points()
        expect(len(rt) == 4 * len(t) and rq.near(np.sort(area(rp[rt])), np.sort(np.repeat(area(p[t]) / 4.0, 4)), 1.0e-6), 'resampled surface')
        corners = {tuple(np.round(v, 5)) for v in p[np.unique(t)]} | {tuple(np.round(0.5 * (p[a] + p[b]), 5)) for q in t for a, b in ((q[0], q[1]), (q[1], q[2]), (q[2], q[0]))}
        got = {tuple(np.round(v, 5)) for v in rp[np.unique(rt)]}
        expect(got == corners, 'points of the resampled surface', sorted(got ^ corners))


def bary(q, v):
    a = area_xy(q)
    return [area_xy(np.array((v, q[1], q[2]))) / a, area_xy(np.array((q[0], v, q[2]))) / a, area_xy(np.array((q[0], q[1], v))) / a]


def do_histories(ctx, make, depth):
    for ops in itertools.product(OPS, repeat = depth):

        def case(ops = ops):
            w = Walk(ctx)
            for n, op in enumerate((make,) + ops):
                with about(('step', n, op)):
                    w.step(op)
            check_surface(w.s, w.patches, 'in the end')
            if ops[-1] != 'ask':
                w.ask()
                check_surface(w.s, w.patches, 'after asking')
            if ops[-1] != 'store':
                w.step('store')
                check_surface(w.s, w.patches, 'stored')
            rq.close(w.m)
            ctx.outcome(ops[-1])

        ctx.run(dict(make = make, ops = ops), case)
        ctx.state((make, ops))
        ctx.step(depth)


# ---------------------------------------------------------------------------------------------------------------------
# lines


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def exact(lp, lv, tri):
    """None if parallel, otherwise (t, u, v) exactly."""
    p01, p02 = sub(tri[1], tri[0]), sub(tri[2], tri[0])
    norm = cross(p01, p02)
    d = dot(lv, norm)
    if d == 0:
        return None
    t = Fraction(-dot(norm, sub(lp, tri[0])), d)
    x = tuple(lp[k] + t * lv[k] for k in range(3))
    w = sub(x, tri[0])
    nn = dot(norm, norm)
    return t, Fraction(dot(cross(w, p02), norm), nn), Fraction(dot(cross(p01, w), norm), nn)


LATTICE = [(0, 0, 0), (4, 0, 1), (0, 5, 2), (4, 5, 0), (1, 2, 6), (5, 3, 7), (2, 0, 5), (-3, 4, 3), (2, 2, 3)]
ENDS = list(itertools.product((-2, 1, 3), (-1, 2, 4), (-4, 2, 9)))


def do_lines(ctx, lo, hi, every):
    import resqpy.olio.intersection as meet
    tris = [c for c in itertools.combinations(LATTICE, 3) if any(cross(sub(c[1], c[0]), sub(c[2], c[0])))][:84:1 if every else 2]
    if every:
        tris = tris + [(c[0], c[2], c[1]) for c in tris]
    arr = np.array(tris, dtype = float)
    pairs = [(a, b) for a, b in itertools.permutations(ENDS, 2)][lo:hi]
    for a, b in pairs:

        def case(a = a, b = b):
            lv = sub(b, a)
            ex = [exact(a, lv, t) for t in tris]
            la, lva = np.array(a, dtype = float), np.array(lv, dtype = float)
            given = (la.copy(), lva.copy(), arr.copy())

            def verdict(e, segment):
                """True, False or None for either."""
                if e is None:
                    return False
                t, u, v = e
                edges = [u, v, 1 - u - v] + ([t, 1 - t] if segment else [])
                if min(edges) > 0:
                    return True
                return None if min(edges) == 0 else False

            def judge(got, n, segment, what):
                v = verdict(ex[n], segment)
                there = got is not None and not np.any(np.isnan(got))
                if v is None:
                    if not there:
                        return
                else:
                    expect(there == v, what, 'line', a, b, 'triangle', tris[n], 'gives', got, 'where exactly', ex[n])
                if there:
                    want = [float(a[k] + ex[n][0] * lv[k]) for k in range(3)]
                    expect(rq.near(got, want, 1.0e-6), what, 'intersection', got, 'should be', want)

            for segment in (False, True):
                every_one = meet.line_triangles_intersects(la, lva, arr, line_segment = segment)
                sets = meet.line_set_triangles_intersects(np.array((la, la + 1.0, la)), np.array((lva, lva + 0.5, -lva)), arr, line_segment = segment)
                common = meet.line_set_triangles_intersects(np.array((la + 2.0, la)), lva, arr, line_segment = segment)
                for n in range(len(tris)):
                    judge(every_one[n], n, segment, 'line_triangles_intersects')
                    judge(sets[0, n], n, segment, 'line_set_triangles_intersects')
                    judge(common[1, n], n, segment, 'line_set_triangles_intersects with a common direction')
                    judge(meet.line_triangle_intersect(la, lva, arr[n], line_segment = segment), n, segment, 'line_triangle_intersect')
                    judge(meet.line_triangle_intersect_numba(la, lva, arr[n], line_segment = segment), n, segment, 'line_triangle_intersect_numba')
                    if not segment:
                        x = meet.line_plane_intersect(la, lva, arr[n])
                        expect((x is None) == (ex[n] is None), 'line_plane_intersect', x, ex[n])
                        if x is not None:
                            expect(rq.near(x, [float(a[k] + ex[n][0] * lv[k]) for k in range(3)]), 'line_plane_intersect', x)
                here = ~np.isnan(every_one[:, 0])
                expect(meet.intersects_indices(every_one) == list(np.where(here)[0]), 'intersects_indices')
                ls, ts, xyz = meet.distilled_intersects(sets)
                w = np.where(~np.isnan(sets[..., 0]))
                expect(sorted(zip(ls, ts)) == sorted(zip(*w)) and all(rq.near(sets[l, t], x) for l, t, x in zip(ls, ts, xyz)), 'distilled_intersects')
                last = meet.last_intersects(sets)
                for l in range(3):
                    some = sets[l][~np.isnan(sets[l, :, 0])]
                    expect(np.all(np.isnan(last[l])) if not len(some) else np.any(np.all(some == last[l], axis = 1)), 'last_intersects', last[l], some)
                    ti, x = meet.triangles_for_line(sets, l)
                    expect(list(ti) == list(np.where(~np.isnan(sets[l, :, 0]))[0]) and rq.near(x, some), 'triangles_for_line')
                for n in range(0, len(tris), 5):
                    li, x = meet.lines_for_triangle(sets, n)
                    expect(list(li) == list(np.where(~np.isnan(sets[:, n, 0]))[0]) and rq.near(x, sets[li, n]), 'lines_for_triangle')
            path = np.array((la - (0.0, 0.0, 50.0) - 100.0, la, la + lva, la + lva + 100.0))
            every_one = meet.poly_line_triangles_intersects(path, arr)
            for n in range(len(tris)):
                judge(every_one[1, n], n, True, 'poly_line_triangles_intersects')
            for n in range(0, len(tris), 3):
                some = [n, (n + 7) % len(tris)]
                vs = [verdict(ex[k], True) for k in some]
                if None in vs:
                    continue
                for start in (0, 1, 2):
                    c, x = meet.poly_line_triangles_first_intersect(path, arr[some], start = start)
                    before = [k for k in range(start, 3) if not np.all(np.isnan(every_one[k, some, 0]))]
                    expect((c, x) == (None, None) if not before else c == before[0], 'first segment to meet', c, 'should be', before[:1])
                    if before:
                        expect(min(np.abs(x - every_one[c, k]).max() for k in some if not np.isnan(every_one[c, k, 0])) < 1e-6, 'first meeting', x)
            expect(all(np.all(x == y) for x, y in zip(given, (la, lva, arr))), 'arguments were changed')
            ctx.outcome(tuple(sorted(set(map(str, (verdict(e, True) for e in ex))))))

        ctx.run(dict(line = (a, b)), case)
        ctx.state((a, b, len(tris)))
        ctx.step(len(tris))


def do_lines_2d(ctx, first):
    import resqpy.olio.intersection as meet
    pts = list(itertools.product((0, 2, 3), (-1, 0, 4)))
    a = pts[first]

    def case():
        for b, c, d in itertools.product(pts, repeat = 3):
            if a == b or c == d:
                continue
            args = [float(x) for q in (a, b, c, d) for x in q]
            div = (a[0] - b[0]) * (c[1] - d[1]) - (a[1] - b[1]) * (c[0] - d[0])
            for seg, half in ((False, False), (True, False), (True, True)):
                got = meet.line_line_intersect(*args, line_segment = seg, half_segment = half)
                if div == 0:
                    expect(tuple(got) == (None, None), 'parallel lines', a, b, c, d, 'meet at', got)
                    continue
                t = Fraction((a[0] - c[0]) * (c[1] - d[1]) - (a[1] - c[1]) * (c[0] - d[0]), div)
                u = -Fraction((a[0] - b[0]) * (a[1] - c[1]) - (a[1] - b[1]) * (a[0] - c[0]), div)
                there = not seg or (0 <= t and (half or t <= 1) and 0 <= u <= 1)
                expect((got[0] is not None) == there and (got[1] is not None) == there, 'lines', a, b, c, d, 'segment', seg, 'half', half, 'meet at', got, 'where', t, u)
                if there:
                    want = [float(a[k] + t * (b[k] - a[k])) for k in range(2)]
                    expect(rq.near(got, want, 1e-9), 'lines', a, b, c, d, 'meet at', got, 'should be', want)
            if b == d:
                continue
            p, l1, l2 = (np.array(q, dtype = float) for q in (a, c, d))
            f = np.dot(p - l1, l2 - l1) / np.dot(l2 - l1, l2 - l1)
            got = meet.point_projected_to_line_2d(p, l1, l2)
            expect(rq.near(got, l1 + f * (l2 - l1), 1e-9), 'point', a, 'projected to', c, d, 'is', got)
            got = meet.point_snapped_to_line_segment_2d(p, l1, l2)
            expect(rq.near(got, l1 + min(1.0, max(0.0, f)) * (l2 - l1), 1e-9), 'point', a, 'snapped to', c, d, 'is', got)
            ctx.step()
        ctx.outcome('2d')

    ctx.run(dict(first = a), case)
    ctx.state(a)


# ---------------------------------------------------------------------------------------------------------------------
# trimming, splitting


def keep_triangles(patches, inside, internal = False):
    out = []
    for t, p in patches:
        ok = inside(p)[t]
        ok = np.all(ok, axis = 1) if internal else np.any(ok, axis = 1)
        out.append(p[t[ok]])
    return out


def same_corner_lists(t, p, want, what):
    expect(len(t) == len(want) and (len(t) == 0 or rq.near(p[t], want, 1e-9)), what, 'triangles', p[t], 'should be', want)
    expect(set(map(int, np.asarray(t).flatten())) == set(range(len(p))), what, 'points not in use')


def do_trim(ctx, which):
    from resqpy.surface import Surface
    from resqpy.lines import Polyline
    grid = np.array(mesh_points(4, 4, 1))
    m = rq.new_model(ctx.path('t.epc'), h5 = True)
    crs = rq.add_crs(m)
    big = Surface(m, crs_uuid = crs.uuid, title = 'big')
    if which == 'mesh':
        big.set_from_irregular_mesh(grid)
    else:
        MAKE['multi'](big)
        if which == 'stored':
            big.write_hdf5()
            big.create_xml()
            big = Surface(m, uuid = big.uuid)
    patches = [tuple(a.copy() for a in big.triangles_and_points(patch = n)) for n in range(big.number_of_patches())]
    if which == 'stored':
        big = Surface(m, uuid = big.uuid)
    allp = joined(patches)[1]

    def cuts(axis):
        v = np.unique(np.round(allp[:, axis], 6))
        c = [v[0] - 1.0] + [0.5 * (a + b) for a, b in zip(v[:-1], v[1:])] + [v[-1] + 1.0]
        return c[::max(1, len(c) // 4)]

    boxes = [np.array(((x0, y0, z0), (x1, y1, z1))) for (x0, x1), (y0, y1), (z0, z1) in itertools.product(*[itertools.combinations(cuts(a), 2) for a in range(3)])]
    lo, hi = allp.min(axis = 0), allp.max(axis = 0)
    mid = 0.5 * (lo + hi)
    polygons = []
    for c in itertools.product((0.2, 0.5, 0.8), repeat = 2):
        for n, r, a in ((3, 0.3, 10.0), (4, 0.25, 35.0), (7, 0.4, 0.0)):
            ang = np.radians(a + 360.0 * np.arange(n) / n)
            xy = lo[:2] + (hi[:2] - lo[:2]) * (np.array(c) + r * np.stack((np.cos(ang), np.sin(ang)), axis = -1))
            if np.min([np.abs(np.cross(xy[(k + 1) % n] - xy[k], allp[:, :2] - xy[k])).min() for k in range(n)]) > 0.05:
                polygons.append(xy)

    def in_box(b):
        return lambda p: np.all((p >= b[0]) & (p <= b[1]), axis = 1)

    def in_poly(xy):

        def f(p):
            s = np.array([(xy[(k + 1) % len(xy), 0] - xy[k, 0]) * (p[:, 1] - xy[k, 1]) - (xy[(k + 1) % len(xy), 1] - xy[k, 1]) * (p[:, 0] - xy[k, 0]) for k in range(len(xy))])
            return np.all(s > 0.0, axis = 0)

        return f

    trims = [(b, None) for b in boxes] + [(None, xy) for xy in polygons] + [(b, xy) for b in boxes[::max(1, len(boxes) // 12)] for xy in polygons[::2]]

    def case(lo_, hi_):
        for b, xy in trims[lo_:hi_]:
            tests = ([in_box(b)] if b is not None else []) + ([in_poly(xy)] if xy is not None else [])
            inside = lambda p: np.all([f(p) for f in tests], axis = 0)
            poly = None
            if xy is not None:
                poly = Polyline(m, set_coord = np.concatenate((xy, np.zeros((len(xy), 1))), axis = 1), is_closed = True, set_crs = crs.uuid, title = 'p')
            s = Surface(m, title = 'trimmed')
            s.set_to_trimmed_surface(big, xyz_box = None if b is None else (b if ctx.tier == 'thorough' or xy is None else b[::-1].copy()), xy_polygon = poly)
            want = [w for w in keep_triangles(patches, inside) if len(w)]
            with about(('box', None if b is None else b.tolist(), 'polygon', None if xy is None else xy.tolist())):
                expect(s.number_of_patches() == len(want) and s.triangle_count() == sum(len(w) for w in want), 'patches', s.number_of_patches(), 'triangles', s.triangle_count(), 'should be', [len(w) for w in want])
                expect(str(s.crs_uuid) == str(crs.uuid), 'crs')
                for n, w in enumerate(want):
                    same_corner_lists(*s.triangles_and_points(patch = n), w, ('patch', n))
                    expect(s.node_count(patch = n) == len(s.triangles_and_points(patch = n)[1]), 'node count')
                if want:
                    t, p = s.triangles_and_points()
                    expect(rq.near(p[t], np.concatenate(want), 1e-9), 'all triangles')
                if len(patches) == 1:
                    tp = type(big.patch_list[0])(m, patch_index = 0, crs_uuid = crs.uuid)
                    tp.set_to_trimmed_patch(big.patch_list[0], xyz_box = b, xy_polygon = poly, internal = True)
                    w = keep_triangles(patches, inside, True)[0]
                    expect(len(tp.triangles) == len(w) == tp.triangle_count and rq.near(tp.points[tp.triangles], w, 1e-9) if len(w) else tp.triangle_count == 0, 'wholly within')
            ctx.outcome('nothing' if not want else 'all' if sum(map(len, want)) == sum(len(t) for t, _ in patches) else 'some')
            ctx.step()
        check_surface(big, patches, 'the surface which is trimmed')

    for n in range(0, len(trims), 50):
        ctx.run(dict(surface = which, trims = n), case, n, n + 50)
        ctx.state((which, n))

    def split():
        t, p = joined(patches)
        delta = np.array(((1.0, 2.0, 30.0), (-1.0, 0.5, -20.0)))
        for c, ang in itertools.product(itertools.product((0.3, 0.5, 0.72), repeat = 2), range(0, 360, 23)):
            at = lo[:2] + (hi[:2] - lo[:2]) * np.array(c)
            d = np.array((np.cos(np.radians(ang)), np.sin(np.radians(ang))))
            side = (p[:, 0] - at[0]) * d[1] - (p[:, 1] - at[1]) * d[0]  # positive to the right
            if np.min(np.abs(side)) < 0.01:
                continue
            s = Surface(m, crs_uuid = crs.uuid, title = 'split')
            line = np.zeros((2, 3))
            line[0, :2], line[1, :2] = at, at + 20.0 * d
            s.set_to_split_surface(big, line, delta)
            right, left = np.any(side[t] > 0.0, axis = 1), np.any(side[t] < 0.0, axis = 1)
            want = np.concatenate((p[t[right]] + delta[0], p[t[left]] + delta[1]))
            gt, gp = s.triangles_and_points()
            with about(('line', line.tolist())):
                same_corner_lists(gt, gp, want, 'split')
            ctx.step()
        check_surface(big, patches, 'the surface which is split')
        ctx.outcome('split')

    ctx.run(dict(surface = which, what = 'split'), split)


# ---------------------------------------------------------------------------------------------------------------------
# point sets

SETS = [np.array([(1.0, 2.0, 3.0), (10.0, -5.0, 4.0), (7.0, 8.0, 9.0)]), np.array([[(20.0, 3.0, 5.0), (22.0, 5.0, 1.0)], [(-3.0, 7.0, 2.0), (4.0, 4.0, 4.0)]]),
        np.array([(15.0, 15.0), (16.0, -2.0)]), np.array([(9.0, 9.0, 9.0)])]
PS_OPS = ['add 1', 'add 2', 'add 3', 'crs', 'box', 'polygon', 'ask', 'store', 'load', 'irap', 'charisma', 'copy']


def as_points(a):
    a = np.asarray(a, dtype = float)
    if a.shape[-1] == 2:
        a = np.concatenate((a, np.zeros(a.shape[:-1] + (1,))), axis = -1)
    return a.reshape((-1, 3))


def do_pointsets(ctx, depth, start):
    from resqpy.surface import PointSet
    from resqpy.lines import Polyline
    for ops in itertools.product(PS_OPS, repeat = depth):

        def case(ops = ops):
            import resqpy.olio.uuid as bu
            m = rq.new_model(ctx.path('p.epc'), h5 = True)
            crs = [rq.add_crs(m, title = 'a'), rq.add_crs(m, title = 'b', xy_units = 'ft', z_units = 'ft', z_inc_down = False)]
            at = 0
            ps = PointSet(m, points_array = SETS[start].copy(), crs_uuid = crs[0].uuid, title = 'p')
            patches = [as_points(SETS[start])]

            def check(what):
                expect(ps.patch_count == len(patches), what, 'patches', ps.patch_count)
                for n, p in enumerate(patches):
                    expect(rq.near(ps.single_patch_array_ref(n), p, 1e-6), what, 'patch', n, ps.single_patch_array_ref(n), 'should be', p)
                expect(rq.near(ps.full_array_ref(), np.concatenate(patches), 1e-6), what, 'all points', ps.full_array_ref(), 'should be', patches)
                expect(str(ps.crs_uuid) == str(crs[at].uuid), what, 'crs')

            def put():
                if ps.root is not None:
                    ps.load_all_patches()
                    ps.uuid = bu.new_uuid()
                ps.write_hdf5()
                ps.create_xml()
                expect(len(m.parts_list_of_type('PointSetRepresentation')) > 0, 'part')
                return PointSet(m, uuid = ps.uuid, load_hdf5 = bool(len(ops) % 2))

            for n, op in enumerate(ops):
                with about(('step', n, op)):
                    if op.startswith('add'):
                        a = SETS[int(op[-1])]
                        given = a.copy()
                        ps.add_patch(given)
                        given += 100.0  # the point set should have its own copy
                        patches.append(as_points(a))
                    elif op == 'crs':
                        ps.change_crs(crs[1 - at])
                        patches = [p * (1.0, 1.0, -1.0) * ((1.0 / FT) if at == 0 else FT) for p in patches]
                        at = 1 - at
                    elif op in ('box', 'polygon'):
                        p = np.concatenate(patches)
                        lo, hi = (-4.0, 8.5) if at == 0 else (-4.0 / FT, 8.5 / FT)
                        if op == 'box':
                            keep = np.all((p >= lo) & (p <= hi), axis = 1) if at == 0 else np.all((p[:, :2] >= lo) & (p[:, :2] <= hi), axis = 1)
                        else:
                            keep = np.all((p[:, :2] >= lo) & (p[:, :2] <= hi), axis = 1)
                        if not np.any(keep):
                            continue
                        if op == 'box':
                            b = np.array([(lo, lo, lo), (hi, hi, hi)])
                            if at == 1:
                                b[0, 2], b[1, 2] = -1000.0, 1000.0
                            ps.trim_to_xyz_box(b)
                        else:
                            c = np.array([(lo, lo, 0.0), (hi, lo, 0.0), (hi, hi, 0.0), (lo, hi, 0.0)])
                            ps.trim_to_xy_polygon(Polyline(m, set_coord = c, is_closed = True, set_crs = crs[at].uuid, title = 'q'))
                        patches = [p[keep]]
                    elif op == 'ask':
                        check(('asked at', n))
                    elif op == 'store':
                        ps = put()
                    elif op == 'load':
                        ps.load_all_patches()
                    elif op == 'copy':
                        ps = PointSet(m, points_array = ps.full_array_ref(), crs_uuid = ps.crs_uuid, title = 'c')
                        patches = [np.concatenate(patches)]
                    else:
                        fn = ctx.path('p.txt')
                        if op == 'irap':
                            ps.convert_to_irap(fn)
                            if n % 2:
                                with open(fn, 'a') as f:
                                    f.write('999.0 999.0 999.0\n')
                            ps = PointSet(m, irap_file = fn, crs_uuid = crs[at].uuid)
                        else:
                            ps.convert_to_charisma(fn)
                            ps = PointSet(m, charisma_file = fn, crs_uuid = crs[at].uuid)
                        patches = [np.concatenate(patches)]
            check('in the end')
            ps = put()
            check('stored')
            rq.close(m)
            ctx.outcome(ops[-1])

        ctx.run(dict(start = start, ops = ops), case)
        ctx.state((start, ops))
        ctx.step(depth)


def do_point_sources(ctx):
    from resqpy.surface import PointSet
    from resqpy.lines import Polyline, PolylineSet
    shapes = [np.array([(0.0, 0.0, 1.0), (10.0, 0.0, 2.0), (10.0, 8.0, 3.0)]), np.array([(20.0, 0.0, 1.0), (30.0, 0.0, 2.0), (30.0, 8.0, 3.0), (20.0, 0.0, 1.0)]), np.array([(5.0, 5.0, 5.0), (6.0, 7.0, 8.0)])]
    for r in (1, 2, 3):
        for which in itertools.permutations(range(3), r):
            for closed in itertools.product((False, True), repeat = r):

                def case(which = which, closed = closed):
                    m = rq.new_model(ctx.path('p.epc'), h5 = True)
                    crs = rq.add_crs(m)
                    lines, want = [], []
                    for w, c in zip(which, closed):
                        lines.append(Polyline(m, set_coord = shapes[w].copy(), is_closed = c, set_crs = crs.uuid, title = f'l{w}'))
                        lines[-1].write_hdf5()
                        lines[-1].create_xml()
                        want.append(shapes[w][:-1] if c and np.all(shapes[w][0] == shapes[w][-1]) else shapes[w])
                    one = PointSet(m, polyline = lines[0])
                    expect(rq.near(one.full_array_ref(), lines[0].coordinates) and str(one.crs_uuid) == str(crs.uuid), 'points of a line', one.full_array_ref())
                    ps = PolylineSet(m, polylines = lines, title = 's')
                    ps.write_hdf5()
                    ps.create_xml()
                    for src in (ps, PolylineSet(m, uuid = ps.uuid)):
                        pt = PointSet(m, polyset = src)
                        expect(str(pt.crs_uuid) == str(crs.uuid), 'crs')
                        expect(rq.near(pt.full_array_ref(), np.concatenate(want)), 'points of a set of lines', pt.full_array_ref(), 'should be', want)
                    ctx.outcome('lines')
                    rq.close(m)

                ctx.run(dict(lines = which, closed = closed), case)
    base = np.array([(0.0, 0.0), (30.0, 0.0), (30.0, 10.0), (0.0, 10.0), (12.0, 7.0)])
    for turn, delta, squash in itertools.product(range(0, 180, 15), (5.0, 15.0, 7.0), (1.0, 0.2, 5.0)):

        def case(turn = turn, delta = delta, squash = squash):
            m = rq.new_model(ctx.path('p.epc'), h5 = True)
            crs = rq.add_crs(m)
            a = np.radians(turn)
            xy = (base * (1.0, squash)) @ np.array([(np.cos(a), np.sin(a)), (-np.sin(a), np.cos(a))]) + (100.0, 200.0)
            ps = PointSet(m, points_array = np.concatenate((xy, np.ones((5, 1))), axis = 1), crs_uuid = crs.uuid)
            d1, d2, r = ps.minimum_xy_area_rectangle(delta_theta = delta)
            expect(d1 <= d2 and 0.0 <= r <= 180.0, 'rectangle', d1, d2, r)

            def ext(b):  # along a bearing and across it
                b = np.radians(b)
                u, v = np.array((np.sin(b), np.cos(b))), np.array((np.cos(b), -np.sin(b)))
                return np.ptp(xy @ u), np.ptp(xy @ v)

            e = ext(r)
            expect(abs(e[0] - d2) < 1e-6 and abs(e[1] - d1) < 1e-6, 'rectangle', d1, d2, 'with bearing', r, 'where the extents are', e)
            best = min(np.prod(ext(b)) for b in np.arange(0.0, 180.0, delta))
            expect(d1 * d2 < best * 1.0001 + 1e-9 or delta == 7.0, 'area', d1 * d2, 'where the least is', best)
            ctx.outcome('rectangle')
            rq.close(m)

        ctx.run(dict(turn = turn, delta = delta, squash = squash), case)


# ---------------------------------------------------------------------------------------------------------------------
# paths of wells


def meetings(path, q):
    """All (knot, triangle, xyz, fraction) with a flag for those near an edge."""
    out, clear = [], True
    for k in range(len(path) - 1):
        a, d = path[k], path[k + 1] - path[k]
        for n in range(len(q)):
            norm = np.cross(q[n, 1] - q[n, 0], q[n, 2] - q[n, 0])
            den = np.dot(norm, d)
            if abs(den) < 1e-9:
                if abs(np.dot(norm, a - q[n, 0])) < 1e-6:
                    clear = False
                continue
            f = np.dot(norm, q[n, 0] - a) / den
            x = a + f * d
            b = [np.dot(np.cross(q[n, (i + 1) % 3] - x, q[n, (i + 2) % 3] - x), norm) / np.dot(norm, norm) for i in range(3)]
            edge = min(b + [f, 1.0 - f])
            if abs(edge) < 1e-4:
                clear = False
            elif edge > 0.0:
                out.append((k, n, x, f))
    return out, clear


def path_of(m, datum, pts):
    from resqpy.well import Trajectory
    import pandas as pd
    pts = np.asarray(pts, dtype = float)
    mds = np.concatenate(([0.0], np.cumsum(np.linalg.norm(np.diff(pts, axis = 0), axis = 1))))
    return Trajectory(m, md_datum = datum, length_uom = 'm', well_name = 'w', data_frame = pd.DataFrame(dict(MD = mds, X = pts[:, 0], Y = pts[:, 1], Z = pts[:, 2])))


def do_paths(ctx, which):
    import resqpy.grid_surface as rqgs
    from resqpy.surface import Surface
    from resqpy.well import MdDatum
    m = rq.new_model(ctx.path('w.epc'), h5 = True)
    crs = rq.add_crs(m)
    datum = MdDatum(m, crs_uuid = crs.uuid, location = (0.0, 0.0, 0.0))
    datum.create_xml()
    s = Surface(m, crs_uuid = crs.uuid, title = 's')
    if which == 'folds':
        xyz = np.array([[(10.0 * i, 15.0 * j, (2.0, 9.0)[i % 2] + j) for i in range(5)] for j in range(3)])
        s.set_from_irregular_mesh(xyz, quad_triangles = True)
    else:
        s.set_multi_patch_from_triangles_and_points([(np.array([(0, 1, 2), (1, 3, 2)]), np.array([(0.0, 0.0, z), (40.0, 0.0, z + 1.0), (0.0, 30.0, z - 1.0), (40.0, 30.0, z + 0.5)])) for z in (3.0, 6.0, 9.0)])
    t, p = s.triangles_and_points()
    q = p[t]
    heads = [(7.0, 9.3, -4.0), (33.1, 21.7, 4.2)]
    middle = list(itertools.product((3.3, 18.7, 36.9), (4.1, 23.3), (-1.0, 4.6, 12.3)))
    paths = [[h, a, b] for h in heads for a, b in itertools.permutations(middle, 2)] + [[h, a] for h in heads for a in middle]

    def case(lo, hi):
        trajs = []
        for pts in paths[lo:hi]:
            pts = np.array(pts)
            all_, clear = meetings(pts, q)
            if not clear:
                continue
            tr = path_of(m, datum, pts)
            trajs.append((tr, all_))
            with about(('path', pts.tolist())):
                ti, xyz = rqgs.find_intersections_of_trajectory_with_surface(tr, s)
                got = [] if ti is None else sorted((int(a), tuple(np.round(b, 5))) for a, b in zip(ti, xyz))
                want = sorted((n, tuple(np.round(x, 5))) for _, n, x, _ in all_)
                expect(len(got) == len(want) and all(a[0] == b[0] and rq.near(a[1], b[1], 1e-4) for a, b in zip(got, want)), 'intersections', got, 'should be', want)
                for start in range(len(pts)):
                    for from_ in (None, 0.35):
                        if from_ is not None and start > len(pts) - 2:
                            continue
                        begin = None if from_ is None else pts[start] + from_ * (pts[start + 1] - pts[start])
                        later = [x for x in all_ if x[0] > start or (x[0] == start and (from_ is None or x[3] > from_))]
                        if from_ is not None and any(x[0] == start and abs(x[3] - from_) < 0.01 for x in all_):
                            continue
                        kw = {} if begin is None else dict(start_xyz = begin.copy(), nudge = 0.001)
                        got = rqgs.find_first_intersection_of_trajectory_with_surface(tr, s, start = start, return_second = True, **kw)
                        first = rqgs.find_first_intersection_of_trajectory_with_surface(tr, s, start = start, **kw)
                        with about(('start', start, begin)):
                            expect(len(got) == 6 and len(first) == 3 and str(got[:3]) == str(first), 'first with and without second', got, first)
                            if not later:
                                expect(all(x is None for x in got), 'nothing to meet, but', got)
                                continue
                            later.sort(key = lambda x: (x[0], x[3]))
                            f = later[0]
                            expect(got[1] == f[0] and got[2] == f[1] and rq.near(got[0], f[2], 1e-5), 'first', got[:3], 'should be', f)
                            nxt = [x for x in later[1:] if x[0] == f[0]]
                            if nxt:
                                expect(got[4] == nxt[0][0] and got[5] == nxt[0][1] and rq.near(got[3], nxt[0][2], 1e-5), 'second', got[3:], 'should be', nxt[0])
                            else:
                                expect(all(x is None for x in got[3:]), 'there is no second, but', got[3:])
            ctx.step()
            ctx.outcome(len(all_))
        if trajs:
            got = rqgs.find_intersections_of_trajectory_with_surface([x for x, _ in trajs], s)
            expect(len(got) == len(trajs) and all((g[0] is None and not w) or (g[0] is not None and len(g[0]) == len(w)) for g, (_, w) in zip(got, trajs)), 'list of paths')

    for n in range(0, len(paths), 40):
        ctx.run(dict(surface = which, paths = n), case, n, n + 40)
        ctx.state((which, n))


def do_layers(ctx, kind):
    """Where paths meet the top or base of a layer of a grid."""
    import resqpy.grid_surface as rqgs
    from resqpy.well import MdDatum
    from resqpy.grid import RegularGrid
    m = rq.new_model(ctx.path('l.epc'), h5 = True)
    crs = rq.add_crs(m)
    datum = MdDatum(m, crs_uuid = crs.uuid, location = (0.0, 0.0, 0.0))
    datum.create_xml()
    origin = (0.0, 0.0, 0.0) if kind == 'regular' else (100.0, -50.0, 1000.0)
    g = RegularGrid(m, extent_kji = (3, 2, 4), dxyz = (10.0, 20.0, 5.0), origin = origin, crs_uuid = crs.uuid, as_irregular_grid = kind == 'regular as irregular', title = 'g')
    g.make_regular_points_cached()
    cp = g.corner_points()
    flat_z = cp[:, :, :, :, :, :, 2]
    columns = list(itertools.product(range(2), range(4)))

    def case():
        for (j0, i0), (j1, i1) in itertools.product(columns, repeat = 2):
            a = np.append(cp[0, j0, i0, 0, :, :, :2].mean(axis = (0, 1)) + 0.61, flat_z.min() - 7.0)
            b = np.append(cp[0, j1, i1, 0, :, :, :2].mean(axis = (0, 1)) - 0.37, flat_z.max() + 4.0)
            tr = path_of(m, datum, [a, b])
            for k0, face in itertools.product(range(3), ('top', 'base')):
                z = cp[k0, 0, 0, 0 if face == 'top' else 1, 0, 0, 2]
                x = a + (b - a) * (z - a[2]) / (b[2] - a[2])
                want = None
                for (j, i) in columns:
                    q = cp[0, j, i, 0, :, :, :2].reshape((-1, 2))
                    if np.all(x[:2] > q.min(axis = 0) + 0.05) and np.all(x[:2] < q.max(axis = 0) - 0.05):
                        want = (j, i)
                if want is None:
                    continue
                with about(('from', a, 'to', b, 'layer', k0, face)):
                    for kw in [dict(quad_triangles = True), dict(quad_triangles = False)] + ([dict(is_regular = True)] if kind in ('regular', 'regular elsewhere') else []):
                        got = rqgs.find_first_intersection_of_trajectory_with_layer_interface(tr, g, k0 = k0, ref_k_faces = face, **kw)
                        expect(got[0] is not None and rq.near(got[0], x, 1e-5) and got[1] == 0 and tuple(got[2]) == want, kw, 'first', got, 'should be', x, want)
                        got = rqgs.find_first_intersection_of_trajectory_with_layer_interface([tr, tr], g, k0 = k0, ref_k_faces = face, **kw)
                        expect(len(got) == 3 and len(got[0]) == 2 and rq.near(got[0][1], x, 1e-5) and tuple(got[2][1]) == want, kw, 'list', got)
                    cols, xyz = rqgs.find_intersections_of_trajectory_with_layer_interface(tr, g, k0 = k0, ref_k_faces = face)
                    expect(len(cols) == 1 and tuple(map(int, cols[0])) == want and rq.near(xyz[0], x, 1e-5), 'all', cols, xyz)
                ctx.step()
        # a path which meets nothing
        tr = path_of(m, datum, [cp.reshape((-1, 3)).max(axis = 0) + 5.0, cp.reshape((-1, 3)).max(axis = 0) + 15.0])
        for kw in [dict(quad_triangles = True), dict(quad_triangles = False)] + ([dict(is_regular = True)] if kind in ('regular', 'regular elsewhere') else []):
            with about(('path meeting nothing', kw)):
                got = rqgs.find_first_intersection_of_trajectory_with_layer_interface(tr, g, **kw)
                expect(got[0] is None and got[1] is None and tuple(got[2]) == (None, None), 'first', got)
        expect(tuple(rqgs.find_intersections_of_trajectory_with_layer_interface(tr, g)) == (None, None), 'all, where nothing is met')
        ctx.outcome('layers')

    ctx.run(dict(grid = kind), case)


def jobs(tier):
    quick = tier == 'quick'
    yield 'meshes', do_meshes, dict(most = 4 if quick else 6)
    shapes = [((3, 3), 512), ((2, 4), 256)] + ([] if quick else [((3, 4), 4096)])
    for shape, n in shapes:
        for lo in range(0, n, 256):
            yield f'sparse {shape} {lo}', do_sparse, dict(shape = shape, lo = lo, hi = min(n, lo + 256))
            for way in ('zmap', 'rms', 'roxar'):
                yield f'sparse {way} {shape} {lo}', do_sparse, dict(shape = shape, lo = lo, hi = min(n, lo + 256), ways = (way,))
    yield 'tsurf', do_tsurf, {}
    yield 'cells', do_cells, {}
    for kind in range(2):
        yield f'from points {kind}', do_from_points, dict(kind = kind)
    for make in ('one', 'flat', 'multi', 'sparse', 'plane', 'cells'):
        yield f'histories {make}', do_histories, dict(make = make, depth = 2 if quick else 3)
    n = len(ENDS) * (len(ENDS) - 1)
    for lo in range(0, n, 120):
        yield f'lines {lo}', do_lines, dict(lo = lo, hi = min(n, lo + 120), every = not quick)
    for first in range(9):
        yield f'lines 2d {first}', do_lines_2d, dict(first = first)
    for which in ('mesh', 'multi', 'stored'):
        yield f'trim {which}', do_trim, dict(which = which)
    for start in range(len(SETS)):
        yield f'point sets {start}', do_pointsets, dict(depth = 2 if quick else 3, start = start)
    yield 'point sources', do_point_sources, {}
    for which in ('folds', 'sheets'):
        yield f'paths {which}', do_paths, dict(which = which)
    for kind in ('regular', 'regular elsewhere', 'regular as irregular'):
        yield f'layers {kind}', do_layers, dict(kind = kind)
