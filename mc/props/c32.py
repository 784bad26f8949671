"""C32: triangulations of points, the cells around points, and the vector geometry that the rest relies on."""

import itertools
import math
from fractions import Fraction

import numpy as np

from mc import core, rq
from mc.core import expect

ID = 'C32'
TITLE = 'Triangulations, Voronoi cells and directions follow from points and vectors'
BOUNDS = {
    'quick': 'all sets of 3 - 6 points of two 3x3 lattices and of 4x2, in two orders, by both algorithms, at three origins; all Voronoi '
             'diagrams of them in three areas; all subsets of 8 triangles; all triangles of a lattice; all pairs of 26 + 48 directions',
    'thorough': 'sets of up to 8 points; five areas; all pairs of triangles; finer directions'
}
about = core.about


def warm(tier):
    import resqpy.olio.triangulation, resqpy.lines, resqpy.model, resqpy.crs, resqpy.olio.vector_utilities  # noqa


def near(a, b, tol = 1.0e-9):
    a, b = np.asarray(a, dtype = float), np.asarray(b, dtype = float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


LATTICES = {
    'square': [(10.0 * x, 10.0 * y) for y in range(3) for x in range(3)],
    'bent': [(x * 10.0 + 0.375 * y * y - 0.1875 * x * y, y * 10.0 + 0.25 * x * x) for y in range(3) for x in range(3)],
    'long': [(25.0 * x + 1.5 * y, 10.0 * y + 0.5 * x * x) for y in range(2) for x in range(4)]
}
ORIGINS = [(0.0, 0.0), (-30.0, 12.5), (437216.0, 6218944.0)]


def fr(p):
    return Fraction(float(p[0])), Fraction(float(p[1]))


def orient(a, b, c):
    (ax, ay), (bx, by), (cx, cy) = fr(a), fr(b), fr(c)
    return (bx - ax) * (cy - ay) - (by - ay) * (cx - ax)


def in_circle(a, b, c, d):
    """Positive if d is strictly within the circle through a, b and c, in any order."""
    rows = []
    dx, dy = fr(d)
    for q in (a, b, c):
        x, y = fr(q)
        rows.append((x - dx, y - dy, (x - dx) ** 2 + (y - dy) ** 2))
    (a0, a1, a2), (b0, b1, b2), (c0, c1, c2) = rows
    det = a0 * (b1 * c2 - b2 * c1) - a1 * (b0 * c2 - b2 * c0) + a2 * (b0 * c1 - b1 * c0)
    o = orient(a, b, c)
    return det if o > 0 else -det


def hull_of(p):
    """Corners of the convex hull, anti-clockwise, without points in line."""
    order = sorted(range(len(p)), key = lambda i: (p[i][0], p[i][1]))

    def half(o):
        h = []
        for i in o:
            while len(h) >= 2 and orient(p[h[-2]], p[h[-1]], p[i]) <= 0:
                h.pop()
            h.append(i)
        return h

    a, b = half(order), half(order[::-1])
    return a[:-1] + b[:-1]


def area(q):
    q = np.asarray(q, dtype = float)
    if len(q) < 3:
        return 0.0
    q = q - q[0]
    return 0.5 * float(np.sum(q[:, 0] * np.roll(q[:, 1], -1) - np.roll(q[:, 0], -1) * q[:, 1]))


def nearer(poly, a, b):
    """The part of a convex polygon which is nearer to a than to b."""
    n, mid, out = b - a, 0.5 * (a + b), []
    for i in range(len(poly)):
        p, q = poly[i], poly[(i + 1) % len(poly)]
        dp, dq = float(np.dot(p - mid, n)), float(np.dot(q - mid, n))
        if dp <= 0.0:
            out.append(p)
        if (dp < 0.0 < dq) or (dq < 0.0 < dp):
            out.append(p + (q - p) * dp / (dp - dq))
    return out


def point_sets(lattice, sizes):
    pts = LATTICES[lattice]
    for n in sizes:
        for s in itertools.combinations(range(len(pts)), n):
            p = [pts[i] for i in s]
            if all(orient(p[0], p[1], q) == 0 for q in p[2:]):
                continue
            yield s, np.array(p)


# ------------------------------------------------------------------------------------------------------------- triangulation


def do_dt(ctx, lattice, n):
    import resqpy.olio.triangulation as tri

    def case(s, p0, origin, order, algorithm, dims):
        p = p0[list(order)] + np.array(origin)
        given = p if dims == 2 else np.column_stack([p, np.arange(len(p)) * 7.0 % 5.0])
        keep = given.copy()
        t, b = tri.dt(given, algorithm = algorithm, return_hull = True)
        expect(np.array_equal(given, keep), 'points changed')
        again = tri.dt(given, algorithm = algorithm)
        expect(np.array_equal(np.sort(np.sort(again, axis = 1), axis = 0), np.sort(np.sort(t, axis = 1), axis = 0)), 'triangles without the hull', again, t)
        t = np.asarray(t)
        expect(t.ndim == 2 and t.shape[1] == 3 and np.all((t >= 0) & (t < len(p))), 'triangles', t)
        seen = set()
        total = 0.0
        for a in t:
            expect(len(set(a.tolist())) == 3 and frozenset(a.tolist()) not in seen, 'triangle repeated or degenerate', t)
            seen.add(frozenset(a.tolist()))
            o = orient(*p[a])
            expect(o != 0 or algorithm == 'simple', 'triangle in line', a, p[a])
            total += abs(float(o)) / 2.0
            if o:
                for d in range(len(p)):
                    if d not in a:
                        c = float(in_circle(p[a[0]], p[a[1]], p[a[2]], p[d]))
                        expect(c <= 1.0e-6 * float(abs(o)) * max(100.0, float(np.abs(p0).max()) ** 2), 'point in the circle of a triangle', a, d, p)
        want = abs(area(p[hull_of(p)] - p[0]))
        # the simple algorithm may leave slight concavities, as documented
        slack = 1.0e-6 if algorithm == 'scipy' else 0.03
        expect(-slack * want <= total - want <= 1.0e-6 * want, 'area of triangles', total, want)
        expect(len(np.unique(t)) == len(p), 'points without a triangle', t)
        corners = hull_of(p)
        expect(set(corners) <= set(b.tolist()) and len(set(b.tolist())) == len(b), 'hull', b, corners)
        for k in range(len(b)):
            q = b[k]
            expect(any(orient(p[corners[i]], p[corners[(i + 1) % len(corners)]], p[q]) == 0 for i in range(len(corners))) or algorithm == 'simple' and
                   min(float(orient(p[corners[i]], p[corners[(i + 1) % len(corners)]], p[q])) for i in range(len(corners))) < 0.02 * want, 'hull point within', b, q)
        expect(area(p[b] - p[0]) < 0.0, 'hull is not clockwise', b)
        expect(abs(-area(p[b] - p[0]) - want) < slack * want, 'area of hull', b)
        # edges, from the same triangles
        e, c = tri.edges(t)
        count = {}
        for a in t.tolist():
            for u, v in ((a[0], a[1]), (a[1], a[2]), (a[2], a[0])):
                count[(min(u, v), max(u, v))] = count.get((min(u, v), max(u, v)), 0) + 1
        expect({(int(x), int(y)): int(k) for (x, y), k in zip(e, c)} == count and len(e) == len(count), 'edges', e, c)
        expect(max(count.values()) <= 2, 'edge of more than two triangles', count)
        m = tri.make_all_clockwise_xy(t.copy(), given)
        expect([set(x) for x in m.tolist()] == [set(x) for x in t.tolist()], 'clockwise triangles have other points', m, t)
        expect(all(orient(*p[a]) <= 0 for a in m), 'triangle made clockwise is not', m)
        ctx.state((lattice, s, algorithm))
        ctx.step(len(t))
        ctx.outcome((algorithm, len(t)))

    for s, p in point_sets(lattice, [n]):
        for oi, origin in enumerate(ORIGINS):
            for ai, algorithm in enumerate(('scipy', 'simple')):
                for order in (list(range(n)), list(range(0, n, 2)) + list(range(n - 1 - n % 2, 0, -2))):
                    ctx.run(dict(points = s, origin = origin, order = order, by = algorithm), case, s, p, origin, order, algorithm, 2 + (oi + ai + s[0]) % 2)


AREAS = {
    'wide': [(-100.0, -100.0), (-100.0, 120.0), (120.0, 120.0), (120.0, -100.0)],
    'close': [(-5.0, -5.0), (-6.0, 31.0), (80.0, 30.0), (81.0, -6.0)],
    'six': [(-20.0, 10.0), (-5.0, 35.0), (75.0, 45.0), (95.0, 10.0), (75.0, -25.0), (-5.0, -15.0)],
    'triangle': [(-60.0, -30.0), (10.0, 190.0), (180.0, -30.0)],
    'long': [(-400.0, -9.0), (-400.0, 33.0), (400.0, 34.0), (400.0, -8.0)]
}


def centre_of(a, b, c):
    d = 2.0 * ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    u, v = np.sum((b - a)**2), np.sum((c - a)**2)
    return a + np.array([(c[1] - a[1]) * u - (b[1] - a[1]) * v, (b[0] - a[0]) * v - (c[0] - a[0]) * u]) / d


def within(poly, p):
    s = [(poly[(i + 1) % len(poly)][0] - poly[i][0]) * (p[1] - poly[i][1]) - (poly[(i + 1) % len(poly)][1] - poly[i][1]) * (p[0] - poly[i][0]) for i in range(len(poly))]
    return all(x < 0 for x in s)


def voronoi_case(ctx, lattice, s, p0, name, origin, dims):
    import resqpy.lines as rql
    import resqpy.olio.triangulation as tri
    m = rq.new_model(ctx.path('m.epc'), crs = True)
    off = np.array(origin)
    p = p0 + off
    ring = np.array(AREAS[name]) + off
    aoi = rql.Polyline(m, set_coord = np.column_stack([ring, np.zeros(len(ring))]), is_closed = True, set_crs = m.crs_uuid, title = 'area')
    given = p if dims == 2 else np.column_stack([p, np.arange(len(p)) * 1.5])
    t, b = tri.dt(given, return_hull = True)
    keep = (given.copy(), t.copy(), b.copy(), aoi.coordinates.copy())
    c, v = tri.voronoi(given, t, b, aoi)
    expect(all(np.array_equal(x, y) for x, y in zip(keep, (given, t, b, aoi.coordinates))), 'arguments changed')
    expect(len(v) == len(p) and c.shape[1] == 2, 'cells', len(v))
    for ti, a in enumerate(t):
        expect(near(c[ti], centre_of(*p[a]), 1.0e-5 if origin[0] > 1.0e5 else 1.0e-7), 'centre of triangle', a, c[ti], centre_of(*p[a]))
    tol = 1.0e-6 if origin[0] < 1.0e5 else 1.0e-4
    for i in range(len(p)):
        want = [x for x in ring]
        for j in range(len(p)):
            if j != i:
                want = nearer(want, p[i], p[j])
        got = c[v[i]]
        expect(abs(-area(got) - abs(area(want))) <= tol * abs(area(ring)), 'area of the cell of a point (negative if anti-clockwise)', i, -area(got), abs(area(want)))
        for q in got:
            d = np.sqrt(np.sum((p - q)**2, axis = 1))
            expect(d[i] <= d.min() + 10.0 * tol, 'corner of a cell nearer to another point', i, q)
    pts, tt = tri.triangulated_polygons(c, v, centres = p)
    expect(near(pts[:len(c)], c) and near(pts[len(c):], p) and len(tt) == sum(len(x) for x in v), 'triangulated cells', tt)
    n = 0
    for i in range(len(p)):
        k = len(v[i])
        expect(all(x[0] == len(c) + i for x in tt[n:n + k]) and [int(x[1]) for x in tt[n:n + k]] == [int(x) for x in v[i]], 'triangles of cell', i, tt[n:n + k])
        expect([int(x[2]) for x in tt[n:n + k]] == [int(x) for x in v[i][1:]] + [int(v[i][0])], 'triangles of cell', i, tt[n:n + k])
        n += k
    auto, t2 = tri.triangulated_polygons(c, v)
    expect(np.array_equal(t2, tt), 'triangles with found centres', t2)
    for i in range(len(p)):
        q = auto[len(c) + i]
        got = c[v[i]]
        expect(all((got[(k + 1) % len(got)][0] - got[k][0]) * (q[1] - got[k][1]) - (got[(k + 1) % len(got)][1] - got[k][1]) * (q[0] - got[k][0]) < tol * 100.0
                   for k in range(len(got))), 'centre outside of its cell', i, q)
    rq.close(m)
    ctx.state((lattice, s, name))
    ctx.step(len(p))
    ctx.outcome((name, len(p)))


def do_voronoi(ctx, lattice, n):
    names = ('wide', 'close', 'six') if ctx.tier == 'quick' else sorted(AREAS)
    for s, p in point_sets(lattice, [n]):
        for k, name in enumerate(names):
            import resqpy.olio.triangulation as tri
            t = tri.dt(p)
            if not all(within(AREAS[name], centre_of(*p[a])) for a in t):
                continue  # centres outside of the area: see the finding
            for oi, origin in enumerate(ORIGINS):
                if (oi + k + s[0] + s[1]) % 3 == 0 or ctx.tier != 'quick':
                    ctx.run(dict(points = s, area = name, origin = origin), voronoi_case, ctx, lattice, s, p, name, origin, 2 + (oi + n) % 2)


def do_far_centres(ctx):
    """Three points nearly in line: the centre of the circle is outside of the area."""
    pts = LATTICES['bent']
    for s in ((0, 1, 2), (0, 3, 6), (3, 4, 5)):
        def case(s):
            try:
                voronoi_case(ctx, 'bent', s, np.array([pts[i] for i in s]), 'wide', ORIGINS[0], 2)
            except core.Violation as e:
                raise core.Violation('centre of a triangle outside of the area: ' + str(e))
        ctx.run(str(s), case, s)


# ------------------------------------------------------------------------------------------------------------- edges and rims


def do_rims(ctx, share, of):
    import resqpy.olio.triangulation as tri
    full = []
    for y in range(2):
        for x in range(2):
            a, b, c, d = 3 * y + x, 3 * y + x + 1, 3 * y + x + 3, 3 * y + x + 4
            full += [(a, b, c), (b, d, c)] if (x + y) % 2 else [(a, b, d), (a, d, c)]

    def case(chosen, turn):
        t = np.array([tuple(full[i][(k + turn * i) % 3] for k in range(3)) if (i + turn) % 2 else full[i][::-1] for i in chosen], dtype = np.int32)
        e, c = tri.edges(t)
        count = {}
        for a in t.tolist():
            for u, v in ((a[0], a[1]), (a[1], a[2]), (a[2], a[0])):
                count[(min(u, v), max(u, v))] = count.get((min(u, v), max(u, v)), 0) + 1
        expect({(int(x), int(y)): int(k) for (x, y), k in zip(e, c)} == count, 'edges', e, c, count)
        rim = tri.rim_edges(e, c)
        inner = tri.internal_edges(e, c)
        expect(sorted(map(tuple, rim.tolist())) == sorted(k for k, v in count.items() if v == 1), 'rim', rim)
        expect(sorted(map(tuple, inner.tolist())) == sorted(k for k, v in count.items() if v == 2), 'internal edges', inner)
        edge_lists, point_lists = tri.rims(rim)
        used = []
        for el, pl in zip(edge_lists, point_lists):
            expect(len(el) == len(pl) >= 3, 'rim loop', el, pl)
            for k in range(len(el)):
                u, v = int(pl[k]), int(pl[(k + 1) % len(pl)])
                expect(tuple(rim[el[k]].tolist()) == (min(u, v), max(u, v)), 'edge of a rim', el, pl)
            used += [int(k) for k in el]
        expect(sorted(used) == list(range(len(rim))), 'rim edges used', used)
        for q in range(9):
            expect(tri.triangles_using_point(t, q).tolist() == [i for i, a in enumerate(t.tolist()) if q in a], 'triangles using point', q)
        pairs = np.array(list(itertools.combinations(range(9), 2)))
        both = tri.triangles_using_edges(t, pairs)
        for (u, v), got in zip(pairs.tolist(), both.tolist()):
            want = [i for i, a in enumerate(t.tolist()) if u in a and v in a]
            expect(tri.triangles_using_edge(t, u, v).tolist() == want, 'triangles using edge', u, v)
            expect(got == want + [-1] * (2 - len(want)), 'triangles using edges', u, v, got, want)
        ctx.state((chosen, turn))
        ctx.step(4)
        ctx.outcome(len(edge_lists))

    n = 0
    for k in range(1, len(full) + 1):
        for chosen in itertools.combinations(range(len(full)), k):
            for turn in (0, 1, 2):
                n += 1
                if n % of == share:
                    ctx.run(dict(triangles = chosen, turn = turn), case, chosen, turn)


# ------------------------------------------------------------------------------------------------------------- triangles


def do_triangles(ctx, share, of):
    import resqpy.olio.vector_utilities as vec
    lat = [(float(x), float(y)) for y in range(3) for x in range(3)]
    ask = np.array([(0.25 * x + 0.03125, 0.25 * y + 0.015625) for y in range(-2, 11) for x in range(-2, 11)])

    def case(s, origin):
        p = np.array([lat[i] for i in s]) * 4.0 + np.array(origin)
        q = ask * 4.0 + np.array(origin)
        shape13 = np.array([orient(p[a], p[b], x) == 0 for x in q for a, b in ((0, 1), (1, 2), (2, 0))]).reshape((-1, 3)).any(axis = 1)
        q[shape13] += np.array((0.01171875, 0.017578125))  # not on an edge
        o = orient(*p)
        expect(np.sign(vec.clockwise(*p)) == -np.sign(float(o)), 'clockwise', vec.clockwise(*p))
        inside = []
        for x in q:
            a, b, c = orient(p[0], p[1], x), orient(p[1], p[2], x), orient(p[2], p[0], x)
            inside.append((a > 0 and b > 0 and c > 0) or (a < 0 and b < 0 and c < 0))
            edge = a == 0 or b == 0 or c == 0
            expect(not edge, 'a point on an edge should not be asked for', x)
        ccw = p if o > 0 else p[::-1]
        if o:
            expect([bool(vec.in_triangle(*ccw, x)) for x in q] == inside, 'in_triangle')
            expect([bool(vec.in_triangle_edged(*ccw, x)) for x in q] == inside, 'in_triangle_edged')
            expect(all(vec.in_triangle_edged(*ccw, x) and not vec.in_triangle(*ccw, x) for x in list(p) + [0.5 * (p[0] + p[1]), 0.5 * (p[1] + p[2])]), 'corners and middles of edges')
            expect([bool(vec.in_circumcircle(*ccw, x)) for x in q] == [in_circle(p[0], p[1], p[2], x) > 0 for x in q], 'in_circumcircle')
        expect([bool(vec.point_in_triangle(x[0], x[1], p)) for x in q] == inside, 'point_in_triangle')
        expect([bool(vec.point_in_polygon(x[0], x[1], p)) for x in q] == inside, 'point_in_polygon')
        t = np.array([(0, 1, 2), (2, 1, 0)])
        expect(np.array_equal(vec.points_in_triangles(p, t, q), np.array([inside, inside])), 'points_in_triangles')
        rows = [[5, i // 13, i % 13] for i in range(len(q)) if inside[i]]
        expect(vec.points_in_polygon(q, p, 13, 5).tolist() == rows, 'points_in_polygon')
        expect(vec.points_in_triangle(q, p, 13, 5).tolist() == rows, 'points_in_triangle')
        expect(sorted(vec.points_in_polygons(q, np.array([p, p + 100.0]), 13).tolist()) == sorted([0] + r[1:] for r in rows), 'points_in_polygons')
        box = vec.triangle_box(p)
        expect(near(box, (p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max())), 'triangle_box', box)
        for proj in ('xy', 'xz', 'yz'):
            axes = ['xyz'.index(ch) for ch in proj]
            p3 = np.full((3, 3), 17.0)
            p3[:, axes] = p
            q3 = np.full((len(q), 3), -3.0)
            q3[:, axes] = q
            expect(np.array_equal(np.sign(vec.clockwise_triangles(p3, t, projection = proj)), [-np.sign(float(o)), np.sign(float(o))]), 'clockwise_triangles', proj)
            expect(np.array_equal(vec.points_in_triangles(p3, t, q3, projection = proj), np.array([inside, inside])), 'points_in_triangles', proj)
            i0 = int(np.argmin(np.sum((q - p[0])**2, axis = 1)))
            expect(vec.nearest_point_projected(p3[0], q3, proj) == (i0,), 'nearest_point_projected', proj)
            if o:
                expect(near(vec.area_of_triangles(p3, t), [abs(float(o)) / 2] * 2, 1.0e-6), 'area_of_triangles', proj)
                expect(abs(vec.area_of_triangle(*p3) - abs(float(o)) / 2) < 1.0e-6, 'area_of_triangle')
                nv = np.zeros(3)
                third = 3 - sum(axes)
                nv[third] = (1.0 if o > 0 else -1.0) * (-1.0 if third == 1 else 1.0)
                expect(near(vec.triangle_normal_vector(p3), nv), 'triangle_normal_vector', proj, vec.triangle_normal_vector(p3))
                expect(near(vec.triangle_normal_vector_numba(p3), nv), 'triangle_normal_vector_numba', proj)
        if o:
            tilted = np.column_stack([p, p[:, 0] - 2.0 * p[:, 1]])
            expect(abs(vec.area_of_triangles(tilted, t[:1], xy_projection = True)[0] - abs(float(o)) / 2) < 1.0e-4, 'area projected')
        a, b = p[0], p[1]
        for x in q[::11]:
            ab = b - a
            f = min(1.0, max(0.0, np.dot(x - a, ab) / np.dot(ab, ab)))
            expect(abs(vec.point_distance_to_line_segment_2d(x, a, b) - np.linalg.norm(x - a - f * ab)) < 1.0e-6, 'distance to line segment', x, a, b)
            expect(abs(vec.point_distance_to_line_2d(x, a, b) - abs(ab[0] * (x - a)[1] - ab[1] * (x - a)[0]) / np.linalg.norm(ab)) < 1.0e-6, 'distance to line', x, a, b)
        xs = sorted([p[0][0], p[1][0]])
        for x in np.unique(np.concatenate([q[:13, 0], p[:, 0]])):
            y = vec.vertical_intercept(x, p[:2, 0], p[:2, 1])
            yn = vec.vertical_intercept_nan(x, p[0, 0], p[1, 0], p[0, 1], p[1, 1])
            yy, zz = vec.vertical_intercept_nan_yz(x, p[0, 0], p[1, 0], p[0, 1], p[1, 1], 2.0, 4.0)
            if xs[0] <= x <= xs[1]:
                if xs[0] != xs[1]:
                    f = (x - p[0][0]) / (p[1][0] - p[0][0])
                    want = p[0][1] + f * (p[1][1] - p[0][1])
                    expect(abs(y - want) < 1.0e-6 and abs(yn - want) < 1.0e-6 and abs(yy - want) < 1.0e-6 and abs(zz - 2.0 - 2.0 * f) < 1.0e-6, 'vertical intercept', x, y, yn, yy, zz, want)
                else:
                    expect(y in (p[0][1], p[1][1]) and yn in (p[0][1], p[1][1]), 'intercept with a vertical line', y, yn)
            else:
                expect(y is None and np.isnan(yn) and np.isnan(yy) and np.isnan(zz), 'intercept outside of the line', x, y, yn, yy, zz)
        ctx.state((s, origin))
        ctx.step(20)
        ctx.outcome(o == 0)

    n = 0
    for s in itertools.permutations(range(9), 3):
        n += 1
        if n % of == share:
            ctx.run(dict(triangle = s), case, s, ((0.0, 0.0), (-3.0, 40.0))[n // of % 2])


# ------------------------------------------------------------------------------------------------------------- directions


def directions(tier):
    d = [v for v in itertools.product((-1.0, 0.0, 1.0), repeat = 3) if any(v)]
    for azi in range(0, 360, 30 if tier == 'quick' else 15):
        for inc in (10.0, 45.0, 100.0, 170.0):
            d.append((math.sin(math.radians(azi)) * math.sin(math.radians(inc)), math.cos(math.radians(azi)) * math.sin(math.radians(inc)), math.cos(math.radians(inc))))
    return d


def angle_gap(a, b):
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


def rotation(axis, degrees):
    r = math.radians(degrees)
    a, b = (axis + 1) % 3, (axis + 2) % 3
    m = np.eye(3)
    m[a, a] = m[b, b] = math.cos(r)
    m[a, b], m[b, a] = -math.sin(r), math.sin(r)
    return m


def do_vectors(ctx, share, of):
    import resqpy.olio.vector_utilities as vec
    dirs = directions(ctx.tier)
    arr = np.array(dirs)

    def one(v, scale):
        v = np.array(v) * scale
        length = math.sqrt(sum(x * x for x in v))
        expect(near(vec.unit_vector(v), v / length) and near(vec.unit_vector(list(v)), v / length) and near(vec.unit_vector_njit(v), v / length), 'unit_vector', v)
        expect(abs(vec.naive_length(v) - length) < 1.0e-9 * length and abs(vec.naive_2d_length(v) - math.hypot(v[0], v[1])) < 1.0e-9 * length, 'length', v)
        expect(abs(vec.unit_corrected_length(v, [1.0, 1.0, 0.3048]) - math.sqrt(v[0]**2 + v[1]**2 + (v[2] * 0.3048)**2)) < 1.0e-9 * length, 'unit_corrected_length', v)
        azi = math.degrees(math.atan2(v[0], v[1])) % 360.0
        inc = math.degrees(math.acos(max(-1.0, min(1.0, v[2] / length))))
        vertical = math.hypot(v[0], v[1]) < 1.0e-9 * length
        if not vertical:
            got = vec.azimuth(v)
            expect(0.0 <= got <= 360.0 and angle_gap(got, azi) < 1.0e-6, 'azimuth', v, got, azi)
            expect(angle_gap(vec.azimuth(v[:2]), azi) < 1.0e-6, 'azimuth of a 2D vector', v)
            u = vec.unit_vector_from_azimuth(azi)
            expect(near(u[:2], v[:2] / math.hypot(v[0], v[1])) and u[2] == 0.0, 'unit_vector_from_azimuth', azi, u)
            expect(near(vec.unit_vector_from_azimuth(azi - 360.0), u), 'unit vector from negative azimuth', azi)
        else:
            expect(vec.azimuth(v) == 0.0, 'azimuth of a vertical', vec.azimuth(v))
        expect(abs(vec.inclination(v) - inc) < 1.0e-5, 'inclination', v, vec.inclination(v), inc)
        u = vec.unit_vector_from_azimuth_and_inclination(azi, inc)
        expect(near(u, v / length, 1.0e-6), 'unit_vector_from_azimuth_and_inclination', azi, inc, u, v)
        for f in (vec.rotation_matrix_3d_vector, vec.rotation_matrix_3d_vector_njit):
            m = f(v)
            expect(near(m @ m.T, np.eye(3), 1.0e-9) and abs(np.linalg.det(m) - 1.0) < 1.0e-9, 'rotation to a vector is not a rotation', m)
            expect(near(m @ np.array((0.0, 0.0, 1.0)), v / length, 1.0e-9), 'z axis is not mapped onto the vector', v, m)
            expect(near(m @ (v / length), (0.0, 0.0, 1.0), 1.0e-9), 'the vector is not mapped onto the z axis', v, m)
        if not vertical:
            xs = vec.rotate_xyz_array_around_z_axis(np.array([v, [0.0, 0.0, 5.0], [-v[1], v[0], 0.0]]), v)
            expect(near(xs[0], (math.hypot(v[0], v[1]), 0.0, v[2]), 1.0e-6 * length) and near(xs[1], (0, 0, 5.0)), 'section along a vector', xs)
            expect(abs(xs[2][0]) < 1.0e-6 * length and abs(xs[2][1] - math.hypot(v[0], v[1])) < 1.0e-6 * length, 'across a section', xs)
        ctx.state((tuple(v), 'one'))

    def all_of_them(v, scale):
        one(v, scale)
        a = arr * scale
        lengths = np.sqrt((a * a).sum(axis = 1))
        shaped = np.vstack([a, np.zeros((len(a) % 2, 3))]) if len(a) % 2 else a
        for b in (shaped, shaped.reshape((2, -1, 3))):
            f = b.reshape((-1, 3))
            ln = np.sqrt((f * f).sum(axis = 1))
            keep = b.copy()
            u = vec.unit_vectors(b)
            expect(u.shape == b.shape and near(u.reshape((-1, 3)), f / ln[:, None]), 'unit_vectors')
            bn = b.copy()
            bn.reshape((-1, 3))[3] = np.nan
            un = vec.nan_unit_vectors(bn).reshape((-1, 3))
            expect(np.all(np.isnan(un[3])) and near(np.delete(un, 3, 0), np.delete(f / ln[:, None], 3, 0)), 'nan_unit_vectors')
            expect(near(vec.naive_lengths(b).flatten(), ln) and near(vec.naive_2d_lengths(b).flatten(), np.hypot(f[:, 0], f[:, 1])), 'lengths')
            az = vec.azimuths(b).flatten()
            ic = vec.inclinations(b).flatten()
            icn = vec.nan_inclinations(bn).flatten()
            for i in range(len(f)):
                if abs(f[i, 0]) + abs(f[i, 1]) > 1.0e-9:
                    expect(angle_gap(az[i], math.degrees(math.atan2(f[i, 0], f[i, 1]))) < 1.0e-6, 'azimuths', f[i], az[i])
                w = math.degrees(math.acos(max(-1.0, min(1.0, f[i, 2] / ln[i]))))
                expect(abs(ic[i] - w) < 1.0e-5 and (np.isnan(icn[i]) if i == 3 else abs(icn[i] - w) < 1.0e-5), 'inclinations', f[i], ic[i], icn[i])
            expect(np.array_equal(keep, b), 'vectors changed')
        ctx.step(len(arr))

    def pair(v, w):
        v, w = np.array(v), np.array(w)
        c = float(np.dot(v, w) / np.linalg.norm(v) / np.linalg.norm(w))
        a = math.degrees(math.acos(max(-1.0, min(1.0, c))))
        expect(abs(vec.degrees_difference(v, w) - a) < 1.0e-5 and abs(vec.degrees_difference(3.0 * w, v) - a) < 1.0e-5, 'degrees_difference', v, w)
        expect(abs(vec.radians_difference(v, w) - math.radians(a)) < 1.0e-6, 'radians_difference', v, w)
        expect(near(vec.add(v, w), v + w) and near(vec.subtract(v, w), v - w) and near(vec.elemental_multiply(v, w), v * w) and near(vec.amplify(v, 2.5), 2.5 * v), 'sums', v, w)
        x = vec.cross_product(v, w)
        expect(near(x, (v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0])), 'cross_product', v, w)
        expect(abs(vec.dot_product(v, w) - sum(v * w)) < 1.0e-12 and abs(vec.determinant(v, w, x) - np.dot(x, x)) < 1.0e-9 and
               abs(vec.determinant_3x3(np.array([v, w, x])) - np.dot(x, x)) < 1.0e-9, 'products', v, w)
        expect(abs(vec.manhattan_distance(v, w) - np.abs(v - w).sum()) < 1.0e-12, 'manhattan_distance')
        expect(vec.isclose(v, w) == bool(np.all(np.abs(v - w) <= 1.0e-6)) and vec.is_close(v, w + 1.0e-7) == vec.isclose(v, w), 'isclose')
        expect(bool(vec.is_obtuse_2d(np.zeros(3), v, w)) == (v[0] * w[0] + v[1] * w[1] < 0.0), 'is_obtuse_2d')
        ctx.state((tuple(v), tuple(w)))

    n = 0
    for v in dirs:
        for scale in (1.0, 0.125, 3.0e4):
            n += 1
            if n % of == share:
                ctx.run(dict(vector = v, scale = scale), all_of_them, v, scale)
        for w in dirs:
            n += 1
            if n % of == share:
                ctx.run(dict(vectors = (v, w)), pair, v, w)


def do_rotations(ctx, share, of):
    import resqpy.olio.vector_utilities as vec
    angles = (0.0, 30.0, 90.0, -45.0, 180.0, 250.0) if ctx.tier == 'quick' else (0.0, 30.0, 90.0, -45.0, 180.0, 250.0, -90.0, 360.0, 12.5)
    pts = np.array([(1.0, 2.0, 3.0), (-4.0, 0.5, 2.0), (0.0, 0.0, 1.0), (7.0, -7.0, 0.0)]).reshape((2, 2, 3))

    def rotate(ab):
        c, a, b = ab
        keep = pts.copy()
        want = rotation(1, b) @ rotation(2, a) @ rotation(0, c)
        for f in (vec.rotation_3d_matrix, vec.rotation_3d_matrix_njit):
            m = f(np.array((c, a, b)))
            expect(near(m, want), 'rotation about x, z then y', ab, m, want)
        expect(near(vec.reverse_rotation_3d_matrix((c, a, b)), want.T), 'reverse rotation')
        for axis, g in ((0, c), (1, b), (2, a)):
            expect(near(vec.rotation_matrix_3d_axial(axis, g), rotation(axis, g)), 'rotation about an axis', axis, g)
        got = vec.rotate_array(want, pts)
        expect(got.shape == pts.shape and near(got.reshape((-1, 3)), [want @ q for q in pts.reshape((-1, 3))]), 'rotate_array', got)
        expect(near(vec.rotate_array_njit(want, pts), got) and near(vec.rotate_vector(want, pts[0, 0]), got[0, 0]), 'rotate', got)
        expect(np.array_equal(keep, pts), 'points changed')
        expect(near(vec.no_rotation_matrix(), np.eye(3)), 'no rotation')
        ctx.state(ab)
        ctx.step(5)
        ctx.outcome('rotation')

    def tilt(azi, dip):
        m = vec.tilt_3d_matrix(azi, dip)
        expect(near(m @ m.T, np.eye(3)) and abs(np.linalg.det(m) - 1.0) < 1.0e-9, 'tilt is not a rotation', m)
        a, d = math.radians(azi), math.radians(dip)
        along, across = np.array((math.sin(a), math.cos(a), 0.0)), np.array((math.cos(a), -math.sin(a), 0.0))
        expect(near(m @ across, across), 'the strike is moved by a tilt', azi, dip, m @ across)
        expect(near(m @ along, (math.cos(d) * along[0], math.cos(d) * along[1], math.sin(d))), 'the dip direction after a tilt', azi, dip, m @ along)
        p = pts.copy()
        pivot = np.array((10.0, -3.0, 2.0))
        vec.tilt_points(pivot, azi, dip, p)
        expect(near(p.reshape((-1, 3)), [m @ (q - pivot) + pivot for q in pts.reshape((-1, 3))]), 'tilt_points', p)
        vec.tilt_points(pivot, azi, -dip, p)
        expect(near(p, pts), 'tilt and back', p)
        ctx.state((azi, dip))
        ctx.step(3)
        ctx.outcome('tilt')

    n = 0
    for ab in itertools.product(angles, repeat = 3):
        n += 1
        if n % of == share:
            ctx.run(dict(angles = ab), rotate, ab)
    for azi in range(0, 360, 30):
        for dip in (0.0, 10.0, 45.0, 90.0, 120.0, -20.0):
            n += 1
            if n % of == share:
                ctx.run(dict(azimuth = azi, dip = dip), tilt, float(azi), dip)


def do_reorient(ctx, share, of):
    import resqpy.olio.triangulation as tri
    flat = np.array([(x * 10.0, y * 8.0 + x, 0.0) for y in range(4) for x in range(5)])

    def case(azi, dip, bumps, kw):
        a, d = math.radians(azi), math.radians(dip)
        u = np.array((math.sin(a) * math.cos(d), math.cos(a) * math.cos(d), math.sin(d)))
        w = np.array((math.cos(a), -math.sin(a), 0.0))
        normal = np.cross(u, w)
        if normal[2] < 0.0:
            normal = -normal
        z = np.array([((i * 7) % 5 - 2) * bumps for i in range(len(flat))])
        p = np.array([q[0] * u + q[1] * w + b * normal for q, b in zip(flat, z)]) + np.array((100.0, 50.0, 1000.0))
        shaped = p.reshape((4, 5, 3)) if kw.get('shaped') else p
        opts = {k: v for k, v in kw.items() if k != 'shaped'}
        keep = shaped.copy()
        got, nv, m = tri.reorient(shaped, **opts)
        expect(np.array_equal(shaped, keep), 'points changed')
        expect(got.shape == shaped.shape, 'shape', got.shape)
        expect(near(m @ m.T, np.eye(3), 1.0e-9) and abs(np.linalg.det(m) - 1.0) < 1.0e-9, 'not a rotation', m)
        expect(near(got.reshape((-1, 3)), (m @ p.T).T, 1.0e-8), 'points are not rotated by the matrix')
        expect(near(m @ nv, (0.0, 0.0, 1.0), 1.0e-6) and nv[2] >= -1.0e-9, 'normal', nv, m @ nv)
        off = math.degrees(math.acos(min(1.0, abs(float(np.dot(nv, normal))))))
        limit = opts.get('max_dip')
        tilt = math.degrees(math.acos(min(1.0, max(-1.0, float(nv[2])))))
        true = math.degrees(math.acos(min(1.0, float(normal[2]))))
        if limit is not None:
            expect(tilt <= limit + 1.0e-6, 'dip is over the limit', tilt, limit)
        if limit is None or true < limit - 12.0:
            most = (1.0e-5 if not bumps else 2.0) if opts.get('use_linalg', True) else (11.0 if opts.get('rough', True) else 3.5) + 20.0 * bumps
            expect(off <= most, 'angle to the normal of the plane', off, most)
        elif true > limit + 12.0:
            expect(abs(tilt - limit) < 1.0e-6, 'dip should be at the limit', tilt, limit)
            if true < 85.0:
                expect(abs(nv[0] * normal[1] - nv[1] * normal[0]) < (0.05 if opts.get('use_linalg', True) else 0.35), 'azimuth of the normal', nv, normal)
                expect(nv[0] * normal[0] + nv[1] * normal[1] > 0.0, 'azimuth of the normal reversed', nv, normal)
        ctx.state((azi, dip, bumps, str(kw)))
        ctx.step(3)
        ctx.outcome(str(sorted(opts)))

    n = 0
    for azi in range(0, 360, 45):
        for dip in (0.0, 5.0, 20.0, 45.0, 70.0):
            for bumps in (0.0, 0.05):
                for kw in (dict(), dict(shaped = True), dict(sample = 6), dict(sample = None), dict(max_dip = 30.0), dict(max_dip = 90.0),
                           dict(use_linalg = False), dict(use_linalg = False, rough = False), dict(use_linalg = False, max_dip = 15.0)):
                    if kw.get('sample') == 6 and bumps:
                        continue
                    n += 1
                    if n % of == share:
                        ctx.run(dict(azimuth = azi, dip = dip, bumps = bumps, options = str(kw)), case, float(azi), dip, bumps, kw)

    def ring(pick, count, factor, distance, inner, saucer):
        p = flat[list(pick)] + np.array((50.0, -20.0, 300.0))
        r = tri.surrounding_xy_ring(p, count = count, radial_factor = factor, radial_distance = distance, inner_ring = inner, saucer_angle = saucer)
        expect(r.shape == ((3 if inner else 1) * count, 3), 'points in the ring', r.shape)
        c = p.mean(axis = 0)
        half = math.hypot(*np.abs(p - c).max(axis = 0)[:2])
        outer = max(half * factor, distance or 0.0)
        far = np.max(np.hypot(*(p - c)[:, :2].T))
        parts = [(r[-count:], outer, count)] + ([(r[:2 * count], half * 1.1, 2 * count)] if inner else [])
        for q, radius, k in parts:
            d = np.hypot(*(q - c)[:, :2].T)
            expect(near(d, np.full(k, radius), 1.0e-6), 'radius of a ring', d, radius)
            az = np.sort(np.degrees(np.arctan2(q[:, 1] - c[1], q[:, 0] - c[0])) % 360.0)
            expect(near(np.diff(az), np.full(k - 1, 360.0 / k), 1.0e-6), 'spacing of a ring', az)
            expect(near(q[:, 2], np.full(k, c[2] - radius * math.tan(math.radians(saucer or 0.0))), 1.0e-6), 'z of a ring', q[:, 2])
            expect(radius >= far - 1.0e-9, 'ring within the points', radius, far)
        ctx.outcome('ring')
        ctx.step(2)

    for pick in ((0, 1, 5), (0, 4, 15, 19), tuple(range(20)), (2, 7, 12, 17)):
        for count in (3, 12):
            for factor in (1.2, 10.0):
                for distance in (None, 5.0, 1000.0):
                    for inner in (False, True):
                        for saucer in (None, 0.0, 10.0, -60.0):
                            n += 1
                            if n % of == share:
                                ctx.run(dict(points = pick, count = count, factor = factor, distance = distance, inner = inner, saucer = saucer),
                                        ring, pick, count, factor, distance, inner, saucer)


def jobs(tier):
    js = []
    for lattice in ('square', 'bent', 'long'):
        for n in range(3, 7 if tier == 'quick' else 9):
            js.append(('triangulations of %d points, %s' % (n, lattice), do_dt, dict(lattice = lattice, n = n)))
            js.append(('cells of %d points, %s' % (n, lattice), do_voronoi, dict(lattice = lattice, n = n)))
    js.append(('cells with a far centre', do_far_centres, {}))
    for s in range(2):
        js.append(('rims, part %d' % s, do_rims, dict(share = s, of = 2)))
    for s in range(4):
        js.append(('triangles, part %d' % s, do_triangles, dict(share = s, of = 4)))
    for s in range(4):
        js.append(('vectors, part %d' % s, do_vectors, dict(share = s, of = 4)))
    for s in range(2):
        js.append(('rotations, part %d' % s, do_rotations, dict(share = s, of = 2)))
    for s in range(4):
        js.append(('reorientation, part %d' % s, do_reorient, dict(share = s, of = 4)))
    return js
